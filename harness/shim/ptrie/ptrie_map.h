// Stand-in for the ptrie library (https://github.com/petergjoel/ptrie), which is not available offline.
// It offers the part of the interface PDAAAL uses, with the documented contract: keys are compared by the byte
// string produced by byte_iterator, ids are dense and stable, unpack(id) is the inverse of insert.
#ifndef VERIF_PTRIE_SHIM_H
#define VERIF_PTRIE_SHIM_H
#include <cstddef>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <memory>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <stdexcept>
#include <cassert>

namespace ptrie {
    typedef unsigned char uchar;
    template <typename KEY>
    struct byte_iterator {
        static constexpr size_t element_size() { return sizeof(KEY); }
        static uchar& access(KEY* data, size_t id) { return ((uchar*)data)[id]; }
        static const uchar& const_access(const KEY* data, size_t id) { return ((const uchar*)data)[id]; }
    };

    template <typename KEY>
    class set_stable {
        using it = byte_iterator<KEY>;
        std::unordered_map<std::string, size_t> _ids;
        std::vector<std::string> _keys;
        static std::string bytes(const KEY* data, size_t n) {
            std::string s;
            s.reserve(n * it::element_size());
            for (size_t k = 0; k < n; ++k)
                for (size_t i = 0; i < it::element_size(); ++i) s.push_back((char)it::const_access(data + k, i));
            return s;
        }
    public:
        set_stable() = default;
        set_stable(set_stable&&) = default;
        set_stable& operator=(set_stable&&) = default;
        set_stable(const set_stable&) = default;
        set_stable& operator=(const set_stable&) = default;

        std::pair<bool, size_t> insert(const KEY* data, size_t n) {
            auto [i, fresh] = _ids.emplace(bytes(data, n), _keys.size());
            if (fresh) _keys.push_back(i->first);
            return {fresh, i->second};
        }
        std::pair<bool, size_t> insert(const KEY& key) { return insert(&key, 1); }
        std::pair<bool, size_t> insert(const std::vector<KEY>& key) { return insert(key.data(), key.size()); }
        std::pair<bool, size_t> insert(std::pair<const KEY*, size_t> key) { return insert(key.first, key.second); }

        [[nodiscard]] std::pair<bool, size_t> exists(const KEY* data, size_t n) const {
            auto i = _ids.find(bytes(data, n));
            if (i == _ids.end()) return {false, (size_t)-1};
            return {true, i->second};
        }
        [[nodiscard]] std::pair<bool, size_t> exists(const KEY& key) const { return exists(&key, 1); }
        [[nodiscard]] std::pair<bool, size_t> exists(const std::vector<KEY>& key) const { return exists(key.data(), key.size()); }
        [[nodiscard]] std::pair<bool, size_t> exists(std::pair<const KEY*, size_t> key) const { return exists(key.first, key.second); }

        bool erase(const KEY* data, size_t n) { return _ids.erase(bytes(data, n)) > 0; }
        bool erase(const KEY& key) { return erase(&key, 1); }
        bool erase(const std::vector<KEY>& key) { return erase(key.data(), key.size()); }
        bool erase(std::pair<const KEY*, size_t> key) { return erase(key.first, key.second); }

        [[nodiscard]] size_t size() const { return _ids.size(); }

        size_t unpack(size_t id, KEY* dest) const {
            const auto& s = _keys.at(id);
            for (size_t i = 0; i < s.size(); ++i) it::access(dest + i / it::element_size(), i % it::element_size()) = (uchar)s[i];
            return s.size() / it::element_size();
        }
        [[nodiscard]] std::vector<KEY> unpack(size_t id) const {
            std::vector<KEY> res(_keys.at(id).size() / it::element_size());
            if (!res.empty()) unpack(id, res.data());
            return res;
        }
    };
    template <typename KEY> using set = set_stable<KEY>;

    template <typename KEY, typename T>
    class map : public set_stable<KEY> {
        std::deque<T> _data;
        using base = set_stable<KEY>;
    public:
        map() = default;
        map(map&&) = default;
        map& operator=(map&&) = default;
        map(const map&) = default;
        map& operator=(const map&) = default;

        template <typename K> std::pair<bool, size_t> insert(const K& key) {
            auto r = base::insert(key);
            if (r.first) _data.emplace_back();
            return r;
        }
        T& get_data(size_t id) { return _data.at(id); }
        const T& get_data(size_t id) const { return _data.at(id); }
        template <typename K> T& operator[](const K& key) { return _data.at(insert(key).second); }
    };
}
#endif
