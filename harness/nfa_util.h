// Observing NFAs through their public interface.
#ifndef VERIF_NFA_UTIL_H
#define VERIF_NFA_UTIL_H
#include "common.h"
#include <pdaaal/NFA.h>
#include <map>
namespace vf {
    inline std::vector<std::vector<int>> words(int nl, int k) {
        std::vector<std::vector<int>> res{{}};
        size_t from = 0;
        for (int n = 1; n <= k; ++n) {
            size_t to = res.size();
            for (size_t i = from; i < to; ++i) for (int l = 0; l < nl; ++l) { auto w = res[i]; w.push_back(l); res.push_back(w); }
            from = to;
        }
        return res;
    }
    // The words of length at most k that a compiled NFA accepts; sym maps a label number to the NFA's symbol.
    template <typename T, typename F>
    std::vector<std::vector<int>> nfa_accepted(const pdaaal::NFA<T>& nfa, int nl, int k, F&& sym) {
        using state_t = typename pdaaal::NFA<T>::state_t;
        std::vector<std::vector<int>> res;
        std::function<void(std::vector<const state_t*>, std::vector<int>&)> go = [&](std::vector<const state_t*> s, std::vector<int>& w) {
            bool acc = false; for (auto x : s) acc |= x->_accepting;
            if (acc) res.push_back(w);
            if ((int)w.size() == k) return;
            for (int l = 0; l < nl; ++l) {
                w.push_back(l);
                go(pdaaal::NFA<T>::successor(s, sym(l)), w);
                w.pop_back();
            }
        };
        std::vector<const state_t*> init(nfa.initial().begin(), nfa.initial().end());
        std::vector<int> w;
        go(init, w);
        return res;
    }
}
#endif
