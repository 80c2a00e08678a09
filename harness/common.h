// Shared machinery of the conformance drivers: deterministic RNG, a tiny JSON writer and a crash-isolating case loop.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>
#include <vector>
#include <utility>
#include <array>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

#ifdef __SANITIZE_ADDRESS__
extern "C" inline __attribute__((used)) const char* __asan_default_options() { return "detect_leaks=0:quarantine_size_mb=32:detect_stack_use_after_return=1:exitcode=77"; }
#endif
namespace vf {
    struct Rng {
        uint64_t s;
        explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
        uint64_t next() {
            uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        uint32_t below(uint32_t n) { return n == 0 ? 0 : (uint32_t)(next() % n); }
        int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); } // inclusive
        bool chance(int pct) { return (int)below(100) < pct; }
        template <typename T> const T& pick(const std::vector<T>& v) { return v[below((uint32_t)v.size())]; }
    };

    // ---- JSON ----
    inline std::string js(const std::string& s) {
        std::string r = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
            else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += (char)c;
        }
        return r + "\"";
    }
    inline std::string js(const char* s) { return js(std::string(s)); }
    inline std::string js(bool b) { return b ? "true" : "false"; }
    inline std::string js(int v) { return std::to_string(v); }
    inline std::string js(long v) { return std::to_string(v); }
    inline std::string js(long long v) { return std::to_string(v); }
    inline std::string js(unsigned v) { return std::to_string(v); }
    inline std::string js(unsigned long v) { return std::to_string(v); }
    inline std::string js(unsigned long long v) { return std::to_string(v); }
    template <typename A, typename B> std::string js(const std::pair<A,B>& p);
    template <typename T> std::string js(const std::vector<T>& v);
    template <typename T, size_t N> std::string js(const std::array<T,N>& v);
    template <typename A, typename B> std::string js(const std::pair<A,B>& p) { return "[" + js(p.first) + "," + js(p.second) + "]"; }
    template <typename T> std::string js(const std::vector<T>& v) {
        std::string r = "[";
        bool first = true;
        for (const auto& e : v) { if (!first) r += ","; first = false; r += js((const T&)e); }
        return r + "]";
    }
    template <typename T, size_t N> std::string js(const std::array<T,N>& v) { return js(std::vector<T>(v.begin(), v.end())); }
    struct raw { std::string s; };
    inline std::string js(const raw& r) { return r.s; }
    template <typename T> std::vector<T> vec(std::initializer_list<T> l) { return std::vector<T>(l); }

    struct Obj {
        std::string s = "{";
        bool first = true;
        template <typename T> Obj& f(const char* k, const T& v) {
            if (!first) s += ",";
            first = false;
            s += "\""; s += k; s += "\":"; s += js(v);
            return *this;
        }
        std::string str() const { return s + "}"; }
        raw r() const { return raw{str()}; }
    };

    // ---- output and case loop ----
    struct Shared { volatile long current; char what[256]; };
    inline Shared* shared() {
        static Shared* p = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        return p;
    }
    inline FILE*& out() { static FILE* f = stdout; return f; }
    inline void emit(const std::string& line) { fwrite(line.data(), 1, line.size(), out()); fputc('\n', out()); }
    inline void emit(const Obj& o) { emit(o.str()); }
    inline void flush() { fflush(out()); }
    // Names the library call under way, so that a crash can be attributed.
    inline void doing(const char* what) { strncpy(shared()->what, what, sizeof(shared()->what) - 1); }

    // What is mapped already (an address-sanitised program maps terabytes that it does not use).
    inline rlim_t address_space() {
        unsigned long pages = 0;
        if (FILE* f = fopen("/proc/self/statm", "r")) { if (fscanf(f, "%lu", &pages) != 1) pages = 0; fclose(f); }
        return (rlim_t)pages * (rlim_t)sysconf(_SC_PAGESIZE);
    }
    constexpr size_t max_case_bytes = (size_t)8 << 20;
    constexpr int max_crashes = 3;
    // Runs fn(i) for i in [lo,hi). Each case is atomic in the output: either all of its lines, or one crash line.
    // A case may use 8 s of processor time (and timeout_s of wall-clock time), 2 GB of memory and 8 MB of trace; all of them are orders of
    // magnitude above what any case needs on correct code. After three crashes the remaining cases are left out.
    inline int run_cases(long lo, long hi, unsigned timeout_s, const std::function<void(long)>& fn) {
        shared()->current = lo;
        long next = lo;
        int crashes = 0;
        while (next < hi && crashes < max_crashes) {
            fflush(out());
            long pos_fd = lseek(fileno(out()), 0, SEEK_END);
            (void)pos_fd;
            pid_t pid = fork();
            if (pid < 0) { perror("fork"); return 2; }
            if (pid == 0) {
                struct rlimit rl{0, 0};
                setrlimit(RLIMIT_CORE, &rl);
                rlim_t lim = address_space() + ((rlim_t)2 << 30);
                struct rlimit as{lim, lim};
                setrlimit(RLIMIT_AS, &as);
                int devnull = open("/dev/null", O_WRONLY);
                if (getenv("VERIF_DEBUG") == nullptr) dup2(devnull, 2);
                for (long i = next; i < hi; ++i) {
                    shared()->current = i;
                    shared()->what[0] = 0;
                    alarm(timeout_s);
                    struct itimerval tv{{0, 0}, {8, 0}};
                    setitimer(ITIMER_PROF, &tv, nullptr);
                    std::string buf;
                    char* mem = nullptr; size_t len = 0;
                    FILE* real = out();
                    FILE* ms = open_memstream(&mem, &len);
                    out() = ms;
                    fn(i);
                    fclose(ms);
                    out() = real;
                    if (len > max_case_bytes) { doing("trace too long"); _exit(9); }
                    fwrite(mem, 1, len, real);
                    fflush(real);
                    free(mem);
                }
                _exit(0);
            }
            int st = 0;
            waitpid(pid, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
            long c = shared()->current;
            Obj o;
            o.f("ev", "crash").f("case", c).f("during", std::string(shared()->what))
             .f("signal", WIFSIGNALED(st) ? WTERMSIG(st) : 0).f("status", WIFEXITED(st) ? WEXITSTATUS(st) : 0);
            emit(o);
            fflush(out());
            next = c + 1;
            ++crashes;
        }
        return 0;
    }

    struct Args {
        std::string mode = "all"; uint64_t seed = 1; long lo = 0, hi = 100; std::string outfile; std::string in;
        std::vector<std::string> rest;
        Args(int argc, char** argv) {
            for (int i = 1; i < argc; ++i) {
                std::string a = argv[i];
                auto val = [&]() { return std::string(argv[++i]); };
                if (a == "--mode") mode = val();
                else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
                else if (a == "--lo") lo = atol(val().c_str());
                else if (a == "--hi") hi = atol(val().c_str());
                else if (a == "--out") outfile = val();
                else if (a == "--in") in = val();
                else rest.push_back(a);
            }
            if (!outfile.empty()) { out() = fopen(outfile.c_str(), "w"); if (!out()) { perror("open out"); exit(2); } }
        }
    };
}
#endif
