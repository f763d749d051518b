// A small property-based testing engine.
//
// Every random decision of a case is one draw from a tape of integers.  In search mode the tape is
// filled from a seeded generator and recorded; in replay mode it is read back.  A failing case is
// shrunk on the tape itself (chunks removed, values lowered), so every generator shrinks for free,
// and the shrunk tape is the replay file.  The same entry point serves coverage-guided fuzzing
// (fuzz_main.cpp turns the fuzzer's bytes into a tape).
//
// Cases run in worker processes; a crash, a sanitizer report, an assertion or a hang of the code
// under test is an ordinary failure of the case that was running.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <stdexcept>

namespace pbt {

struct Failure { std::string kind, detail; };
struct Discard {};

inline uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

class Tape {
public:
    std::vector<uint64_t> data;
    size_t pos = 0;
    bool generating = false;
    uint64_t state = 0;
    size_t limit = 1 << 20;
    uint64_t *mirror = nullptr;       // where a supervising process can see the draws

    // uniform in [0, n); 0 is the simplest value
    uint64_t below(uint64_t n) {
        if (n <= 1) return 0;
        uint64_t v;
        if (generating) {
            if (data.size() >= limit) throw Discard();
            v = splitmix(state) % n;
            data.push_back(v);
            pos++;
            if (mirror) { mirror[pos] = v; mirror[0] = pos; }
        } else {
            v = pos < data.size() ? data[pos] % n : 0;
            pos++;
        }
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t) (hi - lo) + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; } // shrinks to false
    bool flip() { return below(2) == 1; }
    // a size in [0, max], mostly small, sometimes large
    size_t size(size_t max) {
        switch (below(8)) {
        case 0: case 1: case 2: return below(std::min<size_t>(max, 4) + 1);
        case 3: case 4: case 5: return below(std::min<size_t>(max, 16) + 1);
        case 6: return below(std::min<size_t>(max, 200) + 1);
        default: return below(max + 1);
        }
    }
    // index drawn with the given weights (0 is the simplest)
    int weighted(std::initializer_list<unsigned> w) {
        unsigned total = 0; for (unsigned x : w) total += x;
        uint64_t v = below(total);
        int i = 0;
        for (unsigned x : w) { if (v < x) return i; v -= x; i++; }
        return i - 1;
    }
    template <class V> const typename V::value_type &pick(const V &v) { return v[below(v.size())]; }
};

// what a case reports about itself
struct Ctx {
    bool nontrivial = false;
    bool want_sample = false;
    std::string sample;          // human readable description of the case (only if want_sample)
    void note(const std::string &s) { if (want_sample && sample.size() < 1200) { if (!sample.empty()) sample += "; "; sample += s; } }
    void tag(const char *name);  // counts a class of cases in the evidence
};

[[noreturn]] inline void fail(const std::string &kind, const std::string &detail = "") { throw Failure{kind, detail}; }
inline void check(bool ok, const std::string &kind, const std::string &detail = "") { if (!ok) fail(kind, detail); }

inline std::string quote(const std::string &s, size_t max = 160) {
    std::string r = "\"";
    for (size_t i = 0; i < s.size(); i++) {
        if (r.size() > max) { char b[40]; snprintf(b, sizeof b, "...(%zu bytes)", s.size()); r += b; break; }
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
template <class... A> std::string cat(const A &... a) { std::ostringstream o; o.precision(9); int d[] = {((o << a), 0)...}; (void) d; return o.str(); }

struct Property {
    const char *id;
    const char *rule;                       // what a case is and when it counts as non-trivial
    std::function<void(Tape &, Ctx &)> run;
    double case_timeout = 10;               // seconds
    bool leak_check = true;                 // live allocations must not grow over the case
    unsigned min_cases = 200;               // a run with fewer is an error of the check
    unsigned max_workers = 8;
    std::vector<std::string> assumptions;
};
std::vector<Property> &registry();
struct Register { Register(Property p) { registry().push_back(std::move(p)); } };

[[noreturn]] void bail(const std::string &kind, const std::string &detail);   // ends the case as failed, from any thread
long live_allocations();                    // as counted by the allocator hooks, 0 if unavailable
// allocations made while one of these is alive are not counted as the code under test's
struct Untracked { Untracked(); ~Untracked(); };

int run_main(int argc, char **argv);
}
