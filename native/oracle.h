// Replay/oracle support: every property has a driver that runs the real gul14 code on one concrete
// case and compares it with a naive reference.  Cases come from libFuzzer bytes, or (GV_ENUM) from
// bounded exhaustive enumeration of the same choices.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sstream>
#include <vector>
#include <memory>
#include <chrono>
#include <csignal>
#include <unistd.h>

struct Src {
    const uint8_t* d = nullptr; size_t n = 0, i = 0;
    bool en = false, rnd = false; uint64_t g = 1;    // rnd: pseudo-random choices instead of fuzzer bytes
    uint64_t prng() { g += 0x9e3779b97f4a7c15ull; uint64_t z = g; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    // constants found in the code under test, as candidate sizes and values
    static const std::vector<uint64_t>& consts() {
        static std::vector<uint64_t> v; static bool done = false;
        if (!done) { done = true; if (const char* f = getenv("GV_CONSTS")) { if (FILE* h = fopen(f, "r")) { long long x; while (fscanf(h, "%lld", &x) == 1) v.push_back(static_cast<uint64_t>(x)); fclose(h); } } }
        return v;
    }
    static const std::vector<uint64_t>& sizes() {
        static std::vector<uint64_t> v; static bool done = false;
        if (!done) { done = true; for (auto c : consts()) if (c > 8 && c <= 3000) v.push_back(c); for (uint64_t c : {15, 16, 31, 32, 64, 128, 255, 256, 1000}) v.push_back(c); }
        return v;
    }
    size_t longsize() { size_t c = sizes()[pick(sizes().size())]; return c + pick(5) - 1; }
    std::vector<std::pair<uint64_t,uint64_t>> seq; size_t si = 0;   // enumeration odometer
    uint64_t pick(uint64_t b) {                 // [0, b)
        if (b <= 1) return 0;
        if (en) {
            if (si == seq.size()) seq.emplace_back(0, b);
            return seq[si++].first;
        }
        if (rnd) return prng() % b;
        uint64_t v = 0; int k = b <= 256 ? 1 : b <= 65536 ? 2 : 8;
        while (k--) v = (v << 8) | (i < n ? d[i++] : 0);
        return v % b;
    }
    bool next() {                               // advance the odometer
        seq.resize(si); si = 0;
        while (!seq.empty()) {
            if (++seq.back().first < seq.back().second) return true;
            seq.pop_back();
        }
        return false;
    }
    bool flag() { return pick(2); }
    uint8_t byte() { return static_cast<uint8_t>(en ? "\0aZ\xff"[pick(4)] : pick(256)); }
    uint64_t raw64() { if (rnd) return prng() >> pick(64); uint64_t v = 0; for (int k = 0; k < 8; ++k) v = (v << 8) | (i < n ? d[i++] : 0); return v; }
    // position-like number around a size
    size_t pos(size_t size) {
        if (en) { static const int64_t o[] = {0, 1, -1, 2}; uint64_t c = pick(7);
            if (c < 4) return c; if (c == 4) return size; if (c == 5) return size + 1; return ~size_t(0); (void)o; }
        switch (pick(8)) {
            case 0: return ~size_t(0); case 1: return raw64(); case 2: return size; case 3: return size + 1;
            case 4: return ~size_t(0) - pick(16); case 5: return size - 1;
            default: return pick(size + 4);
        }
    }
    uint64_t num64() {
        static const uint64_t t[] = {0, 1, 2, 3, 7, 8, 31, 32, 63, 64, 127, 128, 255, 256, 0x7fffffffull, 0x80000000ull, 0xffffffffull,
            0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfffffffffffffffeull, 0xffffffffffffffffull};
        if (en) return t[pick(sizeof t / sizeof *t)];
        if (!consts().empty() && pick(8) == 0) return consts()[pick(consts().size())] + pick(3) - 1;
        switch (pick(4)) { case 0: return t[pick(sizeof t / sizeof *t)]; case 1: return pick(256); case 2: return uint64_t(0) - pick(256); default: return raw64(); }
    }
    std::string str(const char* alphabet, size_t enmax, size_t fzmax = 24, size_t alen = 0) {
        if (!alen) alen = strlen(alphabet);
        std::string s;
        if (en) { size_t l = pick(enmax + 1); for (size_t k = 0; k < l; ++k) s += alphabet[pick(alen)]; return s; }
        size_t l = pick(fzmax + 1); bool any = pick(4) == 0;
        if (pick(16) == 0) {                     // long: cheap content, seeded by one choice
            l = longsize(); Src q; q.rnd = true; q.g = pick(65536);
            for (size_t k = 0; k < l; ++k) s += any ? static_cast<char>(q.pick(256)) : alphabet[q.pick(alen)];
            return s;
        }
        for (size_t k = 0; k < l; ++k) s += any ? static_cast<char>(pick(256)) : alphabet[pick(alen)];
        return s;
    }
};

// exact-size heap copy, so that reads past the end are caught by ASan
struct Exact {
    std::unique_ptr<char[]> p; size_t n;
    explicit Exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { if (n) memcpy(p.get(), s.data(), n); }
    const char* data() const { return p.get(); }
};

inline std::string show(const std::string& s) {
    std::string o = "\""; char b[8];
    for (unsigned char c : s) { if (c >= 32 && c < 127 && c != '"' && c != '\\') o += static_cast<char>(c); else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } }
    return o + "\"";
}
inline std::string show(const char* s) { return show(std::string(s)); }
inline std::string show(char c) { return show(std::string(1, c)); }
inline std::string show(bool b) { return b ? "true" : "false"; }
template <typename T> std::string show(const T& t) { std::ostringstream o; o.precision(21); o << t; return o.str(); }
template <typename T> std::string show(const std::vector<T>& v) { std::string o = "["; for (auto const& x : v) o += show(x) + ","; return o + "]"; }

[[noreturn]] inline void fail(const std::string& what) {
    fprintf(stderr, "\nFAIL %s\n", what.c_str());
    if (const char* f = getenv("GV_OUT")) { FILE* o = fopen(f, "a"); if (o) { fprintf(o, "FAIL %s\n", what.c_str()); fclose(o); } }
    abort();
}
// describe the case before running it, so that a crash can be attributed
inline std::string& current() { static std::string s; return s; }
inline void case_is(const std::string& s) { current() = s; }
template <typename A, typename B> void expect_eq(const A& got, const B& want, const std::string& what) {
    if (!(got == want)) fail(what + ": got " + show(got) + " expected " + show(want) + (current().empty() ? "" : " [" + current() + "]"));
}
inline void expect(bool ok, const std::string& what) { if (!ok) fail(what + (current().empty() ? "" : " [" + current() + "]")); }

void one(Src& s);        // run one case; defined by each property's driver

extern "C" void __sanitizer_set_death_callback(void (*)(void));
inline void on_death() {
    if (const char* f = getenv("GV_OUT")) { FILE* o = fopen(f, "a"); if (o) { fprintf(o, "CRASH %s\n", current().c_str()); fclose(o); } }
}

inline void on_alarm(int) {
    static const char m[] = "HANG: no result within 20 s\n"; (void)!write(2, m, sizeof m - 1);
    if (const char* f = getenv("GV_OUT")) { FILE* o = fopen(f, "a"); if (o) { fprintf(o, "HANG %s\n", current().c_str()); fclose(o); } }
    _Exit(77);
}
static unsigned long long n_cases = 0;
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) { Src s; s.d = d; s.n = n; current().clear(); ++n_cases; one(s); return 0; }
extern "C" int LLVMFuzzerInitialize(int*, char***) {
    __sanitizer_set_death_callback(on_death);
    if (getenv("GV_ENUM") || getenv("GV_RAND")) signal(SIGALRM, on_alarm);
    if (const char* e = getenv("GV_ENUM")) {
        double budget = atof(e);
        auto t0 = std::chrono::steady_clock::now();
        Src s; s.en = true; unsigned long long c = 0; bool complete = true;
        do { current().clear(); s.si = 0; if ((c & 255) == 0) alarm(20); one(s); ++c;
            if ((c & 255) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) { complete = false; break; }
        } while (s.next());
        printf("ENUM cases=%llu complete=%d\n", c, complete ? 1 : 0);
        fflush(stdout); _Exit(0);
    }
    if (const char* e = getenv("GV_RAND")) {
        double budget = atof(e); const char* sd = getenv("GV_SEED");
        auto t0 = std::chrono::steady_clock::now();
        Src s; s.rnd = true; s.g = (sd ? strtoull(sd, nullptr, 10) : 1) * 0x1234567ull; unsigned long long c = 0;
        do { current().clear(); if ((c & 15) == 0) alarm(20); one(s); ++c; } while ((c & 15) || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget);
        printf("RAND cases=%llu\n", c);
        fflush(stdout); _Exit(0);
    }
    return 0;
}
