// Small property-based testing engine: choice-stream generation (every random
// decision is one bounded integer), integrated shrinking on that stream, forked
// workers, crash / non-termination capture, replay files.
#ifndef PBT_HPP
#define PBT_HPP
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <functional>
#include <stdexcept>
#include <sstream>
#include <initializer_list>
#include <limits>
#include <new>
#include <utility>

namespace pbt {

struct Fail : std::exception {
    std::string key, msg;
    Fail(const std::string& k, const std::string& m) : key(k), msg(m) {}
    const char* what() const noexcept override { return msg.c_str(); }
};
struct Discard {};

class Src {
public:
    static const size_t MAXC = 1 << 14;
    Src(uint64_t* buf, uint32_t* n, uint64_t rngseed) : buf_(buf), n_(n), replay_(0), rn_(0), s_(rngseed) { *n_ = 0; }
    Src(uint64_t* buf, uint32_t* n, const std::vector<uint64_t>& rep) : buf_(buf), n_(n), replay_(rep.data()), rn_(rep.size()), s_(0) { *n_ = 0; }

    uint64_t raw(uint64_t bound) {            // [0,bound); simplest: 0
        if (bound == 0) bound = 1;
        uint64_t v;
        if (replay_ || rn_ || s_ == 0) { v = pos_ < rn_ ? replay_[pos_] : 0; if (v >= bound) v = bound - 1; ++pos_; }
        else v = bound == 1 ? 0 : (uint64_t)(((unsigned __int128)next() * bound) >> 64);
        if (*n_ < MAXC) buf_[(*n_)++] = v;
        else throw Discard();
        hash_ = (hash_ ^ (v + 0x9e3779b97f4a7c15ull)) * 0x100000001b3ull; hash_ ^= hash_ >> 29;
        return v;
    }
    int64_t i(int64_t lo, int64_t hi) { return lo + (int64_t)raw((uint64_t)(hi - lo + 1)); }   // shrinks to lo
    bool flag(int pct = 50) { return raw(100) >= (uint64_t)(100 - pct); }                       // shrinks to false
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + raw(l.size())); } // shrinks to first
    template <class V> const typename V::value_type& from(const V& v) { return v[raw(v.size())]; }
    // non-negative magnitude in [lo,hi]; mixture of coarse and full-resolution values; shrinks to lo
    double mag(double lo, double hi) {
        switch (raw(3)) {
        case 0: return lo + (hi - lo) * (double)raw(9) / 8.0;
        case 1: return lo + (hi - lo) * (double)raw(1001) / 1000.0;
        default: return lo + (hi - lo) * ((double)raw(1ull << 40) / (double)(1ull << 40));
        }
    }
    // log-uniform in [lo,hi], lo>0; shrinks to hi end
    double logmag(double lo, double hi) {
        double f = raw(2) ? (double)raw(1ull << 30) / (double)(1ull << 30) : (double)raw(17) / 16.0;
        return hi * std::pow(lo / hi, f);
    }
    double num(double hi) { double m = mag(0, hi); return flag() ? -m : m; }                    // [-hi,hi]
    std::vector<double> vec(size_t n, double hi) { std::vector<double> v(n); for (auto& x : v) x = num(hi); return v; }

    // bookkeeping
    void label(const std::string& l) { labels.push_back(l); }
    void nontrivial() { nt = true; }
    bool verbose = false;
    char* live = 0; size_t liven = 0;
    void add(const std::string& t) { desc += t; if (live) std::snprintf(live, liven, "%s", desc.c_str()); }
    void note(const std::string& s) { if (verbose) add(s); }
    template <class T> void note(const char* name, const T& v) { if (verbose) { std::ostringstream o; o.precision(17); o << name << "=" << v << " "; add(o.str()); } }
    void note(const char* name, const std::vector<double>& v) { if (verbose) { std::ostringstream o; o.precision(17); o << name << "=["; for (size_t k = 0; k < v.size() && k < 24; ++k) o << (k ? "," : "") << v[k]; o << (v.size() > 24 ? ",..] " : "] "); add(o.str()); } }
    uint64_t hash() const { return hash_; }
    std::vector<std::string> labels; bool nt = false; std::string desc;
private:
    uint64_t next() { s_ += 0x9e3779b97f4a7c15ull; uint64_t z = s_; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t* buf_; uint32_t* n_; const uint64_t* replay_; size_t rn_, pos_ = 0; uint64_t s_; uint64_t hash_ = 1469598103934665603ull;
};

struct Suite {
    std::string name; void (*fn)(Src&); uint32_t quick, thorough; const char* rule;
};
inline std::vector<Suite>& suites() { static std::vector<Suite> s; return s; }
struct Reg { Reg(const char* n, void (*f)(Src&), uint32_t q, uint32_t t, const char* rule) { suites().push_back(Suite{n, f, q, t, rule}); } };
// NAME: identifier; Q/T: cases in quick / thorough tier; RULE: what makes a case non-trivial
#define SUITE(NAME, Q, T, RULE) static void NAME(pbt::Src& src); static pbt::Reg reg_##NAME(#NAME, NAME, Q, T, RULE); static void NAME(pbt::Src& src)

[[noreturn]] inline void fail(const std::string& key, const std::string& msg) { throw Fail(key, msg); }
template <class... A> std::string str(const A&... a) { std::ostringstream o; o.precision(17); int dummy[] = {0, ((void)(o << a), 0)...}; (void)dummy; return o.str(); }
#define REQUIRE_K(KEY, COND, ...) do { if (!(COND)) pbt::fail(KEY, pbt::str("violated: " #COND " ", ##__VA_ARGS__)); } while (0)

// Object placed in storage pre-filled with NaN bytes, so that members the
// constructor forgets to initialise are noticed.
template <class T> class Poisoned {
    alignas(T) unsigned char mem_[sizeof(T)]; T* p_;
public:
    template <class... A> explicit Poisoned(A&&... a) { std::memset(mem_, 0xFF, sizeof mem_); __asm__ __volatile__("" : : "r"(mem_) : "memory"); p_ = new (mem_) T(std::forward<A>(a)...); }
    ~Poisoned() { p_->~T(); }
    Poisoned(const Poisoned&) = delete; Poisoned& operator=(const Poisoned&) = delete;
    T& operator*() { return *p_; } T* operator->() { return p_; } T& get() { return *p_; }
};

int run_main(int argc, char** argv);
} // namespace pbt
#endif
