// Minimal choice-sequence property-based testing engine (Hypothesis-style).
//
// A case is a finite sequence of bounded choices.  Generators only ever draw from the choice source,
// so generation, shrinking and replay all work on the choice sequence.  Cases run in forked workers: a
// crash, an assertion or a runaway computation of the code under test becomes an ordinary failure whose
// choices the parent reads from shared memory.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };
struct Discard {};

struct Choice { uint64_t v, b; };

/** shared-memory mirror of the choices of the case being executed */
struct Shared { volatile uint64_t running, sub, index, n; Choice c[1 << 16]; };
extern Shared* g_shared;

class Src {
public:
    explicit Src(uint64_t seed) : rng_(seed), random_(true) {}
    explicit Src(std::vector<uint64_t> rep) : rep_(std::move(rep)), random_(false) {}
    /** uniform in [0, bound) */
    uint64_t draw(uint64_t bound) {
        if (bound == 0) bound = 1;
        uint64_t v = 0;
        if (random_) v = bound == 1 ? 0 : rng_() % bound;
        else if (pos_ < rep_.size()) v = rep_[pos_] % bound;
        ++pos_;
        if (log_.size() > 60000) throw Discard{};
        log_.push_back({v, bound});
        if (g_shared && log_.size() < (1 << 16)) { g_shared->c[log_.size() - 1] = log_.back(); g_shared->n = log_.size(); }
        return v;
    }
    int range(int lo, int hi) { return lo + int(draw(uint64_t(hi - lo) + 1)); }   // shrinks to lo
    bool flag(double p = 0.5) { return draw(1000) >= uint64_t(std::llround((1 - p) * 1000)); }   // shrinks to false
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }   // shrinks to first
    template <class T> const T& pick(const std::vector<T>& l) { return l[draw(l.size())]; }
    /** real in [lo,hi]; shrinks to lo */
    double real(double lo, double hi) { return lo + (hi - lo) * (double(draw((1ull << 30) + 1)) / double(1ull << 30)); }
    /** log-uniform in [lo,hi] */
    double logreal(double lo, double hi) { return std::exp(real(std::log(lo), std::log(hi))); }
    /** real in [-a,a]; sometimes small integers; shrinks to 0 */
    double sym(double a) {
        uint64_t k = draw(16);
        if (k == 0) return 0;
        if (k == 1) return (draw(2) ? -1. : 1.) * std::min(a, double(range(0, 3)));
        uint64_t z = draw((1ull << 31) + 1);
        double m = double((z + 1) / 2) / double(1ull << 30) * a;
        return (z & 1) ? -m : m;
    }
    /** as sym, never exactly a special value and bounded away from zero: |x| in [lo,hi] */
    double away(double lo, double hi) { double m = real(lo, hi); return draw(2) ? -m : m; }
    const std::vector<Choice>& log() const { return log_; }
    std::vector<uint64_t> values() const { std::vector<uint64_t> r; for (auto& c : log_) r.push_back(c.v); return r; }
private:
    std::mt19937_64 rng_;
    std::vector<uint64_t> rep_;
    bool random_;
    size_t pos_ = 0;
    std::vector<Choice> log_;
};

struct Ctx {
    bool nontrivial = false;
    bool want_text = false;          // set for samples / replays
    std::map<std::string, uint64_t> labels;
    std::ostringstream text;
    void nt(bool b = true) { nontrivial = nontrivial || b; }
    void label(const std::string& s, bool b = true) { if (b) labels[s]++; }
    template <class T> Ctx& say(const std::string& k, const T& v) {
        if (want_text) text << k << "=" << v << "; ";
        return *this;
    }
    template <class M> Ctx& mat(const std::string& k, const M& m) {
        if (want_text) {
            text << k << "=[";
            for (long i = 0; i < long(m.rows()); i++) { for (long j = 0; j < long(m.cols()); j++) text << (j ? " " : "") << m(i, j); text << (i + 1 < long(m.rows()) ? " | " : ""); }
            text << "]; ";
        }
        return *this;
    }
};

using Fn = std::function<void(Src&, Ctx&)>;
struct Sub { std::string name; Fn fn; int quick; int thorough; };
/** a pinned, concrete case that is allowed to fail only while the known-findings file lists it */
struct Finding { std::string name; Fn fn; };
std::vector<Sub>& subs();
std::vector<Finding>& findings();
struct Reg { Reg(const char* n, Fn f, int quick, int thorough) { subs().push_back({n, f, quick, thorough}); }
             Reg(std::string n, Fn f, int quick, int thorough) { subs().push_back({n, f, quick, thorough}); } };
struct RegFinding { RegFinding(const char* n, Fn f) { findings().push_back({n, f}); } };

[[noreturn]] inline void fail(const std::string& m) { throw Fail(m); }

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define CHECK(cond, msg)                                                                                     \
    do { if (!(cond)) { std::ostringstream o_; o_ << std::setprecision(12) << #cond << " violated: " << msg << " (" << __LINE__ << ")"; ::pbt::fail(o_.str()); } } while (0)

int main_(int argc, char** argv);

/** discard the output of code under test that prints (redirect stdout while in scope is done globally) */
}  // namespace pbt
#include <iomanip>
