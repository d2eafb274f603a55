// A small property-based testing library.  A case is a pure function of a sequence of choices; the
// choices of the running case are kept in a shared file, so a case that crashes or hangs the process
// still leaves its reproduction behind, and run.py shrinks a failure by replaying shorter sequences.
#pragma once
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

namespace pbt {

struct Violation {
    std::string sig;  // stable name of the oracle clause that failed
    std::string msg;
};
struct Discard {};  // the case is outside the domain (counted)

inline std::uint64_t mix(std::uint64_t z)
{
    z += 0x9E3779B97F4A7C15ULL;
    z = (z ^ (z >> 30U)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27U)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31U);
}

struct Shared {  // layout of the shared current-case file
    static constexpr std::uint64_t cap = 1U << 17U;
    std::uint64_t n;
    char prop[64];
    std::uint64_t vals[cap];
};

class Src {
  public:
    Src(std::uint64_t seed, Shared* sh): state_(mix(seed)), sh_(sh) {}
    Src(std::vector<std::uint64_t> rep, Shared* sh): rep_(std::move(rep)), replay_(true), sh_(sh) {}

    /// uniform in [0, bound); 0 is the simplest value
    std::uint64_t draw(std::uint64_t bound)
    {
        std::uint64_t v = 0;
        if (replay_) {
            if (pos_ < rep_.size()) {
                v = rep_[pos_];
            }
            ++pos_;
            if (bound != 0) {
                v %= bound;
            }
        } else {
            state_ = mix(state_ + 1);
            v = (bound == 0) ? state_ : (state_ % bound);
        }
        if (sh_ != nullptr && sh_->n < Shared::cap) {
            sh_->vals[sh_->n++] = v;
        }
        hash_ = mix(hash_ ^ v);
        ++draws_;
        return v;
    }
    std::uint64_t bits() { return draw(0); }
    template<class T = int>
    T range(T lo, T hi)  // inclusive
    {
        auto span = static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo) + 1U;
        return static_cast<T>(static_cast<std::uint64_t>(lo) + draw(span));
    }
    /// small numbers more likely (geometric-like), in [0, hi]
    std::size_t size(std::size_t hi)
    {
        auto k = draw(4);
        auto cap = (k == 0) ? std::min<std::size_t>(hi, 3) : (k == 1) ? std::min<std::size_t>(hi, 12) : hi;
        return static_cast<std::size_t>(draw(cap + 1));
    }
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }  // simplest: false
    bool boolean() { return draw(2) == 1; }
    template<class C>
    const typename C::value_type& pick(const C& c)
    {
        auto it = c.begin();
        std::advance(it, static_cast<std::ptrdiff_t>(draw(c.size())));
        return *it;
    }
    template<class T>
    T pick(std::initializer_list<T> c)
    {
        return *(c.begin() + draw(c.size()));
    }
    /// index by weight
    std::size_t weighted(std::initializer_list<unsigned> w)
    {
        unsigned total = 0;
        for (auto x : w) {
            total += x;
        }
        auto r = draw(total);
        std::size_t i = 0;
        for (auto x : w) {
            if (r < x) {
                return i;
            }
            r -= x;
            ++i;
        }
        return 0;
    }
    std::int64_t int64()
    {
        switch (draw(6)) {
            case 0:
                return static_cast<std::int64_t>(draw(20)) - 5;
            case 1:
                return pick({std::int64_t{0},
                             std::int64_t{1},
                             std::int64_t{-1},
                             std::int64_t{255},
                             std::int64_t{256},
                             std::int64_t{65535},
                             std::int64_t{2147483647},
                             std::int64_t{-2147483648LL},
                             std::int64_t{4294967295LL},
                             std::int64_t{4294967296LL},
                             std::int64_t{9007199254740991LL},
                             std::int64_t{9007199254740993LL},
                             std::numeric_limits<std::int64_t>::max(),
                             std::numeric_limits<std::int64_t>::min()});
            case 2: {
                auto sh = draw(64);
                return static_cast<std::int64_t>(bits() >> sh);
            }
            case 3: {
                auto sh = draw(64);
                return -static_cast<std::int64_t>((bits() >> 1U) >> sh);
            }
            default:
                return static_cast<std::int64_t>(draw(2000000)) - 1000000;
        }
    }
    std::int32_t int32() { return static_cast<std::int32_t>(int64()); }
    /// finite doubles unless special is set
    double dbl(bool special = false)
    {
        switch (draw(special ? 8 : 6)) {
            case 0:
                return static_cast<double>(static_cast<std::int64_t>(draw(21)) - 10);
            case 1:
                return (static_cast<double>(draw(2000001)) - 1000000.0) / 1000.0;
            case 2: {
                double v = 0;
                auto b = bits();
                std::memcpy(&v, &b, 8);
                return std::isfinite(v) ? v : 1.5;
            }
            case 3:
                return pick({0.0,
                             -0.0,
                             1.0,
                             0.1,
                             -1e-300,
                             1e300,
                             std::numeric_limits<double>::max(),
                             std::numeric_limits<double>::lowest(),
                             std::numeric_limits<double>::min(),
                             std::numeric_limits<double>::denorm_min(),
                             std::numeric_limits<double>::epsilon(),
                             4503599627370497.5,
                             9007199254740993.0,
                             1e49,
                             -1e48});
            case 4:
                return static_cast<double>(int64());
            case 5:
                return std::ldexp(static_cast<double>(draw(1U << 20U)) - (1 << 19), static_cast<int>(draw(80)) - 60);
            case 6:
                return std::numeric_limits<double>::quiet_NaN();
            default:
                return boolean() ? std::numeric_limits<double>::infinity() :
                                   -std::numeric_limits<double>::infinity();
        }
    }
    std::string str(std::size_t maxLen, std::string_view alphabet)
    {
        auto n = size(maxLen);
        std::string s;
        for (std::size_t i = 0; i < n; ++i) {
            s.push_back(alphabet[draw(alphabet.size())]);
        }
        return s;
    }
    std::string bytes(std::size_t maxLen)
    {
        auto n = size(maxLen);
        std::string s;
        auto mode = draw(3);
        for (std::size_t i = 0; i < n; ++i) {
            s.push_back(static_cast<char>(mode == 0 ? 'a' + draw(26) : mode == 1 ? 32 + draw(95) : draw(256)));
        }
        return s;
    }
    /// long string built from a repeated seed (few draws)
    std::string blob(std::size_t n)
    {
        auto st = draw(1U << 30U);
        std::string s(n, '\0');
        for (auto& c : s) {
            st = mix(st);
            c = static_cast<char>(st);
        }
        return s;
    }

    // ---- bookkeeping
    template<class... A>
    void note(const A&... a)
    {
        if (notes_.size() < 4000) {
            std::ostringstream o;
            (o << ... << a);
            notes_ += o.str();
            notes_ += "; ";
            if (getenv("PBT_NOTES") != nullptr) {
                std::fprintf(stderr, "%s\n", o.str().c_str());
            }
        }
    }
    void tag(const std::string& t) { tags_.insert(t); }
    void nontrivial() { nontrivial_ = true; }

    std::string notes_;
    std::set<std::string> tags_;
    bool nontrivial_{false};
    std::uint64_t hash_{0x1234};
    std::uint64_t draws_{0};

  private:
    std::vector<std::uint64_t> rep_;
    bool replay_{false};
    std::size_t pos_{0};
    std::uint64_t state_{0};
    Shared* sh_{nullptr};
};

struct Prop {
    std::string name;
    unsigned weight;
    std::function<void(Src&)> fn;
};
inline std::vector<Prop>& props()
{
    static std::vector<Prop> p;
    return p;
}
struct Reg {
    Reg(const char* n, unsigned w, std::function<void(Src&)> f) { props().push_back({n, w, std::move(f)}); }
};
#define PROP(NAME, WEIGHT)                                                                         \
    static void NAME(pbt::Src& s);                                                                 \
    static pbt::Reg reg_##NAME(#NAME, WEIGHT, NAME);                                               \
    static void NAME([[maybe_unused]] pbt::Src& s)

template<class... A>
std::string cat(const A&... a)
{
    std::ostringstream o;
    o.precision(17);
    (o << ... << a);
    return o.str();
}
inline std::string hex(std::string_view v, std::size_t maxN = 80)
{
    std::string o;
    static const char* d = "0123456789abcdef";
    for (std::size_t i = 0; i < v.size() && i < maxN; ++i) {
        o.push_back(d[static_cast<unsigned char>(v[i]) >> 4U]);
        o.push_back(d[static_cast<unsigned char>(v[i]) & 15U]);
    }
    if (v.size() > maxN) {
        o += "...";
    }
    return o;
}
#define REQUIRE(SIG, COND, ...)                                                                    \
    do {                                                                                           \
        if (!(COND)) {                                                                             \
            throw pbt::Violation{SIG, pbt::cat("[" SIG "] " #COND " is false: ", __VA_ARGS__)};    \
        }                                                                                          \
    } while (0)
#define FAIL(SIG, ...) throw pbt::Violation{SIG, pbt::cat("[" SIG "] ", __VA_ARGS__)}

struct Options {
    std::string rule;
    double hangSeconds{60.0};  // a case that runs this long is reported as a hang
    std::function<void()> init;
    int hostFree{0};
};
int main(int argc, char** argv, const Options& o);
}  // namespace pbt
#define PBT_MAIN(...)                                                                              \
    int main(int argc, char** argv)                                                                \
    {                                                                                              \
        pbt::Options o{__VA_ARGS__};                                                               \
        return pbt::main(argc, argv, o);                                                           \
    }
