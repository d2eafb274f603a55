// Stand-in for GMLC-TDC/utilities timeRepresentation.hpp (the submodule is absent offline).
#pragma once
#include <chrono>
#include <cmath>
#include <cstdint>
#include <limits>
#include <type_traits>

enum class time_units : int {
    ps = 0,
    ns = 1,
    us = 2,
    ms = 3,
    s = 4,
    sec = 5,
    minutes = 6,
    hr = 7,
    day = 8,
    week = 9,
};

constexpr double toSecondMultiplier(time_units units)
{
    switch (units) {
        case time_units::ps:
            return 1e-12;
        case time_units::ns:
            return 1e-9;
        case time_units::us:
            return 1e-6;
        case time_units::ms:
            return 1e-3;
        case time_units::s:
        case time_units::sec:
            return 1.0;
        case time_units::minutes:
            return 60.0;
        case time_units::hr:
            return 3600.0;
        case time_units::day:
            return 86400.0;
        case time_units::week:
            return 604800.0;
    }
    return 1.0;
}

constexpr double timeCountForward[10] =
    {1e12, 1e9, 1e6, 1000.0, 1.0, 1.0, 1.0 / 60.0, 1.0 / 3600.0, 1.0 / 86400.0, 1.0 / 604800.0};
constexpr double timeCountReverse[10] =
    {1e-12, 1e-9, 1e-6, 1e-3, 1.0, 1.0, 60.0, 3600.0, 86400.0, 604800.0};

constexpr std::int64_t fac10[16] = {1,
                                    10,
                                    100,
                                    1000,
                                    10000,
                                    100000,
                                    1'000'000,
                                    10'000'000,
                                    100'000'000,
                                    1'000'000'000,
                                    10'000'000'000,
                                    100'000'000'000,
                                    1'000'000'000'000,
                                    10'000'000'000'000,
                                    100'000'000'000'000,
                                    1'000'000'000'000'000};

template<int N, typename base = std::int64_t>
class count_time {
  public:
    using baseType = base;
    static constexpr double dFactor = static_cast<double>(fac10[N]);
    static constexpr double ddivFactor = 1.0 / static_cast<double>(fac10[N]);
    static constexpr base iFactor = static_cast<base>(fac10[N]);
    static constexpr baseType maxVal() noexcept { return (std::numeric_limits<baseType>::max)(); }
    static constexpr baseType minVal() noexcept
    {
        return (std::numeric_limits<baseType>::min)() + 1;
    }
    static constexpr baseType zeroVal() noexcept { return baseType(0); }
    static constexpr baseType epsilon() noexcept { return baseType(1); }
    static constexpr double limit = 9223372036854775807.0 / dFactor;

    static constexpr baseType quick_convert(double t) noexcept
    {
        // whole and fractional part are converted apart to limit round-off
        auto whole = static_cast<baseType>(t);
        double frac = t - static_cast<double>(whole);
        return static_cast<baseType>(whole * iFactor +
                                     static_cast<baseType>(frac * dFactor +
                                                           ((frac >= 0.0) ? 0.5 : -0.5)));
    }
    static constexpr baseType convert(double t) noexcept
    {
        if (t != t) {
            return minVal();
        }
        if (t >= limit - 1.0) {
            return maxVal();
        }
        if (t <= -limit + 1.0) {
            return minVal();
        }
        return quick_convert(t);
    }
    static constexpr double toDouble(baseType val) noexcept
    {
        return static_cast<double>(val / iFactor) + static_cast<double>(val % iFactor) * ddivFactor;
    }
    static constexpr std::int64_t toCount(baseType val, time_units units) noexcept
    {
        constexpr int exps[5] = {12, 9, 6, 3, 0};
        int idx = static_cast<int>(units);
        if (idx <= 4 || units == time_units::sec) {
            int ex = (idx <= 4) ? exps[idx] : 0;
            if (ex == N) {
                return val;
            }
            if (ex > N) {
                return static_cast<std::int64_t>(static_cast<std::uint64_t>(val) *
                                                 static_cast<std::uint64_t>(fac10[ex - N]));
            }
            return val / fac10[N - ex];
        }
        return static_cast<std::int64_t>(toDouble(val) * timeCountForward[idx]);
    }
    static constexpr baseType fromCount(std::int64_t count, time_units units) noexcept
    {
        constexpr int exps[5] = {12, 9, 6, 3, 0};
        int idx = static_cast<int>(units);
        if (idx <= 4 || units == time_units::sec) {
            int ex = (idx <= 4) ? exps[idx] : 0;
            if (ex == N) {
                return count;
            }
            if (ex > N) {
                return count / fac10[ex - N];
            }
            return static_cast<baseType>(static_cast<std::uint64_t>(count) *
                                         static_cast<std::uint64_t>(fac10[N - ex]));
        }
        return static_cast<baseType>(
            static_cast<std::uint64_t>(count) *
            static_cast<std::uint64_t>(timeCountReverse[idx]) *
            static_cast<std::uint64_t>(iFactor));
    }
};

template<class Tconv>
class TimeRepresentation {
  public:
    using baseType = typename Tconv::baseType;

  private:
    baseType timecode_{Tconv::zeroVal()};
    using ubase = std::make_unsigned_t<baseType>;

    struct rawtag {};
    constexpr TimeRepresentation(rawtag, baseType val) noexcept: timecode_(val) {}
    static constexpr TimeRepresentation raw(baseType val) noexcept
    {
        return TimeRepresentation(rawtag{}, val);
    }
    // plain two's complement arithmetic, as the machine does it in a release build
    static constexpr baseType wadd(baseType a, baseType b) noexcept
    {
        return static_cast<baseType>(static_cast<ubase>(a) + static_cast<ubase>(b));
    }
    static constexpr baseType wsub(baseType a, baseType b) noexcept
    {
        return static_cast<baseType>(static_cast<ubase>(a) - static_cast<ubase>(b));
    }
    static constexpr baseType wmul(baseType a, baseType b) noexcept
    {
        return static_cast<baseType>(static_cast<ubase>(a) * static_cast<ubase>(b));
    }

  public:
    constexpr TimeRepresentation() noexcept = default;
    constexpr TimeRepresentation(double t) noexcept: timecode_(Tconv::convert(t)) {}
    template<class X>
    constexpr TimeRepresentation(std::int64_t count,
                                 X units,
                                 std::enable_if_t<std::is_same_v<X, time_units>>* = nullptr) noexcept:
        timecode_(Tconv::fromCount(count, units))
    {
    }
    template<class Rep, class Period>
    constexpr TimeRepresentation(std::chrono::duration<Rep, Period> dur) noexcept:
        timecode_(Tconv::fromCount(
            std::chrono::duration_cast<std::chrono::nanoseconds>(dur).count(),
            time_units::ns))
    {
    }
    static constexpr TimeRepresentation maxVal() noexcept { return raw(Tconv::maxVal()); }
    static constexpr TimeRepresentation minVal() noexcept { return raw(Tconv::minVal()); }
    static constexpr TimeRepresentation zeroVal() noexcept { return raw(Tconv::zeroVal()); }
    static constexpr TimeRepresentation epsilon() noexcept { return raw(Tconv::epsilon()); }

    constexpr std::int64_t toCount(time_units units) const noexcept
    {
        return Tconv::toCount(timecode_, units);
    }
    constexpr std::chrono::nanoseconds to_ns() const noexcept
    {
        return std::chrono::nanoseconds(toCount(time_units::ns));
    }
    constexpr std::chrono::milliseconds to_ms() const noexcept
    {
        return std::chrono::milliseconds(toCount(time_units::ms));
    }
    constexpr operator double() const noexcept { return Tconv::toDouble(timecode_); }
    constexpr TimeRepresentation& operator=(double t) noexcept
    {
        timecode_ = Tconv::convert(t);
        return *this;
    }
    constexpr baseType getBaseTimeCode() const noexcept { return timecode_; }
    constexpr void setBaseTimeCode(baseType val) noexcept { timecode_ = val; }

    constexpr TimeRepresentation& operator+=(const TimeRepresentation& o) noexcept
    {
        timecode_ = wadd(timecode_, o.timecode_);
        return *this;
    }
    constexpr TimeRepresentation& operator-=(const TimeRepresentation& o) noexcept
    {
        timecode_ = wsub(timecode_, o.timecode_);
        return *this;
    }
    constexpr TimeRepresentation& operator%=(const TimeRepresentation& o) noexcept
    {
        timecode_ %= o.timecode_;
        return *this;
    }
    template<class X, std::enable_if_t<std::is_arithmetic_v<X>, int> = 0>
    constexpr TimeRepresentation& operator*=(X m) noexcept
    {
        *this = *this * m;
        return *this;
    }
    template<class X, std::enable_if_t<std::is_arithmetic_v<X>, int> = 0>
    constexpr TimeRepresentation& operator/=(X m) noexcept
    {
        *this = *this / m;
        return *this;
    }
    constexpr TimeRepresentation operator-() const noexcept { return raw(wsub(0, timecode_)); }

    friend constexpr TimeRepresentation operator+(const TimeRepresentation& a,
                                                  const TimeRepresentation& b) noexcept
    {
        return raw(wadd(a.timecode_, b.timecode_));
    }
    friend constexpr TimeRepresentation operator-(const TimeRepresentation& a,
                                                  const TimeRepresentation& b) noexcept
    {
        return raw(wsub(a.timecode_, b.timecode_));
    }
    template<class X, std::enable_if_t<std::is_arithmetic_v<X>, int> = 0>
    friend constexpr TimeRepresentation operator+(const TimeRepresentation& a, X b) noexcept
    {
        return a + TimeRepresentation(static_cast<double>(b));
    }
    template<class X, std::enable_if_t<std::is_arithmetic_v<X>, int> = 0>
    friend constexpr TimeRepresentation operator+(X a, const TimeRepresentation& b) noexcept
    {
        return TimeRepresentation(static_cast<double>(a)) + b;
    }
    template<class X, std::enable_if_t<std::is_arithmetic_v<X>, int> = 0>
    friend constexpr TimeRepresentation operator-(const TimeRepresentation& a, X b) noexcept
    {
        return a - TimeRepresentation(static_cast<double>(b));
    }
    template<class X, std::enable_if_t<std::is_arithmetic_v<X>, int> = 0>
    friend constexpr TimeRepresentation operator-(X a, const TimeRepresentation& b) noexcept
    {
        return TimeRepresentation(static_cast<double>(a)) - b;
    }
    friend constexpr TimeRepresentation operator%(const TimeRepresentation& a,
                                                  const TimeRepresentation& b) noexcept
    {
        return raw(a.timecode_ % b.timecode_);
    }
    template<class X, std::enable_if_t<std::is_arithmetic_v<X>, int> = 0>
    friend constexpr TimeRepresentation operator*(const TimeRepresentation& a, X b) noexcept
    {
        if constexpr (std::is_integral_v<X>) {
            return raw(wmul(a.timecode_, static_cast<baseType>(b)));
        } else {
            return TimeRepresentation(Tconv::toDouble(a.timecode_) * b);
        }
    }
    template<class X, std::enable_if_t<std::is_arithmetic_v<X>, int> = 0>
    friend constexpr auto operator*(X b, const TimeRepresentation& a) noexcept
    {
        if constexpr (std::is_integral_v<X>) {
            return a * b;
        } else {
            return Tconv::toDouble(a.timecode_) * b;
        }
    }
    template<class X, std::enable_if_t<std::is_arithmetic_v<X>, int> = 0>
    friend constexpr TimeRepresentation operator/(const TimeRepresentation& a, X b) noexcept
    {
        if constexpr (std::is_integral_v<X>) {
            return raw(a.timecode_ / static_cast<baseType>(b));
        } else {
            return TimeRepresentation(Tconv::toDouble(a.timecode_) / b);
        }
    }
    friend constexpr double operator/(const TimeRepresentation& a,
                                      const TimeRepresentation& b) noexcept
    {
        return Tconv::toDouble(a.timecode_) / Tconv::toDouble(b.timecode_);
    }
#define VERIF_TIME_CMP(op)                                                                         \
    friend constexpr bool operator op(const TimeRepresentation& a,                                 \
                                      const TimeRepresentation& b) noexcept                        \
    {                                                                                              \
        return a.timecode_ op b.timecode_;                                                         \
    }                                                                                              \
    template<class X, std::enable_if_t<std::is_arithmetic_v<X>, int> = 0>                          \
    friend constexpr bool operator op(const TimeRepresentation& a, X b) noexcept                   \
    {                                                                                              \
        return a.timecode_ op TimeRepresentation(static_cast<double>(b)).timecode_;                \
    }                                                                                              \
    template<class X, std::enable_if_t<std::is_arithmetic_v<X>, int> = 0>                          \
    friend constexpr bool operator op(X a, const TimeRepresentation& b) noexcept                   \
    {                                                                                              \
        return TimeRepresentation(static_cast<double>(a)).timecode_ op b.timecode_;                \
    }
    VERIF_TIME_CMP(==)
    VERIF_TIME_CMP(!=)
    VERIF_TIME_CMP(<)
    VERIF_TIME_CMP(<=)
    VERIF_TIME_CMP(>)
    VERIF_TIME_CMP(>=)
#undef VERIF_TIME_CMP
};

namespace std {
template<class T>
struct hash<TimeRepresentation<T>> {
    size_t operator()(const TimeRepresentation<T>& t) const noexcept
    {
        return hash<typename T::baseType>()(t.getBaseTimeCode());
    }
};
}  // namespace std
