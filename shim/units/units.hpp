// Stand-in for the LLNL units library (git submodule that is absent from this sandbox).
// Supports the SI base units, common derived units, decimal prefixes, products, quotients and
// integer powers; anything else parses to the invalid unit, exactly as LLNL/units reports errors.
#pragma once
#include <cmath>
#include <cstdint>
#include <limits>
#include <map>
#include <string>

namespace units {
class precise_unit {
  public:
    int dim[8] = {0, 0, 0, 0, 0, 0, 0, 0};  // m kg s A K rad count pu
    double mult{1.0};
    double offset{0.0};  // only for bare temperature scales
    precise_unit() = default;
    precise_unit(double m, int l, int kg, int s, int a, int k, int r = 0, int c = 0, int p = 0):
        dim{l, kg, s, a, k, r, c, p}, mult(m)
    {
    }
    double multiplier() const { return mult; }
    precise_unit operator*(const precise_unit& o) const
    {
        precise_unit r;
        for (int i = 0; i < 8; ++i) r.dim[i] = dim[i] + o.dim[i];
        r.mult = mult * o.mult;
        return r;
    }
    precise_unit inv() const
    {
        precise_unit r;
        for (int i = 0; i < 8; ++i) r.dim[i] = -dim[i];
        r.mult = 1.0 / mult;
        return r;
    }
    bool sameDim(const precise_unit& o) const
    {
        for (int i = 0; i < 8; ++i)
            if (dim[i] != o.dim[i]) return false;
        return true;
    }
    bool operator==(const precise_unit& o) const
    {
        return sameDim(o) && mult == o.mult && offset == o.offset;
    }
    bool operator!=(const precise_unit& o) const { return !(*this == o); }
};
inline precise_unit invalidUnit()
{
    precise_unit r;
    r.mult = std::numeric_limits<double>::quiet_NaN();
    return r;
}
inline bool is_valid(const precise_unit& u) { return !std::isnan(u.mult); }

namespace detail {
inline const std::map<std::string, precise_unit>& table()
{
    static const std::map<std::string, precise_unit> t = [] {
        std::map<std::string, precise_unit> m;
        m["m"] = m["meter"] = m["meters"] = precise_unit(1, 1, 0, 0, 0, 0);
        m["ft"] = m["foot"] = m["feet"] = precise_unit(0.3048, 1, 0, 0, 0, 0);
        m["in"] = m["inch"] = precise_unit(0.0254, 1, 0, 0, 0, 0);
        m["yd"] = precise_unit(0.9144, 1, 0, 0, 0, 0);
        m["mile"] = m["mi"] = precise_unit(1609.344, 1, 0, 0, 0, 0);
        m["g"] = m["gram"] = precise_unit(0.001, 0, 1, 0, 0, 0);
        m["lb"] = precise_unit(0.45359237, 0, 1, 0, 0, 0);
        m["s"] = m["sec"] = m["second"] = m["seconds"] = precise_unit(1, 0, 0, 1, 0, 0);
        m["min"] = m["minute"] = m["minutes"] = precise_unit(60, 0, 0, 1, 0, 0);
        m["h"] = m["hr"] = m["hour"] = m["hours"] = precise_unit(3600, 0, 0, 1, 0, 0);
        m["day"] = m["days"] = precise_unit(86400, 0, 0, 1, 0, 0);
        m["A"] = m["amp"] = m["amps"] = precise_unit(1, 0, 0, 0, 1, 0);
        m["K"] = precise_unit(1, 0, 0, 0, 0, 1);
        auto c = precise_unit(1, 0, 0, 0, 0, 1);
        c.offset = 273.15;
        m["degC"] = m["C"] = m["celsius"] = c;
        auto f = precise_unit(5.0 / 9.0, 0, 0, 0, 0, 1);
        f.offset = 459.67 * 5.0 / 9.0;
        m["degF"] = m["F"] = f;
        m["rad"] = m["radian"] = m["radians"] = precise_unit(1, 0, 0, 0, 0, 0, 1);
        m["deg"] = m["degree"] = m["degrees"] =
            precise_unit(3.14159265358979323846 / 180.0, 0, 0, 0, 0, 0, 1);
        m["count"] = precise_unit(1, 0, 0, 0, 0, 0, 0, 1);
        m["pu"] = m["puV"] = m["puMW"] = precise_unit(1, 0, 0, 0, 0, 0, 0, 0, 1);
        m["1"] = precise_unit();
        m["%"] = m["percent"] = precise_unit(0.01, 0, 0, 0, 0, 0);
        m["Hz"] = precise_unit(1, 0, 0, -1, 0, 0);
        m["N"] = precise_unit(1, 1, 1, -2, 0, 0);
        m["Pa"] = precise_unit(1, -1, 1, -2, 0, 0);
        m["J"] = precise_unit(1, 2, 1, -2, 0, 0);
        m["W"] = m["watt"] = m["watts"] = m["VA"] = precise_unit(1, 2, 1, -3, 0, 0);
        m["Wh"] = precise_unit(3600, 2, 1, -2, 0, 0);
        m["V"] = m["volt"] = m["volts"] = precise_unit(1, 2, 1, -3, -1, 0);
        m["ohm"] = precise_unit(1, 2, 1, -3, -2, 0);
        m["mph"] = precise_unit(1609.344 / 3600.0, 1, 0, -1, 0, 0);
        return m;
    }();
    return t;
}
inline precise_unit single(const std::string& s)
{
    const auto& t = table();
    auto it = t.find(s);
    if (it != t.end()) return it->second;
    static const std::map<char, double> pre{
        {'n', 1e-9}, {'u', 1e-6}, {'m', 1e-3}, {'c', 1e-2}, {'k', 1e3}, {'M', 1e6}, {'G', 1e9}, {'T', 1e12}};
    static const std::map<std::string, bool> prefixable{
        {"m", true}, {"g", true}, {"s", true}, {"A", true}, {"Hz", true}, {"N", true}, {"Pa", true},
        {"J", true}, {"W", true}, {"VA", true}, {"Wh", true}, {"V", true}, {"ohm", true}, {"rad", true}};
    if (s.size() > 1) {
        auto p = pre.find(s[0]);
        auto rest = s.substr(1);
        if (p != pre.end() && prefixable.count(rest) != 0) {
            auto u = t.at(rest);
            u.mult *= p->second;
            return u;
        }
    }
    return invalidUnit();
}
}  // namespace detail

inline precise_unit unit_from_string(std::string str)
{
    std::string s;
    for (char c : str)
        if (c != ' ' && c != '(' && c != ')' && c != '[' && c != ']') s.push_back(c);
    if (s.empty()) return precise_unit();
    if (s.find_first_of("*/^") == std::string::npos) return detail::single(s);
    precise_unit res;
    bool div = false;
    size_t pos = 0;
    while (true) {
        auto nx = s.find_first_of("*/", pos);
        auto tok = s.substr(pos, nx == std::string::npos ? std::string::npos : nx - pos);
        int pw = 1;
        auto caret = tok.find('^');
        if (caret != std::string::npos) {
            auto ps = tok.substr(caret + 1);
            tok = tok.substr(0, caret);
            if (ps.size() == 1 && ps[0] >= '1' && ps[0] <= '9')
                pw = ps[0] - '0';
            else
                return invalidUnit();
        }
        auto u = detail::single(tok);
        if (!is_valid(u)) return u;
        u.offset = 0.0;
        for (int i = 0; i < pw; ++i) res = res * (div ? u.inv() : u);
        if (nx == std::string::npos) break;
        div = s[nx] == '/';
        pos = nx + 1;
    }
    return res;
}
inline double convert(double val, const precise_unit& a, const precise_unit& b)
{
    if (a == b) return val;
    if (!is_valid(a) || !is_valid(b) || !a.sameDim(b))
        return std::numeric_limits<double>::quiet_NaN();
    if (a.offset == b.offset) return val * (a.mult / b.mult);
    return (val * a.mult + a.offset - b.offset) / b.mult;
}
inline double convert(const precise_unit& a, const precise_unit& b) { return convert(1.0, a, b); }
inline double quick_convert(double val, const precise_unit& a, const precise_unit& b)
{
    if (a.offset != b.offset) return std::numeric_limits<double>::quiet_NaN();
    return convert(val, a, b);
}
inline double quick_convert(const precise_unit& a, const precise_unit& b)
{
    return quick_convert(1.0, a, b);
}
namespace precise {
    inline const precise_unit m = unit_from_string("m"), ft = unit_from_string("ft"), mile = unit_from_string("mile"),
        min = unit_from_string("min"), mm = unit_from_string("mm"), cm = unit_from_string("cm"), s = unit_from_string("s"), hr = unit_from_string("hr");
}
inline std::string to_string(const precise_unit&) { return "unit"; }
}  // namespace units
