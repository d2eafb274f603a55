// Stand-in for toml11 v4 (git submodule absent from this sandbox): the part of the interface that
// HELICS uses, with a compact TOML parser (tables, arrays of tables, dotted keys, inline tables,
// arrays, basic/literal/multi-line strings, integers, floats, booleans, local times).
#pragma once
#include <cerrno>
#include <cctype>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <istream>
#include <iterator>
#include <memory>
#include <new>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <variant>
#include <vector>

namespace toml {
class exception: public std::exception {
  public:
    explicit exception(std::string s): msg(std::move(s)) {}
    const char* what() const noexcept override { return msg.c_str(); }

  private:
    std::string msg;
};
class syntax_error: public exception {
    using exception::exception;
};
class type_error: public exception {
    using exception::exception;
};
enum class value_t : std::uint8_t {
    empty = 0, boolean = 1, integer = 2, floating = 3, string = 4, offset_datetime = 5,
    local_datetime = 6, local_date = 7, local_time = 8, array = 9, table = 10
};

class value {
  public:
    using array_type = std::vector<value>;
    using table_type = std::unordered_map<std::string, value>;

  private:
    value_t t{value_t::empty};
    bool b{false};
    std::int64_t i{0};  // integer, or local time in ns
    double d{0};
    std::string s;
    std::unique_ptr<array_type> a;
    std::unique_ptr<table_type> tab;
    void need(value_t x) const
    {
        if (t != x) throw type_error("toml::value: bad cast");
    }

  public:
    bool inlineDefined{false};
    value() = default;
    value(bool v): t(value_t::boolean), b(v) {}
    value(std::int64_t v): t(value_t::integer), i(v) {}
    value(int v): t(value_t::integer), i(v) {}
    value(double v): t(value_t::floating), d(v) {}
    value(std::string v): t(value_t::string), s(std::move(v)) {}
    value(const char* v): t(value_t::string), s(v) {}
    value(array_type v): t(value_t::array), a(new array_type(std::move(v))) {}
    value(table_type v): t(value_t::table), tab(new table_type(std::move(v))) {}
    value(const value& o) { *this = o; }
    value(value&&) noexcept = default;
    value& operator=(value&&) noexcept = default;
    value& operator=(const value& o)
    {
        if (this == &o) return *this;
        t = o.t; b = o.b; i = o.i; d = o.d; s = o.s; inlineDefined = o.inlineDefined;
        a.reset(o.a ? new array_type(*o.a) : nullptr);
        tab.reset(o.tab ? new table_type(*o.tab) : nullptr);
        return *this;
    }
    static value localTime(std::int64_t ns)
    {
        value v;
        v.t = value_t::local_time;
        v.i = ns;
        return v;
    }
    value_t type() const { return t; }
    bool is_empty() const { return t == value_t::empty; }
    bool is_boolean() const { return t == value_t::boolean; }
    bool is_integer() const { return t == value_t::integer; }
    bool is_floating() const { return t == value_t::floating; }
    bool is_string() const { return t == value_t::string; }
    bool is_array() const { return t == value_t::array; }
    bool is_table() const { return t == value_t::table; }
    bool is_local_time() const { return t == value_t::local_time; }
    const std::string& as_string() const { need(value_t::string); return s; }
    std::string& as_string() { need(value_t::string); return s; }
    const std::string& as_string(std::nothrow_t) const { return s; }
    const std::int64_t& as_integer() const { need(value_t::integer); return i; }
    const std::int64_t& as_integer(std::nothrow_t) const { return i; }
    const double& as_floating() const { need(value_t::floating); return d; }
    const double& as_floating(std::nothrow_t) const { return d; }
    const bool& as_boolean() const { need(value_t::boolean); return b; }
    std::int64_t rawTime() const { need(value_t::local_time); return i; }
    array_type& as_array() { need(value_t::array); return *a; }
    const array_type& as_array() const { need(value_t::array); return *a; }
    table_type& as_table() { need(value_t::table); return *tab; }
    const table_type& as_table() const { need(value_t::table); return *tab; }
    bool contains(const std::string& k) const { need(value_t::table); return tab->count(k) != 0; }
    std::size_t size() const
    {
        if (t == value_t::array) return a->size();
        if (t == value_t::table) return tab->size();
        if (t == value_t::string) return s.size();
        throw type_error("toml::value::size");
    }
    const value& at(const std::string& k) const
    {
        need(value_t::table);
        auto it = tab->find(k);
        if (it == tab->end()) throw std::out_of_range("toml: key not found: " + k);
        return it->second;
    }
    value& at(const std::string& k)
    {
        return const_cast<value&>(static_cast<const value&>(*this).at(k));
    }
    const value& at(std::size_t k) const { need(value_t::array); return a->at(k); }
    const value& operator[](std::size_t k) const { need(value_t::array); return (*a)[k]; }
    value& operator[](std::size_t k) { need(value_t::array); return (*a)[k]; }
    value& operator[](const std::string& k)
    {
        if (t == value_t::empty) {
            t = value_t::table;
            tab.reset(new table_type);
        }
        need(value_t::table);
        return (*tab)[k];
    }
};
using array = value::array_type;
using table = value::table_type;

inline std::ostream& operator<<(std::ostream& os, const value& v)
{
    switch (v.type()) {
        case value_t::boolean: os << (v.as_boolean() ? "true" : "false"); break;
        case value_t::integer: os << v.as_integer(); break;
        case value_t::floating: os << v.as_floating(); break;
        case value_t::string: os << '"' << v.as_string() << '"'; break;
        case value_t::array: {
            os << '[';
            bool first = true;
            for (const auto& e : v.as_array()) {
                if (!first) os << ", ";
                first = false;
                os << e;
            }
            os << ']';
            break;
        }
        case value_t::table: {
            os << '{';
            bool first = true;
            for (const auto& e : v.as_table()) {
                if (!first) os << ", ";
                first = false;
                os << e.first << " = " << e.second;
            }
            os << '}';
            break;
        }
        default: break;
    }
    return os;
}

namespace detail {
template<class T>
struct always_false: std::false_type {};
}  // namespace detail

template<class T>
T get(const value& v)
{
    if constexpr (std::is_same_v<T, value>) {
        return v;
    } else if constexpr (std::is_same_v<T, bool>) {
        return v.as_boolean();
    } else if constexpr (std::is_integral_v<T>) {
        return static_cast<T>(v.as_integer());
    } else if constexpr (std::is_floating_point_v<T>) {
        return static_cast<T>(v.as_floating());
    } else if constexpr (std::is_same_v<T, std::string>) {
        return v.as_string();
    } else if constexpr (std::is_same_v<T, std::chrono::nanoseconds>) {
        return std::chrono::nanoseconds(v.rawTime());
    } else {
        static_assert(detail::always_false<T>::value, "unsupported toml::get type");
    }
}

inline value& find(value& v, const std::string& k) { return v.at(k); }
inline const value& find(const value& v, const std::string& k) { return v.at(k); }

inline const value& find_or(const value& v, const std::string& k, const value& def)
{
    if (!v.is_table() || !v.contains(k)) return def;
    return v.at(k);
}
inline value& find_or(value& v, const std::string& k, value& def)
{
    if (!v.is_table() || !v.contains(k)) return def;
    return v.at(k);
}
inline const std::string& find_or(const value& v, const std::string& k, const std::string& def)
{
    if (!v.is_table() || !v.contains(k) || !v.at(k).is_string()) return def;
    return v.at(k).as_string();
}
template<class T>
std::conditional_t<std::is_same_v<T, std::string>, const std::string&, T>
    find_or(const value& v, const std::string& k, const T& def)
{
    if (!v.is_table() || !v.contains(k)) return def;
    if constexpr (std::is_same_v<T, std::string>) {
        return v.at(k).is_string() ? v.at(k).as_string() : def;
    } else {
        try {
            return get<T>(v.at(k));
        }
        catch (const exception&) {
            return def;
        }
    }
}

namespace detail {
class parser {
    std::string s;
    size_t p{0};
    int depth{0};
    [[noreturn]] void err(const std::string& m) const
    {
        throw syntax_error("toml parse error at byte " + std::to_string(p) + ": " + m);
    }
    int pk(size_t o = 0) const { return (p + o < s.size()) ? static_cast<unsigned char>(s[p + o]) : -1; }
    void ws()
    {
        while (pk() == ' ' || pk() == '\t') ++p;
    }
    void comment()
    {
        if (pk() == '#')
            while (pk() != -1 && pk() != '\n') ++p;
    }
    void wsnl()
    {
        while (true) {
            ws();
            comment();
            if (pk() == '\n') ++p;
            else if (pk() == '\r' && pk(1) == '\n') p += 2;
            else break;
        }
    }
    void eol()
    {
        ws();
        comment();
        if (pk() == '\r' && pk(1) == '\n') ++p;
        if (pk() == '\n') { ++p; return; }
        if (pk() == -1) return;
        err("expected end of line");
    }
    static void utf8(std::string& o, unsigned long c)
    {
        if (c < 0x80) o += char(c);
        else if (c < 0x800) { o += char(0xC0 | (c >> 6)); o += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += char(0xE0 | (c >> 12)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
        else { o += char(0xF0 | (c >> 18)); o += char(0x80 | ((c >> 12) & 63)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
    }
    std::string str()
    {
        char q = s[p];
        bool multi = pk(1) == q && pk(2) == q;
        p += multi ? 3 : 1;
        if (multi) {
            if (pk() == '\r' && pk(1) == '\n') p += 2;
            else if (pk() == '\n') ++p;
        }
        std::string o;
        while (true) {
            int c = pk();
            if (c == -1) err("unterminated string");
            if (c == q) {
                if (!multi) { ++p; return o; }
                if (pk(1) == q && pk(2) == q) {
                    p += 3;
                    while (pk() == q) { o += q; ++p; }
                    return o;
                }
                o += q; ++p; continue;
            }
            if (c == '\n' && !multi) err("newline in string");
            if (c < 0x20 && c != '\t' && c != '\n' && c != '\r') err("control character in string");
            if (c == '\\' && q == '"') {
                ++p;
                int e = pk();
                ++p;
                switch (e) {
                    case 'b': o += '\b'; break;
                    case 't': o += '\t'; break;
                    case 'n': o += '\n'; break;
                    case 'f': o += '\f'; break;
                    case 'r': o += '\r'; break;
                    case '"': o += '"'; break;
                    case '\\': o += '\\'; break;
                    case 'u':
                    case 'U': {
                        int n = e == 'u' ? 4 : 8;
                        unsigned long c2 = 0;
                        for (int k = 0; k < n; ++k) {
                            int h = pk();
                            if (!isxdigit(h == -1 ? 0 : h)) err("bad unicode escape");
                            c2 = c2 * 16 + (h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
                            ++p;
                        }
                        utf8(o, c2);
                        break;
                    }
                    default:
                        if (multi && (e == '\n' || e == ' ' || e == '\t' || e == '\r')) {
                            while (pk() == ' ' || pk() == '\t' || pk() == '\n' || pk() == '\r') ++p;
                            break;
                        }
                        err("bad escape");
                }
                continue;
            }
            o += char(c);
            ++p;
        }
    }
    static bool bare(int c) { return c != -1 && (isalnum(c) || c == '_' || c == '-'); }
    std::string simpleKey()
    {
        if (pk() == '"' || pk() == '\'') return str();
        size_t b = p;
        while (bare(pk())) ++p;
        if (p == b) err("expected key");
        return s.substr(b, p - b);
    }
    std::vector<std::string> key()
    {
        std::vector<std::string> k;
        while (true) {
            ws();
            k.push_back(simpleKey());
            ws();
            if (pk() == '.') { ++p; continue; }
            return k;
        }
    }
    value scalar()
    {
        size_t b = p;
        while (pk() != -1 && (isalnum(pk()) || pk() == '_' || pk() == '-' || pk() == '+' || pk() == '.' || pk() == ':')) ++p;
        std::string w = s.substr(b, p - b);
        if (w == "true") return value(true);
        if (w == "false") return value(false);
        if (w == "inf" || w == "+inf") return value(HUGE_VAL);
        if (w == "-inf") return value(-HUGE_VAL);
        if (w == "nan" || w == "+nan" || w == "-nan") return value(std::nan(""));
        if (w.empty()) err("expected value");
        if (w.size() >= 8 && w[2] == ':' && w[5] == ':') {
            std::int64_t h = std::stoi(w.substr(0, 2)), m = std::stoi(w.substr(3, 2));
            double sec = std::stod(w.substr(6));
            return value::localTime((h * 3600 + m * 60) * 1000000000LL + std::llround(sec * 1e9));
        }
        std::string n;
        for (char c : w)
            if (c != '_') n += c;
        char* end = nullptr;
        bool flt = n.find_first_of(".eE") != std::string::npos && n.compare(0, 2, "0x") != 0;
        if (!flt) {
            int base = 10;
            std::string t = n;
            if (n.compare(0, 2, "0x") == 0) base = 16;
            else if (n.compare(0, 2, "0o") == 0) { base = 8; t = n.substr(2); }
            else if (n.compare(0, 2, "0b") == 0) { base = 2; t = n.substr(2); }
            errno = 0;
            long long v = std::strtoll(t.c_str(), &end, base);
            if (t.empty() || *end != 0 || errno == ERANGE) err("bad integer: " + w);
            return value(static_cast<std::int64_t>(v));
        }
        if (!(isdigit(static_cast<unsigned char>(n[0])) || n[0] == '+' || n[0] == '-')) err("bad value: " + w);
        double v = std::strtod(n.c_str(), &end);
        if (*end != 0) err("bad float: " + w);
        return value(v);
    }
    value val()
    {
        if (++depth > 200) err("nesting too deep");
        value r;
        int c = pk();
        if (c == '"' || c == '\'') r = value(str());
        else if (c == '[') {
            ++p;
            array a;
            wsnl();
            while (pk() != ']') {
                a.push_back(val());
                wsnl();
                if (pk() == ',') { ++p; wsnl(); }
                else if (pk() != ']') err("expected , or ] in array");
            }
            ++p;
            r = value(std::move(a));
            r.inlineDefined = true;
        } else if (c == '{') {
            ++p;
            r = value(table{});
            wsnl();
            while (pk() != '}') {
                keyval(r);
                wsnl();
                if (pk() == ',') { ++p; wsnl(); }
                else if (pk() != '}') err("expected , or } in inline table");
            }
            ++p;
            r.inlineDefined = true;
        } else r = scalar();
        --depth;
        return r;
    }
    void keyval(value& cur)
    {
        auto k = key();
        ws();
        if (pk() != '=') err("expected =");
        ++p;
        ws();
        value v = val();
        value* c = &cur;
        for (size_t i = 0; i + 1 < k.size(); ++i) {
            auto& t = c->as_table();
            if (t.count(k[i]) == 0) t[k[i]] = value(table{});
            c = &t[k[i]];
            if (!c->is_table() || c->inlineDefined) err("key is not a table: " + k[i]);
        }
        auto& t = c->as_table();
        if (t.count(k.back()) != 0) err("duplicate key: " + k.back());
        t.emplace(k.back(), std::move(v));
    }
    value* walk(value& root, const std::vector<std::string>& k, size_t n)
    {
        value* c = &root;
        for (size_t i = 0; i < n; ++i) {
            auto& t = c->as_table();
            if (t.count(k[i]) == 0) t[k[i]] = value(table{});
            c = &t[k[i]];
            if (c->is_array()) {
                if (c->inlineDefined || c->as_array().empty()) err("cannot extend array " + k[i]);
                c = &c->as_array().back();
            }
            if (!c->is_table() || c->inlineDefined) err("not a table: " + k[i]);
        }
        return c;
    }

  public:
    explicit parser(std::string str): s(std::move(str)) {}
    value run()
    {
        if (s.compare(0, 3, "\xEF\xBB\xBF") == 0) p = 3;
        value root(table{});
        value* cur = &root;
        std::unordered_map<std::string, int> defined;
        while (true) {
            wsnl();
            if (pk() == -1) break;
            if (pk() == '[') {
                bool arr = pk(1) == '[';
                p += arr ? 2 : 1;
                auto k = key();
                if (pk() != ']' || (arr && pk(1) != ']')) err("expected ]");
                p += arr ? 2 : 1;
                eol();
                value* par = walk(root, k, k.size() - 1);
                auto& t = par->as_table();
                if (arr) {
                    if (t.count(k.back()) == 0) t[k.back()] = value(array{});
                    auto& x = t[k.back()];
                    if (!x.is_array() || x.inlineDefined) err("not an array of tables: " + k.back());
                    x.as_array().push_back(value(table{}));
                    cur = &x.as_array().back();
                } else {
                    if (t.count(k.back()) != 0) {
                        auto& x = t[k.back()];
                        if (!x.is_table() || x.inlineDefined) err("duplicate table: " + k.back());
                        cur = &x;
                    } else {
                        t[k.back()] = value(table{});
                        cur = &t[k.back()];
                    }
                }
                continue;
            }
            keyval(*cur);
            eol();
        }
        return root;
    }
};
}  // namespace detail

inline value parse(std::istream& is, const std::string& = "")
{
    std::string str((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
    try {
        return detail::parser(std::move(str)).run();
    }
    catch (const std::out_of_range& e) {
        throw syntax_error(e.what());
    }
    catch (const std::invalid_argument& e) {
        throw syntax_error(e.what());
    }
}
}  // namespace toml
