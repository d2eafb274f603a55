// An independent, strict JSON reader (RFC 8259) used as an oracle: it shares no code with the library.
#pragma once
#include <cmath>
#include <cstdlib>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace mj {
struct Member;
struct Value {
    enum Kind { Null, Bool, Int, Real, Str, Arr, Obj } kind{Null};
    bool b{false};
    long long i{0};
    double d{0};
    std::string s;
    std::vector<Value> a;
    std::vector<Member> o;
    Value();
    Value(const Value&);
    Value& operator=(const Value&);
    ~Value();
    const Value* get(const std::string& k) const;
    double num() const { return kind == Int ? static_cast<double>(i) : d; }
    bool operator==(const Value& v) const;
};
struct Member {
    std::string first;
    Value second;
};
inline Value::Value() = default;
inline Value::Value(const Value&) = default;
inline Value& Value::operator=(const Value&) = default;
inline Value::~Value() = default;
inline const Value* Value::get(const std::string& k) const
{
    for (const auto& e : o) {
        if (e.first == k) {
            return &e.second;
        }
    }
    return nullptr;
}
inline bool Value::operator==(const Value& v) const
{
    if (kind != v.kind) {
        return false;
    }
    switch (kind) {
        case Null: return true;
        case Bool: return b == v.b;
        case Int: return i == v.i;
        case Real: return d == v.d;
        case Str: return s == v.s;
        case Arr: return a == v.a;
        default: {
            if (o.size() != v.o.size()) {
                return false;
            }
            for (const auto& e : o) {
                const auto* q = v.get(e.first);
                if (q == nullptr || !(e.second == *q)) {
                    return false;
                }
            }
            return true;
        }
    }
}

class Parser {
  public:
    explicit Parser(std::string_view t): t_(t) {}
    std::optional<Value> parse()
    {
        Value v;
        ws();
        if (!value(v, 0)) {
            return std::nullopt;
        }
        ws();
        if (p_ != t_.size()) {
            err_ = "text after the value";
            return std::nullopt;
        }
        return v;
    }
    std::string err_{"syntax"};

  private:
    std::string_view t_;
    std::size_t p_{0};
    void ws()
    {
        while (p_ < t_.size() && (t_[p_] == ' ' || t_[p_] == '\n' || t_[p_] == '\r' || t_[p_] == '\t')) {
            ++p_;
        }
    }
    bool lit(std::string_view w)
    {
        if (t_.substr(p_, w.size()) != w) {
            return false;
        }
        p_ += w.size();
        return true;
    }
    static void utf8(std::string& out, unsigned long c)
    {
        if (c < 0x80) {
            out.push_back(static_cast<char>(c));
        } else if (c < 0x800) {
            out.push_back(static_cast<char>(0xC0 | (c >> 6)));
            out.push_back(static_cast<char>(0x80 | (c & 0x3F)));
        } else if (c < 0x10000) {
            out.push_back(static_cast<char>(0xE0 | (c >> 12)));
            out.push_back(static_cast<char>(0x80 | ((c >> 6) & 0x3F)));
            out.push_back(static_cast<char>(0x80 | (c & 0x3F)));
        } else {
            out.push_back(static_cast<char>(0xF0 | (c >> 18)));
            out.push_back(static_cast<char>(0x80 | ((c >> 12) & 0x3F)));
            out.push_back(static_cast<char>(0x80 | ((c >> 6) & 0x3F)));
            out.push_back(static_cast<char>(0x80 | (c & 0x3F)));
        }
    }
    bool hex4(unsigned long& c)
    {
        if (p_ + 4 > t_.size()) {
            return false;
        }
        c = 0;
        for (int i = 0; i < 4; ++i) {
            char h = t_[p_++];
            c <<= 4;
            if (h >= '0' && h <= '9') {
                c |= h - '0';
            } else if (h >= 'a' && h <= 'f') {
                c |= h - 'a' + 10;
            } else if (h >= 'A' && h <= 'F') {
                c |= h - 'A' + 10;
            } else {
                return false;
            }
        }
        return true;
    }
    bool string(std::string& out)
    {
        if (p_ >= t_.size() || t_[p_] != '"') {
            return false;
        }
        ++p_;
        while (p_ < t_.size()) {
            unsigned char c = t_[p_++];
            if (c == '"') {
                return true;
            }
            if (c < 0x20) {
                err_ = "raw control character in a string";
                return false;
            }
            if (c != '\\') {
                out.push_back(static_cast<char>(c));
                continue;
            }
            if (p_ >= t_.size()) {
                return false;
            }
            char e = t_[p_++];
            switch (e) {
                case '"': out.push_back('"'); break;
                case '\\': out.push_back('\\'); break;
                case '/': out.push_back('/'); break;
                case 'b': out.push_back('\b'); break;
                case 'f': out.push_back('\f'); break;
                case 'n': out.push_back('\n'); break;
                case 'r': out.push_back('\r'); break;
                case 't': out.push_back('\t'); break;
                case 'u': {
                    unsigned long u = 0;
                    if (!hex4(u)) {
                        err_ = "bad \\u escape";
                        return false;
                    }
                    if (u >= 0xD800 && u < 0xDC00) {
                        unsigned long l = 0;
                        if (!lit("\\u") || !hex4(l) || l < 0xDC00 || l > 0xDFFF) {
                            err_ = "unpaired surrogate";
                            return false;
                        }
                        u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
                    } else if (u >= 0xDC00 && u <= 0xDFFF) {
                        err_ = "unpaired surrogate";
                        return false;
                    }
                    utf8(out, u);
                    break;
                }
                default: err_ = "bad escape"; return false;
            }
        }
        err_ = "unterminated string";
        return false;
    }
    bool number(Value& v)
    {
        auto st = p_;
        bool real = false;
        if (p_ < t_.size() && t_[p_] == '-') {
            ++p_;
        }
        if (p_ >= t_.size() || t_[p_] < '0' || t_[p_] > '9') {
            return false;
        }
        if (t_[p_] == '0') {
            ++p_;
        } else {
            while (p_ < t_.size() && t_[p_] >= '0' && t_[p_] <= '9') {
                ++p_;
            }
        }
        auto digits = [&]() {
            auto b = p_;
            while (p_ < t_.size() && t_[p_] >= '0' && t_[p_] <= '9') {
                ++p_;
            }
            return p_ > b;
        };
        if (p_ < t_.size() && t_[p_] == '.') {
            real = true;
            ++p_;
            if (!digits()) {
                return false;
            }
        }
        if (p_ < t_.size() && (t_[p_] == 'e' || t_[p_] == 'E')) {
            real = true;
            ++p_;
            if (p_ < t_.size() && (t_[p_] == '+' || t_[p_] == '-')) {
                ++p_;
            }
            if (!digits()) {
                return false;
            }
        }
        std::string n(t_.substr(st, p_ - st));
        v.kind = real ? Value::Real : Value::Int;
        v.d = std::strtod(n.c_str(), nullptr);
        if (!real) {
            v.i = std::strtoll(n.c_str(), nullptr, 10);
        }
        return true;
    }
    bool value(Value& v, int depth)
    {
        if (p_ >= t_.size() || depth > 200) {
            err_ = "unexpected end";
            return false;
        }
        switch (t_[p_]) {
            case 'n': v.kind = Value::Null; return lit("null");
            case 't': v.kind = Value::Bool; v.b = true; return lit("true");
            case 'f': v.kind = Value::Bool; v.b = false; return lit("false");
            case '"': v.kind = Value::Str; return string(v.s);
            case '[': {
                v.kind = Value::Arr;
                ++p_;
                ws();
                if (lit("]")) {
                    return true;
                }
                while (true) {
                    ws();
                    v.a.emplace_back();
                    if (!value(v.a.back(), depth + 1)) {
                        return false;
                    }
                    ws();
                    if (lit("]")) {
                        return true;
                    }
                    if (!lit(",")) {
                        err_ = "expected , or ]";
                        return false;
                    }
                }
            }
            case '{': {
                v.kind = Value::Obj;
                ++p_;
                ws();
                if (lit("}")) {
                    return true;
                }
                while (true) {
                    ws();
                    std::string k;
                    if (!string(k)) {
                        return false;
                    }
                    ws();
                    if (!lit(":")) {
                        err_ = "expected :";
                        return false;
                    }
                    ws();
                    for (const auto& e : v.o) {
                        if (e.first == k) {
                            err_ = "repeated key";
                            return false;
                        }
                    }
                    v.o.push_back(Member{k, Value{}});
                    if (!value(v.o.back().second, depth + 1)) {
                        return false;
                    }
                    ws();
                    if (lit("}")) {
                        return true;
                    }
                    if (!lit(",")) {
                        err_ = "expected , or }";
                        return false;
                    }
                }
            }
            default: return number(v);
        }
    }
};
inline std::optional<Value> parse(std::string_view t)
{
    return Parser(t).parse();
}
/// strict UTF-8: no overlong forms, surrogates or values above U+10FFFF; returns the length of the valid prefix
inline std::size_t utf8Prefix(std::string_view s)
{
    std::size_t i = 0;
    while (i < s.size()) {
        unsigned char c = s[i];
        unsigned n = c < 0x80 ? 0 : (c >= 0xC2 && c <= 0xDF) ? 1 : (c >= 0xE0 && c <= 0xEF) ? 2 : (c >= 0xF0 && c <= 0xF4) ? 3 : 99;
        if (n == 99 || i + n >= s.size() + 0 + (n == 0 ? 1 : 0)) {
            if (n == 99 || i + n > s.size() - 1) {
                return i;
            }
        }
        for (unsigned k = 1; k <= n; ++k) {
            unsigned char q = s[i + k];
            unsigned char lo = 0x80;
            unsigned char hi = 0xBF;
            if (k == 1) {
                if (c == 0xE0) lo = 0xA0;
                if (c == 0xED) hi = 0x9F;
                if (c == 0xF0) lo = 0x90;
                if (c == 0xF4) hi = 0x8F;
            }
            if (q < lo || q > hi) {
                return i;
            }
        }
        i += n + 1;
    }
    return i;
}
}  // namespace mj
