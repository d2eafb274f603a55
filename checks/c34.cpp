// C34: the JSON the library writes is JSON, and means what was put in; the JSON it reads is what was written.
#include "helics/application_api/queryFunctions.hpp"
#include "helics/common/JsonBuilder.hpp"
#include "helics/common/JsonGeneration.hpp"
#include "helics/common/JsonProcessingFunctions.hpp"
#include "helics/common/addTargets.hpp"
#include "helics/core/queryHelpers.hpp"

#include "minijson.hpp"
#include "pbt.hpp"

#include <nlohmann/json.hpp>

using namespace helics;
using pbt::Src;
#define REQUIREV(SIG, COND, ...)                                                         \
    do {                                                                                   \
        if (!(COND)) {                                                                     \
            throw pbt::Violation{SIG, pbt::cat("[", SIG, "] " #COND " is false: ", __VA_ARGS__)}; \
        }                                                                                  \
    } while (false)

namespace {
// text with every class of code point, and characters JSON must escape
std::string utf8Text(Src& s, std::size_t maxLen)
{
    std::string out;
    auto n = s.range<std::size_t>(0, maxLen);
    for (std::size_t i = 0; i < n; ++i) {
        unsigned long c = 0;
        switch (s.weighted({6, 3, 2, 1, 1, 1, 1})) {
            case 0: c = s.range<unsigned>('a', 'z'); break;
            case 1: c = s.pick({'"', '\\', '/', '\b', '\n', '\t', '\r', '\f', ',', ':', '{', '}', '[', ']'}); break;
            case 2: c = s.range<unsigned>(0, 0x1F); break;
            case 3: c = s.range<unsigned>(0x20, 0x7F); break;
            case 4: c = s.range<unsigned>(0x80, 0x7FF); break;
            case 5: c = s.range<unsigned>(0x800, 0xFFFF); break;
            default: c = s.range<unsigned>(0x10000, 0x10FFFF); break;
        }
        if (c >= 0xD800 && c <= 0xDFFF) {
            c = 0xFFFD;
        }
        if (c < 0x80) {
            out.push_back(static_cast<char>(c));
        } else if (c < 0x800) {
            out.push_back(static_cast<char>(0xC0 | (c >> 6)));
            out.push_back(static_cast<char>(0x80 | (c & 0x3F)));
        } else if (c < 0x10000) {
            out.push_back(static_cast<char>(0xE0 | (c >> 12)));
            out.push_back(static_cast<char>(0x80 | ((c >> 6) & 0x3F)));
            out.push_back(static_cast<char>(0x80 | (c & 0x3F)));
        } else {
            out.push_back(static_cast<char>(0xF0 | (c >> 18)));
            out.push_back(static_cast<char>(0x80 | ((c >> 12) & 0x3F)));
            out.push_back(static_cast<char>(0x80 | ((c >> 6) & 0x3F)));
            out.push_back(static_cast<char>(0x80 | (c & 0x3F)));
        }
    }
    return out;
}
std::string anyText(Src& s, std::size_t maxLen)
{
    if (s.chance(1, 3)) {
        auto t = s.bytes(maxLen);
        if (s.chance(1, 2)) {
            t = utf8Text(s, 4) + t + utf8Text(s, 4);
        }
        return t;
    }
    return utf8Text(s, s.chance(1, 12) ? 600 : maxLen);
}
bool validUtf8(const std::string& t) { return mj::utf8Prefix(t) == t.size(); }
// what the output must hold for a text: exactly the text when it is UTF-8; otherwise its valid start, and
// every plain ASCII character in order
void sameText(const std::string& got, const std::string& text, const char* sig, const std::string& whole)
{
    auto v = mj::utf8Prefix(text);
    if (v == text.size()) {
        REQUIREV(sig, got == text, "wrote ", pbt::hex(whole), " which reads back as ", pbt::hex(got), " instead of ", pbt::hex(text));
        return;
    }
    REQUIREV(sig, got.compare(0, v, text, 0, v) == 0, "the valid start of ", pbt::hex(text), " is lost in ", pbt::hex(got));
    std::size_t at = v;
    for (std::size_t i = v; i < text.size(); ++i) {
        if (static_cast<unsigned char>(text[i]) < 0x80) {
            at = got.find(text[i], at);
            REQUIREV(sig, at != std::string::npos, "character ", int(text[i]), " of ", pbt::hex(text), " lost in ", pbt::hex(got));
            ++at;
        }
    }
}
void ascii(const std::string& t, const char* sig)
{
    for (unsigned char c : t) {
        REQUIREV(sig, c < 0x7F && (c >= 0x20 || c == '\n'), "byte ", int(c), " in ", pbt::hex(t));
    }
}
mj::Value read(const std::string& t, const char* sig)
{
    mj::Parser p(t);
    auto v = p.parse();
    REQUIREV(sig, v.has_value(), "not JSON (", p.err_, "): ", pbt::hex(t), " = ", t.substr(0, 300));
    return *v;
}
void mark(Src& s, const std::string& text)
{
    for (unsigned char c : text) {
        if (c < 0x20 || c >= 0x7F || c == '"' || c == '\\') {
            s.nontrivial();
            break;
        }
    }
    if (!validUtf8(text)) {
        s.tag("not UTF-8");
    }
}
}  // namespace

PROP(quotedString, 4)
{
    auto t = anyText(s, 24);
    s.note("text ", pbt::hex(t));
    mark(s, t);
    auto q = generateJsonQuotedString(t);
    ascii(q, "quoted-ascii");
    auto v = read(q, "quoted-json");
    REQUIRE("quoted-kind", v.kind == mj::Value::Str, q);
    sameText(v.s, t, "quoted-text", q);
}

PROP(errorResponse, 2)
{
    auto t = anyText(s, 24);
    static const std::vector<std::pair<JsonErrorCodes, int>> codes{
        {JsonErrorCodes::BAD_REQUEST, 400},      {JsonErrorCodes::FORBIDDEN, 403},
        {JsonErrorCodes::NOT_FOUND, 404},        {JsonErrorCodes::METHOD_NOT_ALLOWED, 405},
        {JsonErrorCodes::TIMEOUT, 408},          {JsonErrorCodes::DISCONNECTED, 410},
        {JsonErrorCodes::INTERNAL_ERROR, 500},   {JsonErrorCodes::NOT_IMPLEMENTED, 501},
        {JsonErrorCodes::BAD_GATEWAY, 502},      {JsonErrorCodes::SERVICE_UNAVAILABLE, 503},
        {JsonErrorCodes::GATEWAY_TIMEOUT, 504}};
    auto [code, num] = codes[s.draw(codes.size())];
    s.note(num, " ", pbt::hex(t));
    mark(s, t);
    auto r = generateJsonErrorResponse(code, t);
    ascii(r, "error-ascii");
    auto v = read(r, "error-json");
    const auto* e = v.kind == mj::Value::Obj ? v.get("error") : nullptr;
    REQUIRE("error-shape", e != nullptr && e->kind == mj::Value::Obj && v.o.size() == 1, r);
    const auto* c = e->get("code");
    const auto* m = e->get("message");
    REQUIRE("error-code", c != nullptr && c->kind == mj::Value::Int && c->i == num, r);
    REQUIRE("error-shape", m != nullptr && m->kind == mj::Value::Str && e->o.size() == 2, r);
    sameText(m->s, t, "error-message", r);
}

PROP(stringVector, 3)
{
    std::vector<std::pair<int, std::string>> data;
    auto n = s.range<std::size_t>(0, 6);
    for (std::size_t i = 0; i < n; ++i) {
        data.emplace_back(s.range(0, 3), anyText(s, 10));
        mark(s, data.back().second);
        s.note(data.back().first, ":", pbt::hex(data.back().second));
    }
    auto check = [](const std::string& out, const std::vector<std::string>& want) {
        auto v = read(out, "vector-json");
        REQUIRE("vector-kind", v.kind == mj::Value::Arr, out);
        REQUIRE("vector-size", v.a.size() == want.size(), out, " has ", v.a.size(), " entries, not ", want.size());
        for (std::size_t i = 0; i < want.size(); ++i) {
            REQUIRE("vector-kind", v.a[i].kind == mj::Value::Str, out);
            sameText(v.a[i].s, want[i], "vector-text", out);
        }
    };
    std::vector<std::string> all;
    std::vector<std::string> some;
    auto limit = s.range(0, 3);
    for (auto& d : data) {
        all.push_back(d.second);
        if (d.first >= limit) {
            some.push_back(d.second);
        }
    }
    check(generateStringVector(data, [](const auto& d) { return d.second; }), all);
    check(generateStringVector_if(data, [](const auto& d) { return d.second; }, [&](const auto& d) { return d.first >= limit; }), some);
    // what is written as a vector is read back as the same vector (sorted when asked for)
    bool clean = true;
    for (auto& a : all) {
        clean = clean && validUtf8(a);
    }
    if (clean) {
        auto out = generateStringVector(data, [](const auto& d) { return d.second; });
        auto back = vectorizeQueryResult(out);
        REQUIRE("vectorize-roundtrip", back == all, out, " vectorized into ", back.size(), " entries");
        auto sorted = vectorizeAndSortQueryResult(out);
        std::sort(all.begin(), all.end());
        REQUIRE("vectorize-sorted", sorted == all, out);
    }
}

PROP(vectorizeAny, 3)
{
    // any query answer, of any shape, and any bytes: the text itself in one element unless it is a JSON array
    std::string t;
    switch (s.weighted({2, 2, 2, 1})) {
        case 0: t = anyText(s, 12); break;
        case 1: t = "[" + anyText(s, 12) + (s.boolean() ? "]" : ""); break;
        case 2: {
            t = "[";
            auto n = s.range(0, 4);
            for (int i = 0; i < n; ++i) {
                t += (i > 0 ? "," : "");
                t += s.pick({"1", "-7", "2.5", "\"a b\"", "\"\"", "null", "true", "{\"k\":[1,2]}", "[3]", "\"12\"", "1e3", "99999999999"});
            }
            t += s.pick({"]", " ]", "", "]x"});
            break;
        }
        default: t = s.pick({"", "[", "[]", "{}", "12", "-3", "  5", "99999999999", "-99999999999999999999", "abc", "[99999999999]", "3.7", "\"4\"", "[[1]]"});
    }
    s.note("answer ", pbt::hex(t));
    std::vector<std::string> r;
    std::vector<int> idx;
    try {
        r = vectorizeQueryResult(t);
        idx = vectorizeIndexQuery(t);
    }
    catch (const std::exception& e) {
        FAIL("vectorize-throws", "answer ", pbt::hex(t), " made it throw ", e.what());
    }
    if (t.empty()) {
        REQUIRE("vectorize-empty", r.empty() && idx.empty(), "no answer");
        return;
    }
    auto v = t.front() == '[' ? mj::parse(t) : std::nullopt;
    if (v && v->kind == mj::Value::Arr) {
        s.nontrivial();
        REQUIRE("vectorize-size", r.size() == v->a.size(), t, " gives ", r.size());
        for (std::size_t i = 0; i < r.size(); ++i) {
            if (v->a[i].kind == mj::Value::Str) {
                REQUIRE("vectorize-text", r[i] == v->a[i].s, t);
            } else {
                auto w = mj::parse(r[i]);
                REQUIRE("vectorize-value", w && (*w == v->a[i] || (w->kind != mj::Value::Arr && w->kind != mj::Value::Obj && w->num() == v->a[i].num())), t, " entry ", r[i]);
            }
        }
        std::vector<int> want;
        bool fits = true;
        for (auto& a : v->a) {
            if (a.kind == mj::Value::Int || a.kind == mj::Value::Real) {
                fits = fits && std::abs(a.num()) < 2e9;
                want.push_back(fits ? static_cast<int>(a.num()) : 0);
            }
        }
        if (fits) {
            REQUIRE("index-values", idx == want, t, " gives ", idx.size(), " indices");
        }
    } else if (t.front() != '[') {
        REQUIRE("vectorize-plain", r.size() == 1 && r[0] == t, t);
        char* end = nullptr;
        auto n = std::strtol(t.c_str(), &end, 10);
        if (end == t.c_str()) {
            REQUIRE("index-none", idx.empty(), t);
        } else if (n > -2000000000L && n < 2000000000L) {
            REQUIRE("index-one", idx.size() == 1 && idx[0] == n, t);
        }
    }
    auto srt = vectorizeAndSortQueryResult(t);
    std::sort(r.begin(), r.end());
    REQUIRE("vectorize-sorted", srt == r, t);
}

PROP(mapBuilder, 4)
{
    fileops::JsonMapBuilder b;
    struct Missing {
        std::string loc;
        int code;
    };
    std::map<int, Missing> missing;
    std::map<std::string, std::vector<std::string>> filled;  // canonical text of every component, in order
    std::map<std::string, std::string> base;
    bool active = false;
    int counter = 0;
    auto full = [&]() { return active && missing.empty(); };
    auto n = s.range(1, 25);
    int added = 0;
    for (int k = 0; k < n; ++k) {
        switch (s.weighted({4, 4, 2, 1, 1, 1, 1})) {
            case 0: {
                std::string loc = s.pick({"cores", "brokers", "federates", "a b"});
                auto code = s.range(0, 3);
                auto i = b.generatePlaceHolder(loc, code);
                s.note("place ", loc, " code ", code, " -> ", i);
                REQUIRE("placeholder-unique", missing.count(i) == 0, "index ", i, " is already waiting for an answer");
                missing[i] = Missing{loc, code};
                break;
            }
            case 1: {
                int i = 0;
                if (!missing.empty() && !s.chance(1, 6)) {
                    auto it = missing.begin();
                    std::advance(it, s.draw(missing.size()));
                    i = it->first;
                } else {
                    i = s.range(-2, 30);
                }
                std::string info;
                std::string canon = "{}";
                switch (s.weighted({3, 1, 1, 1})) {
                    case 0: {
                        auto name = utf8Text(s, 5);
                        auto num = s.range(-5, 500);
                        info = "{\"n\":" + generateJsonQuotedString(name) + ",\"v\":" + std::to_string(num) + "}";
                        canon = info;
                        break;
                    }
                    case 1: info = "#invalid"; break;
                    case 2: info = s.pick({"{", "", "[1,", "nope"}); break;
                    default: info = canon = s.pick({"[1,2]", "3", "\"t\"", "null"}); break;
                }
                s.note("answer ", i, " ", info);
                auto it = missing.find(i);
                bool known = it != missing.end();
                auto r = b.addComponent(info, i);
                if (known) {
                    filled[it->second.loc].push_back(canon);
                    missing.erase(it);
                    active = true;
                    ++added;
                    REQUIRE("component-complete", r == missing.empty(), "returned ", r, " with ", missing.size(), " missing");
                } else {
                    REQUIRE("component-unknown", !r, "an unknown index ", i, " was accepted");
                }
                break;
            }
            case 2: {
                std::string key = s.pick({"name", "id", "state"});
                auto text = utf8Text(s, 6);
                b.getJValue()[key] = text;
                base[key] = text;
                active = true;
                break;
            }
            case 3: {
                auto code = s.range(0, 3);
                s.note("clear code ", code);
                bool any = false;
                for (auto it = missing.begin(); it != missing.end();) {
                    if (it->second.code == code) {
                        it = missing.erase(it);
                        any = true;
                    } else {
                        ++it;
                    }
                }
                auto r = b.clearComponents(code);
                REQUIRE("clear-code", r == (any && missing.empty()), "returned ", r, " with ", missing.size(), " missing");
                break;
            }
            case 4: {
                s.note("clear all");
                missing.clear();
                REQUIRE("clear-all", b.clearComponents() == active, "");
                break;
            }
            case 5: {
                s.note("reset");
                b.reset();
                missing.clear();
                filled.clear();
                base.clear();
                active = false;
                break;
            }
            default:
                counter = s.range(-3, 9);
                b.setCounterCode(counter);
                if (s.boolean()) {
                    fileops::JsonMapBuilder other(std::move(b));
                    b = std::move(other);
                }
        }
        REQUIRE("active", b.isActive() == active, "isActive");
        REQUIRE("complete", b.isCompleted() == full(), "isCompleted ", b.isCompleted(), " missing ", missing.size());
        REQUIRE("counter", b.getCounterCode() == counter, "");
    }
    if (added > 1) {
        s.nontrivial();
    }
    auto v = read(b.generate(), "map-json");
    if (!active) {
        REQUIRE("map-empty", v.kind == mj::Value::Obj && v.o.empty(), "");
        return;
    }
    std::size_t keys = 0;
    for (auto& [loc, list] : filled) {
        ++keys;
        const auto* a = v.get(loc);
        REQUIRE("map-location", a != nullptr && a->kind == mj::Value::Arr && a->a.size() == list.size(), b.generate());
        for (std::size_t i = 0; i < list.size(); ++i) {
            REQUIRE("map-component", a->a[i] == *mj::parse(list[i]), "component ", i, " at ", loc, " is not ", list[i]);
        }
    }
    for (auto& [key, text] : base) {
        ++keys;
        const auto* a = v.get(key);
        REQUIRE("map-value", a != nullptr && a->kind == mj::Value::Str && a->s == text, b.generate());
    }
    REQUIRE("map-keys", v.o.size() == keys, b.generate());
}

namespace {
// the model of a JsonBuilder: a tree of named elements
struct Node {
    std::map<std::string, Node> kids;
    bool leaf{false};
    mj::Value val;
};
void compare(const mj::Value& v, const Node& n, const std::string& where, const std::string& all)
{
    if (n.leaf) {
        bool same = v == n.val || (v.kind != mj::Value::Str && v.kind != mj::Value::Arr && n.val.kind == mj::Value::Real && v.num() == n.val.d);
        if (n.val.kind == mj::Value::Arr && v.kind == mj::Value::Arr && v.a.size() == n.val.a.size()) {
            same = true;
            for (std::size_t i = 0; i < v.a.size(); ++i) {
                same = same && v.a[i].num() == n.val.a[i].d;
            }
        }
        REQUIRE("builder-value", same, "at ", where, " in ", all);
        return;
    }
    REQUIRE("builder-tree", v.kind == mj::Value::Obj && v.o.size() == n.kids.size(), "at ", where, " in ", all);
    for (auto& [k, c] : n.kids) {
        const auto* q = v.get(k);
        REQUIRE("builder-tree", q != nullptr, "no ", k, " at ", where, " in ", all);
        compare(*q, c, where + "/" + k, all);
    }
}
}  // namespace

PROP(pathBuilder, 3)
{
    fileops::JsonBuilder b;
    Node root;
    auto n = s.range(1, 12);
    bool any = false;
    for (int k = 0; k < n; ++k) {
        std::string path;
        std::vector<std::string> parts;
        auto depth = s.range(1, 4);
        for (int i = 0; i < depth; ++i) {
            parts.push_back(s.pick({"a", "b", "c d", "e1", "\xC3\xA9", "1"}));
            if (i > 0) {
                path += s.pick({"/", ".", ":", "\\", "//", "./"});
            }
            path += parts.back();
        }
        // an element is not put below or over an element of the other kind
        Node* at = &root;
        bool conflict = false;
        for (std::size_t i = 0; i < parts.size() && !conflict; ++i) {
            conflict = at->leaf;
            at = &at->kids[parts[i]];
        }
        conflict = conflict || !at->kids.empty();
        if (conflict) {
            // (undo the nodes the probe made)
            std::function<bool(Node&)> prune = [&](Node& x) {
                for (auto it = x.kids.begin(); it != x.kids.end();) {
                    it = prune(it->second) ? x.kids.erase(it) : std::next(it);
                }
                return x.kids.empty() && !x.leaf;
            };
            prune(root);
            continue;
        }
        s.note("add ", path);
        at->leaf = true;
        any = true;
        if (depth > 1) {
            s.nontrivial();
        }
        switch (s.draw(3)) {
            case 0:
                at->val = mj::Value{};
                at->val.kind = mj::Value::Str;
                at->val.s = utf8Text(s, 6);
                b.addElement(path, at->val.s);
                break;
            case 1:
                at->val = mj::Value{};
                at->val.kind = mj::Value::Real;
                at->val.d = s.dbl();
                if (!std::isfinite(at->val.d)) {
                    at->val.d = 1.5;
                }
                b.addElement(path, at->val.d);
                break;
            default: {
                at->val = mj::Value{};
                at->val.kind = mj::Value::Arr;
                std::vector<double> vec;
                auto m = s.range(0, 4);
                for (int i = 0; i < m; ++i) {
                    vec.push_back(s.range(-1000, 1000) / 8.0);
                    mj::Value e;
                    e.kind = mj::Value::Real;
                    e.d = vec.back();
                    at->val.a.push_back(e);
                }
                b.addElement(path, vec);
            }
        }
        if (s.chance(1, 20)) {
            b.reset();
            root = Node{};
            any = false;
        }
    }
    auto text = b.generate();
    auto v = read(text, "builder-json");
    if (any) {
        compare(v, root, "", text);
    } else {
        REQUIRE("builder-empty", v.kind == mj::Value::Obj && v.o.empty(), text);
    }
}

namespace {
// a JSON text and its meaning, written by the generator itself
std::string jsonText(Src& s, mj::Value& v, int depth, bool comments)
{
    auto sp = [&]() {
        std::string r;
        auto n = s.chance(1, 3) ? s.range(1, 3) : 0;
        for (int i = 0; i < n; ++i) {
            r += s.pick({" ", "\n", "\t", "\r\n"});
            if (comments && s.chance(1, 4)) {
                r += s.boolean() ? "// note \" } ] \n" : "/* { \" \n */";
            }
        }
        return r;
    };
    switch (s.weighted({2, 1, 2, 1, 2, depth > 0 ? 3U : 0U, depth > 0 ? 4U : 0U})) {
        case 0: {
            v.kind = mj::Value::Int;
            v.i = s.chance(1, 8) ? s.int64() : s.range(-1000, 1000);
            return std::to_string(v.i);
        }
        case 1: v.kind = mj::Value::Bool; v.b = s.boolean(); return v.b ? "true" : "false";
        case 2: {
            v.kind = mj::Value::Str;
            v.s = utf8Text(s, 6);
            std::string q = "\"";
            for (char c : v.s) {
                if (c == '"' || c == '\\') {
                    q += '\\';
                    q += c;
                } else if (static_cast<unsigned char>(c) < 0x20) {
                    char buf[8];
                    std::snprintf(buf, sizeof buf, "\\u%04x", c);
                    q += buf;
                } else {
                    q += c;
                }
            }
            return q + "\"";
        }
        case 3: v.kind = mj::Value::Null; return "null";
        case 4: {
            v.kind = mj::Value::Real;
            v.d = s.range(-100000, 100000) / 64.0;
            char buf[40];
            std::snprintf(buf, sizeof buf, s.boolean() ? "%.6f" : "%.12e", v.d);
            v.d = std::strtod(buf, nullptr);
            return buf;
        }
        case 5: {
            v.kind = mj::Value::Arr;
            std::string r = "[" + sp();
            auto n = s.range(0, 4);
            for (int i = 0; i < n; ++i) {
                v.a.emplace_back();
                r += (i > 0 ? sp() + "," + sp() : "") + jsonText(s, v.a.back(), depth - 1, comments);
            }
            return r + sp() + "]";
        }
        default: {
            v.kind = mj::Value::Obj;
            std::string r = "{" + sp();
            auto n = s.range(0, 4);
            for (int i = 0; i < n; ++i) {
                std::string k = "k" + std::to_string(i);
                v.o.push_back(mj::Member{k, mj::Value{}});
                r += std::string(i > 0 ? "," : "") + sp() + "\"" + k + "\"" + sp() + ":" + sp() + jsonText(s, v.o.back().second, depth - 1, comments);
            }
            return r + sp() + "}";
        }
    }
}
}  // namespace

PROP(loadAndDump, 4)
{
    mj::Value v;
    bool comments = s.boolean();
    auto t = jsonText(s, v, 4, comments);
    s.note(t);
    if (v.kind == mj::Value::Arr || v.kind == mj::Value::Obj) {
        s.nontrivial();
    }
    nlohmann::json j;
    try {
        j = fileops::loadJsonStr(t);
    }
    catch (const std::invalid_argument& e) {
        FAIL("load-rejects", t, ": ", e.what());
    }
    auto out = fileops::generateJsonString(j);
    ascii(out, "dump-ascii");
    auto w = read(out, "dump-json");
    REQUIRE("load-dump", w == v, "read ", t, " wrote ", out);
    REQUIRE("load-again", fileops::loadJsonStr(out) == j, out);
    REQUIRE("json-as-string", fileops::JsonAsString(j) == (v.kind == mj::Value::Str ? v.s : out), "");
}

PROP(loadRejects, 2)
{
    // text that is not JSON is reported as invalid_argument, never accepted, never another exception
    mj::Value v;
    auto t = jsonText(s, v, 3, false);
    if (t.empty()) {
        throw pbt::Discard{};
    }
    switch (s.draw(4)) {
        case 0: t.resize(s.draw(t.size())); break;
        case 1: t[s.draw(t.size())] = static_cast<char>(s.draw(256)); break;
        case 2: t.insert(s.draw(t.size() + 1), 1, s.pick({'{', '}', '[', ']', '"', ',', ':', '\\', '\x01', '\x80'})); break;
        default: t = s.bytes(12);
    }
    s.note(pbt::hex(t));
    bool ok = true;
    try {
        auto j = fileops::loadJsonStr(t);
        (void)fileops::generateJsonString(j);
    }
    catch (const std::invalid_argument&) {
        ok = false;
    }
    catch (const std::exception& e) {
        FAIL("load-exception", pbt::hex(t), " ", e.what());
    }
    auto w = mj::parse(t);
    s.tag(ok ? "accepted" : "rejected");
    if (!ok) {
        s.nontrivial();
    }
    // (the reader also takes comments, a byte order mark and repeated keys, and a NUL ends the text)
    if (w && validUtf8(t)) {
        bool big = t.find_first_of("eE") != std::string::npos;
        REQUIRE("load-rejects", ok || big, "JSON was rejected: ", t);
    }
    if (ok && !w) {
        mj::Parser p(t);
        (void)p.parse();
        REQUIRE("load-accepts", t.find('/') != std::string::npos || p.err_ == "repeated key" || t.find('\0') != std::string::npos || t.compare(0, 3, "\xEF\xBB\xBF") == 0,
                "accepted ", pbt::hex(t), " (", p.err_, ")");
    }
}

PROP(looksLike, 2)
{
    // an object with an element is recognised as a configuration, whatever comments stand before and after it
    mj::Value v;
    std::string body = "\"" + std::string(s.pick({"name", "f", "coreType"})) + "\":" + jsonText(s, v, 2, false);
    auto t = "{" + body + "}";
    auto comments = [&]() {
        std::string r;
        auto n = s.range(0, 3);
        for (int i = 0; i < n; ++i) {
            r += s.pick({"// first { line\n", "//\n", "// x: \"y\" }\n", "  \n", "\t// z\r\n"});
        }
        return r;
    };
    if (t.find("\n#") != std::string::npos || t.size() < 7) {
        throw pbt::Discard{};
    }
    auto before = comments();
    // a comment after the object must not hold a closing bracket (the last one ends the object)
    std::string after;
    auto n = s.range(0, 2);
    for (int i = 0; i < n; ++i) {
        after += s.pick({"\n// tail { \n", "  ", "\n//end\n", "// no newline"});
    }
    s.note(before, t, after);
    s.nontrivial();
    REQUIRE("config-object", fileops::looksLikeConfigJson(before + t + after), before + t + after);
    REQUIRE("config-array", !fileops::looksLikeConfigJson("[" + t + "]"), t);
    REQUIRE("config-tail", !fileops::looksLikeConfigJson(t + " x"), t);
    REQUIRE("config-open", !fileops::looksLikeConfigJson(before + body), body);
    auto stem = s.str(6, "ab.{ ");
    auto ext = std::string(s.pick({".json", ".JSON", ".jsn", ".JSN", ".toml", ".txt", "", ".jso", ".Json"}));
    bool isJson = ext == ".json" || ext == ".JSON" || ext == ".jsn" || ext == ".JSN";
    REQUIRE("extension", fileops::hasJsonExtension(stem + ext) == isJson, stem + ext);
}

PROP(timesAndMembers, 3)
{
    // a time is a number in the units asked for, a string with units, or an object with a value and a unit
    struct U {
        const char* n;
        long double ns;
    };
    static const std::vector<U> units{{"ns", 1}, {"us", 1e3L}, {"ms", 1e6L}, {"s", 1e9L}, {"min", 6e10L}, {"hr", 3.6e12L}, {"day", 8.64e13L}};
    auto u = units[s.draw(units.size())];
    bool integer = s.boolean();
    auto val = s.range<long long>(-400, 4000);
    long double real = integer ? val : val / 16.0L;
    // whole nanoseconds only: a time cannot hold less
    if (u.ns < 1e3L && !integer) {
        real = static_cast<long double>(val);
    }
    auto want = static_cast<std::int64_t>(real * u.ns);
    char num[40];
    if (integer) {
        std::snprintf(num, sizeof num, "%lld", val);
    } else {
        std::snprintf(num, sizeof num, "%.4f", static_cast<double>(real));
    }
    s.nontrivial();
    std::vector<std::string> forms{std::string("\"") + num + u.n + "\"",
                                   std::string("\"") + num + " " + u.n + "\"",
                                   std::string("{\"value\":") + num + ",\"unit\":\"" + u.n + "\"}",
                                   std::string("{\"units\":\"") + u.n + "\",\"value\":" + num + "}"};
    for (auto& f : forms) {
        auto t = fileops::loadJsonTime(fileops::loadJsonStr(f));
        REQUIRE("time-value", std::llabs(t.getBaseTimeCode() - want) <= 1, f, " is ", t.getBaseTimeCode(), " ns, not ", want);
    }
    static const std::map<std::string, time_units> tu{{"ns", time_units::ns}, {"us", time_units::us}, {"ms", time_units::ms}, {"s", time_units::sec},
                                                      {"min", time_units::minutes}, {"hr", time_units::hr}, {"day", time_units::day}};
    auto t = fileops::loadJsonTime(fileops::loadJsonStr(num), tu.at(u.n));
    REQUIRE("time-default-unit", std::llabs(t.getBaseTimeCode() - want) <= 1, num, " ", u.n, " is ", t.getBaseTimeCode(), " ns, not ", want);
    // members
    nlohmann::json o = nlohmann::json::object();
    bool has = s.boolean();
    auto text = utf8Text(s, 5);
    if (has) {
        o["t"] = text;
        o["d"] = 2.5;
        o["b"] = true;
        o["i"] = 77;
        o["time"] = fileops::loadJsonStr(num);
    }
    REQUIRE("member-text", fileops::getOrDefault(o, "t", std::string_view("dflt")) == (has ? text : "dflt"), "");
    REQUIRE("member-double", fileops::getOrDefault(o, "d", -1.0) == (has ? 2.5 : -1.0), "");
    REQUIRE("member-bool", fileops::getOrDefault(o, "b", false) == has, "");
    REQUIRE("member-int", fileops::getOrDefault(o, "i", std::int64_t{-4}) == (has ? 77 : -4), "");
    std::string rs = "old";
    bool rb = false;
    int ri = 5;
    double rd = -3;
    helics::Time rt{9.0};
    fileops::replaceIfMember(o, "t", rs);
    fileops::replaceIfMember(o, "b", rb);
    fileops::replaceIfMember(o, "i", ri);
    fileops::replaceIfMember(o, "d", rd);
    fileops::replaceIfMember(o, "time", rt);
    REQUIRE("replace", rs == (has ? text : "old") && rb == has && ri == (has ? 77 : 5) && rd == (has ? 2.5 : -3.0), "");
    REQUIRE("replace-time", rt == (has ? fileops::loadJsonTime(o["time"]) : helics::Time{9.0}), "");
    nlohmann::json nm = nlohmann::json::object();
    auto which = s.draw(4);
    if ((which & 1U) != 0) {
        nm["key"] = "K" + text;
    }
    if ((which & 2U) != 0) {
        nm["name"] = "N" + text;
    }
    REQUIRE("get-name", fileops::getName(nm) == (((which & 1U) != 0) ? "K" + text : ((which & 2U) != 0) ? "N" + text : ""), "");
}

PROP(targets, 3)
{
    // every spelling of a list of targets names the same targets, in JSON and in TOML
    std::vector<std::string> names;
    auto n = s.range(1, 4);
    for (int i = 0; i < n; ++i) {
        names.push_back(std::string(s.pick({"ept", "fed/in", "a b", "x"})) + std::to_string(i));
    }
    bool toml = s.boolean();
    auto list = [&](bool array) {
        std::string r = array ? "[" : "";
        for (std::size_t i = 0; i < names.size(); ++i) {
            r += std::string(i > 0 ? "," : "") + "\"" + names[i] + "\"";
        }
        return r + (array ? "]" : "");
    };
    std::string singular = s.pick({"target", "source", "destination"});
    bool single = names.size() == 1 && s.boolean();
    bool useSingular = single && s.boolean();
    std::string key = singular + (useSingular ? "" : "s");
    std::string text = toml ? "name=\"n\"\n" + key + "=" + list(!single) + "\n" : "{\"name\":\"n\",\"" + key + "\":" + list(!single) + "}";
    s.note(text);
    s.nontrivial();
    std::vector<std::string> got;
    auto cb = [&](const std::string& t) { got.push_back(t); };
    bool found = toml ? addTargets(fileops::loadTomlStr(text), singular + "s", cb) : addTargets(fileops::loadJsonStr(text), singular + "s", cb);
    REQUIRE("targets", found && got == names, text, " found ", got.size());
    got.clear();
    found = toml ? addTargets(fileops::loadTomlStr(text), "others", cb) : addTargets(fileops::loadJsonStr(text), "others", cb);
    REQUIRE("targets-none", !found && got.empty(), text);
    // name1_name2, name1name2 and name1Name2
    std::string form = s.pick({"source_endpoints", "sourceendpoints", "sourceEndpoints"});
    text = toml ? form + "=" + list(true) + "\n" : "{\"" + form + "\":" + list(true) + "}";
    got.clear();
    if (toml) {
        addTargetVariations(fileops::loadTomlStr(text), "source", "endpoints", cb);
    } else {
        addTargetVariations(fileops::loadJsonStr(text), "source", "endpoints", cb);
    }
    REQUIRE("target-variations", got == names, text, " found ", got.size());
    // tags: as an object, or as a list of name/value blocks
    std::map<std::string, std::string> tags;
    auto m = s.range(1, 3);
    for (int i = 0; i < m; ++i) {
        tags["tag" + std::to_string(i)] = std::string(s.pick({"v", "two words", "", "7"})) + std::to_string(i);
    }
    bool asList = s.boolean();
    std::string body;
    for (auto& [k, v] : tags) {
        body += body.empty() ? "" : ",";
        if (asList) {
            body += toml ? "{name=\"" + k + "\",value=\"" + v + "\"}" : "{\"name\":\"" + k + "\",\"value\":\"" + v + "\"}";
        } else {
            body += toml ? k + "=\"" + v + "\"" : "\"" + k + "\":\"" + v + "\"";
        }
    }
    body = asList ? "[" + body + "]" : "{" + body + "}";
    text = toml ? "tags=" + body + "\n" : "{\"tags\":" + body + "}";
    std::map<std::string, std::string> seen;
    auto tcb = [&](std::string_view k, std::string_view v) {
        REQUIRE("tag-once", seen.count(std::string(k)) == 0, text);
        seen[std::string(k)] = v;
    };
    if (toml) {
        loadTags(fileops::loadTomlStr(text), tcb);
    } else {
        loadTags(fileops::loadJsonStr(text), tcb);
    }
    REQUIRE("tags", seen == tags, text, " gives ", seen.size(), " tags");
}

PBT_MAIN("the text needs escaping, or the structure holds several elements", 20)
