// C14: interface names, aliases, handles, options and tags as a core or broker keeps them (HandleManager).
#include "helics/core/HandleManager.hpp"
#include "helics/core/flagOperations.hpp"
#include "helics/helics_enums.h"

#include "pbt.hpp"

#include <memory>
#include <stdexcept>

using namespace helics;
namespace {
const InterfaceType kinds[] = {InterfaceType::PUBLICATION, InterfaceType::INPUT, InterfaceType::ENDPOINT, InterfaceType::FILTER,
                               InterfaceType::TRANSLATOR, InterfaceType::SINK};
const char* kindName(InterfaceType t)
{
    switch (t) {
        case InterfaceType::PUBLICATION:
            return "pub";
        case InterfaceType::INPUT:
            return "input";
        case InterfaceType::ENDPOINT:
            return "endpoint";
        case InterfaceType::FILTER:
            return "filter";
        case InterfaceType::TRANSLATOR:
            return "translator";
        case InterfaceType::SINK:
            return "sink";
        default:
            return "?";
    }
}
// the name spaces an interface of some kind is visible in
std::vector<InterfaceType> spaces(InterfaceType k)
{
    switch (k) {
        case InterfaceType::TRANSLATOR:
            return {InterfaceType::PUBLICATION, InterfaceType::INPUT, InterfaceType::ENDPOINT};
        case InterfaceType::SINK:
            return {InterfaceType::INPUT, InterfaceType::ENDPOINT};
        default:
            return {k};
    }
}
bool visible(InterfaceType k, InterfaceType space)
{
    for (auto x : spaces(k)) {
        if (x == space) {
            return true;
        }
    }
    return false;
}
struct H {
    bool live{false};
    int fed{0}, local{0};
    InterfaceType kind{InterfaceType::UNKNOWN};
    std::string key, type, units;
    std::map<int, int> opts;
    std::vector<std::pair<std::string, std::string>> tags;
};
struct Model {
    std::vector<H> h;
    std::vector<std::set<std::string>> classes;  // alias classes of more than one name

    std::set<std::string> same(const std::string& n) const
    {
        for (auto& c : classes) {
            if (c.count(n) != 0) {
                return c;
            }
        }
        return {n};
    }
    /// index of the interface a name stands for, or -1
    int find(const std::string& n, InterfaceType space) const
    {
        auto c = same(n);
        for (std::size_t i = 0; i < h.size(); ++i) {
            if (h[i].live && visible(h[i].kind, space) && c.count(h[i].key) != 0) {
                return static_cast<int>(i);
            }
        }
        return -1;
    }
};
bool like(std::string_view pat, std::string_view n)  // '.*' anywhere, '.' one character
{
    if (pat.empty()) {
        return n.empty();
    }
    if (pat.size() >= 2 && pat[1] == '*') {
        for (std::size_t i = 0; i <= n.size(); ++i) {
            if (like(pat.substr(2), n.substr(i))) {
                return true;
            }
            if (i < n.size() && pat[0] != '.' && pat[0] != n[i]) {
                break;
            }
        }
        return false;
    }
    return !n.empty() && (pat[0] == '.' || pat[0] == n[0]) && like(pat.substr(1), n.substr(1));
}
}  // namespace

PROP(manager, 1)
{
    const std::vector<std::string> names{"a", "b", "c", "d", "e", "fed/a_rather_long_name_for_an_interface", "z", "B"};
    HandleManager m;
    Model o;
    // sources of copied handles stay alive, as those of a core do
    std::vector<std::unique_ptr<BasicHandleInfo>> sources;
    int ops[6] = {};
    auto check = [&](const std::string& op) {
        REQUIRE("size", m.size() == o.h.size(), op, " ", m.size(), " ", o.h.size());
        const auto& cm = m;
        for (std::size_t i = 0; i < o.h.size(); ++i) {
            auto& x = o.h[i];
            const auto* p = cm.getHandleInfo(static_cast<int32_t>(i));
            REQUIRE("by-index", p != nullptr && p == m.getHandleInfo(static_cast<int32_t>(i)) && p == m.getHandleInfo(InterfaceHandle(static_cast<int>(i))) &&
                                    p == cm.getHandleInfo(InterfaceHandle(static_cast<int>(i))) && p == &m[i] && p == &cm[i],
                    op, " ", i);
            if (x.live) {
                REQUIRE("content", p->key == x.key && p->type == x.type && p->units == x.units && p->handleType == x.kind && p->type_in == x.type && p->type_out == x.units,
                        op, " ", i, " ", p->key, " ", p->type, " ", p->units);
                REQUIRE("ids", p->getFederateId() == GlobalFederateId(x.fed) && p->getInterfaceHandle() == InterfaceHandle(x.local), op, " ", i);
                GlobalHandle g{GlobalFederateId(x.fed), InterfaceHandle(x.local)};
                REQUIRE("find-global", m.findHandle(g) == p && cm.findHandle(g) == p, op, " ", i);
                REQUIRE("tag-count", p->tagCount() == x.tags.size(), op, " ", i, " ", p->tagCount());
                for (std::size_t k = 0; k < x.tags.size(); ++k) {
                    REQUIRE("tag", p->getTagByIndex(k) == x.tags[k] && p->getTag(x.tags[k].first) == x.tags[k].second, op, " ", i, " ", x.tags[k].first);
                }
                REQUIRE("no-tag", p->getTag("notag").empty(), op);
                for (auto k : {HELICS_HANDLE_OPTION_CONNECTION_REQUIRED, HELICS_HANDLE_OPTION_CONNECTION_OPTIONAL, HELICS_HANDLE_OPTION_RECEIVE_ONLY,
                               HELICS_HANDLE_OPTION_RECONNECTABLE, HELICS_HANDLE_OPTION_SINGLE_CONNECTION_ONLY, HELICS_HANDLE_OPTION_ONLY_UPDATE_ON_CHANGE,
                               HELICS_HANDLE_OPTION_ONLY_TRANSMIT_ON_CHANGE}) {
                    auto f = x.opts.find(k);
                    int want = f == x.opts.end() ? 0 : f->second;
                    REQUIRE("option", m.getHandleOption(InterfaceHandle(static_cast<int>(i)), k) == want, op, " ", i, " option ", static_cast<int>(k), " expected ", want);
                }
            } else {
                REQUIRE("blank", p->key.empty() && p->handleType == InterfaceType::UNKNOWN, op, " removed ", i, " still ", p->key);
            }
            for (auto t : kinds) {
                bool ok = x.live && (x.kind == t || (t != InterfaceType::TRANSLATOR && t != InterfaceType::SINK && visible(x.kind, t)));
                InterfaceHandle ih(static_cast<int>(i));
                const auto* q = cm.getInterfaceHandle(ih, t);
                REQUIRE("by-handle", q == (ok ? p : nullptr) && q == m.getInterfaceHandle(ih, t), op, " ", i, " as ", kindName(t));
            }
        }
        for (int bad : {-1, static_cast<int>(o.h.size()), 100000}) {
            REQUIRE("bad-index", m.getHandleInfo(bad) == nullptr && m.getHandleInfo(InterfaceHandle(bad)) == nullptr && cm.getHandleInfo(bad) == nullptr &&
                                     m.getInterfaceHandle(InterfaceHandle(bad), InterfaceType::INPUT) == nullptr && !m.getLocalFedID(InterfaceHandle(bad)).isValid(),
                    op, " ", bad);
        }
        for (auto& n : names) {
            for (auto t : kinds) {
                auto space = (t == InterfaceType::TRANSLATOR || t == InterfaceType::SINK) ? InterfaceType::ENDPOINT : t;
                int w = o.find(n, space);
                if (w >= 0 && space != t && o.h[w].kind != t) {
                    w = -1;
                }
                const auto* p = cm.getInterfaceHandle(n, t);
                REQUIRE("by-name", p == (w < 0 ? nullptr : &cm[w]) && p == m.getInterfaceHandle(n, t), op, " '", n, "' as ", kindName(t), " gives ",
                        p == nullptr ? "nothing" : "'" + p->key + "'", ", expected ", w < 0 ? "nothing" : "'" + o.h[w].key + "'");
            }
        }
        std::size_t cnt = 0;
        for (auto& c : o.classes) {
            for (auto& n : c) {
                auto f = m.getAliases().find(n);
                REQUIRE("alias-list", f != m.getAliases().end(), op, " '", n, "'");
                std::set<std::string> got(f->second.begin(), f->second.end());
                auto want = c;
                want.erase(n);
                REQUIRE("alias-list", got == want && got.size() == f->second.size(), op, " '", n, "' ", got.size(), " ", want.size());
                ++cnt;
            }
        }
        REQUIRE("alias-count", m.getAliases().size() == cnt, op, " ", m.getAliases().size(), " ", cnt);
    };
    auto conflict = [&](InterfaceType k, const std::string& key) {
        for (auto sp : spaces(k)) {
            if (o.find(key, sp) >= 0) {
                return true;
            }
        }
        return false;
    };
    auto steps = 1 + s.size(20);
    int nextLocal = 50;
    for (std::size_t st = 0; st < steps; ++st) {
        std::string op;
        bool threw = false;
        bool expect = false;
        auto c = s.weighted({6, 6, 2, 1, 3, 2, 2, 1});
        switch (c) {
            case 0: {  // add
                H x;
                x.live = true;
                x.fed = 131072 + static_cast<int>(s.draw(3));
                x.kind = kinds[s.draw(6)];
                x.key = s.pick(names);
                x.type = s.pick({"", "double", "a type with a long name, beyond what a short string holds"});
                x.units = s.pick({"", "kW", "an unusually long unit, also beyond the short string size"});
                expect = conflict(x.kind, x.key);
                auto mode = s.draw(4);
                std::size_t at = o.h.size();
                op = pbt::cat("add ", kindName(x.kind), " '", x.key, "' mode ", mode);
                s.note(op);
                try {
                    if (mode == 0) {
                        x.local = static_cast<int>(at);
                        auto& r = m.addHandle(GlobalFederateId(x.fed), x.kind, x.key, x.type, x.units);
                        REQUIRE("returned", &r == &m[at], op);
                    } else if (mode == 1) {
                        x.local = nextLocal++;
                        auto& r = m.addHandle(GlobalFederateId(x.fed), InterfaceHandle(x.local), x.kind, x.key, x.type, x.units);
                        REQUIRE("returned", &r == &m[at], op);
                    } else {
                        x.local = nextLocal++;
                        sources.push_back(std::make_unique<BasicHandleInfo>(GlobalFederateId(x.fed), InterfaceHandle(x.local), x.kind, x.key, x.type, x.units));
                        if (mode == 2) {
                            m.addHandle(*sources.back());
                        } else {
                            std::vector<std::size_t> freeAt;
                            for (std::size_t i = 0; i < o.h.size(); ++i) {
                                if (!o.h[i].live) {
                                    freeAt.push_back(i);
                                }
                            }
                            freeAt.push_back(o.h.size());
                            freeAt.push_back(o.h.size() + 1 + s.draw(3));
                            at = s.pick(freeAt);
                            s.note("at ", at);
                            m.addHandleAtIndex(*sources.back(), static_cast<int32_t>(at));
                        }
                    }
                }
                catch (const std::runtime_error&) {
                    threw = true;
                }
                if (!threw) {
                    if (at >= o.h.size()) {
                        o.h.resize(at + 1);
                    }
                    o.h[at] = x;
                }
                ++ops[0];
                break;
            }
            case 1: {  // alias
                auto a = s.pick(names);
                auto b = s.pick(names);
                op = pbt::cat("alias '", a, "' '", b, "'");
                s.note(op);
                auto u = o.same(a);
                for (auto& n : o.same(b)) {
                    u.insert(n);
                }
                for (auto sp : {InterfaceType::PUBLICATION, InterfaceType::INPUT, InterfaceType::ENDPOINT, InterfaceType::FILTER}) {
                    int n = 0;
                    for (auto& x : o.h) {
                        if (x.live && visible(x.kind, sp) && u.count(x.key) != 0) {
                            ++n;
                        }
                    }
                    expect = expect || n > 1;
                }
                try {
                    m.addAlias(std::string(a), std::string(b));
                }
                catch (const std::runtime_error&) {
                    threw = true;
                }
                if (u.size() > 1) {
                    o.classes.erase(std::remove_if(o.classes.begin(), o.classes.end(), [&](auto& x) { return x.count(a) + x.count(b) != 0; }), o.classes.end());
                    o.classes.push_back(u);
                    ++ops[1];
                    if (u.size() > 3) {
                        s.tag("alias-chain");
                    }
                }
                break;
            }
            case 2: {  // remove
                if (o.h.empty()) {
                    continue;
                }
                auto i = s.draw(o.h.size() + 1);
                if (i == o.h.size()) {
                    op = "remove unknown";
                    m.removeHandle(GlobalHandle{GlobalFederateId(7), InterfaceHandle(3)});
                } else if (o.h[i].live) {
                    op = pbt::cat("remove ", i);
                    s.note(op);
                    m.removeHandle(GlobalHandle{GlobalFederateId(o.h[i].fed), InterfaceHandle(o.h[i].local)});
                    GlobalHandle g{GlobalFederateId(o.h[i].fed), InterfaceHandle(o.h[i].local)};
                    REQUIRE("removed", m.findHandle(g) == nullptr, op);
                    o.h[i] = H{};
                    ++ops[2];
                }
                break;
            }
            case 3: {
                int fed = 131072 + static_cast<int>(s.draw(3));
                op = pbt::cat("remove federate ", fed);
                s.note(op);
                m.removeFederateHandles(GlobalFederateId(fed));
                for (auto& x : o.h) {
                    if (x.live && x.fed == fed) {
                        x = H{};
                        ++ops[2];
                    }
                }
                break;
            }
            case 4: {
                if (o.h.empty()) {
                    continue;
                }
                auto i = s.draw(o.h.size());
                auto k = s.pick({HELICS_HANDLE_OPTION_CONNECTION_REQUIRED, HELICS_HANDLE_OPTION_CONNECTION_OPTIONAL, HELICS_HANDLE_OPTION_RECEIVE_ONLY,
                                 HELICS_HANDLE_OPTION_RECONNECTABLE});
                int v = s.pick({0, 1, 1, 5, -1});
                op = pbt::cat("option ", i, " ", static_cast<int>(k), "=", v);
                if (!o.h[i].live) {
                    continue;
                }
                s.note(op);
                m.setHandleOption(InterfaceHandle(static_cast<int>(i)), k, v);
                auto& x = o.h[i].opts;
                if (k == HELICS_HANDLE_OPTION_RECEIVE_ONLY && o.h[i].kind != InterfaceType::ENDPOINT) {
                    break;
                }
                x[k] = v != 0 ? 1 : 0;
                if (v != 0 && k == HELICS_HANDLE_OPTION_CONNECTION_REQUIRED) {
                    x[HELICS_HANDLE_OPTION_CONNECTION_OPTIONAL] = 0;
                } else if (v != 0 && k == HELICS_HANDLE_OPTION_CONNECTION_OPTIONAL) {
                    x[HELICS_HANDLE_OPTION_CONNECTION_REQUIRED] = 0;
                }
                ++ops[4];
                break;
            }
            case 5: {
                if (o.h.empty()) {
                    continue;
                }
                auto i = s.draw(o.h.size());
                if (!o.h[i].live) {
                    continue;
                }
                std::string t = s.pick({"t1", "t2", "", "T1", "a tag with a long name beyond the short size"});
                auto v = s.bytes(20);
                op = pbt::cat("tag ", i, " ", t);
                s.note(op);
                m.getHandleInfo(static_cast<int32_t>(i))->setTag(t, v);
                bool done = false;
                for (auto& p : o.h[i].tags) {
                    if (p.first == t) {
                        p.second = v;
                        done = true;
                    }
                }
                if (!done) {
                    o.h[i].tags.emplace_back(t, v);
                }
                break;
            }
            case 6: {
                auto sp = kinds[s.draw(4)];
                std::string pat = s.pick({"*", ".*", "a", ".", "fed/.*", ".*_name.*", "[", "B", "nothing", "a.*e", "", "(a"});
                bool prefix = s.chance(7, 8);
                op = "regex " + pat;
                s.note(op);
                std::set<std::pair<int, int>> want;
                bool bad = prefix && (pat == "[" || pat == "(a");
                bool badGot = false;
                if (prefix && !bad) {
                    for (auto& x : o.h) {
                        if (x.live && visible(x.kind, sp)) {
                            for (auto& n : o.same(x.key)) {
                                if (like(pat == "*" ? ".*" : pat, n)) {
                                    want.emplace(x.fed, x.local);
                                }
                            }
                        }
                    }
                }
                std::set<std::pair<int, int>> got;
                try {
                    for (auto& g : m.regexSearch((prefix ? "REGEX:" : "") + pat, sp)) {
                        got.emplace(g.fed_id.baseValue(), g.handle.baseValue());
                    }
                }
                catch (const std::invalid_argument&) {
                    badGot = true;
                }
                REQUIRE("regex-invalid", bad == badGot, op);
                REQUIRE("regex", got == want, op, " as ", kindName(sp), " gives ", got.size(), " expected ", want.size());
                break;
            }
            default: {  // generated names
                auto t = kinds[s.draw(6)];
                auto at = o.h.size();
                auto& r = m.addHandle(GlobalFederateId(131072), t, "", "", "");
                op = "add unnamed " + r.key;
                s.note(op);
                REQUIRE("generated-name", !r.key.empty() && m.getInterfaceHandle(r.key, t) == &r, op);
                for (auto& x : o.h) {
                    REQUIRE("generated-distinct", !x.live || x.kind != t || x.key != r.key, op);
                }
                H x;
                x.live = true;
                x.fed = 131072;
                x.local = static_cast<int>(at);
                x.kind = t;
                x.key = r.key;
                o.h.push_back(x);
                break;
            }
        }
        REQUIRE("conflict-reported", threw == expect, op, " threw ", threw, " expected ", expect);
        if (threw) {
            s.tag("conflict");
            break;  // what is left after a conflict is an error state
        }
        check(op);
    }
    if (ops[0] > 0 && ops[1] > 0) {
        s.nontrivial();
    }
    if (ops[2] > 0) {
        s.tag("removal");
    }
}
PBT_MAIN("Histories of up to 20 additions, aliases, removals, options, tags and searches over eight names and six kinds; after every step every "
         "lookup by name, index, handle and pattern is compared with a model in which aliases are equivalence classes. Non-trivial: at "
         "least one interface added and one alias of two names.",
         20.0)
