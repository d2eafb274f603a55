// C20: queries answer everybody with valid JSON that tells the current facts; global values, tags and commands reach where they are sent.
#include "helics/application_api/CombinationFederate.hpp"
#include "helics/application_api/Endpoints.hpp"
#include "helics/application_api/Federate.hpp"
#include "helics/application_api/Inputs.hpp"
#include "helics/application_api/Publications.hpp"
#include "helics/core/core-exceptions.hpp"
#include "helics/core/helicsVersion.hpp"

#include "minijson.hpp"
#include "pbt.hpp"
#include "world.hpp"

#include <algorithm>
#include <deque>
#include <map>
#include <set>

using namespace helics;
namespace {
struct Fed {
    std::unique_ptr<CombinationFederate> f;
    std::size_t core{0};
    std::string name;
    std::vector<std::string> pubs, ins, ends;
    std::map<std::string, std::string> inTarget;  // input -> publication
    std::map<std::string, std::string> tags;
    int period{1};
    bool gone{false};
    std::deque<std::pair<std::string, std::string>> commands;  // text, source
};
std::vector<std::string> strings(const mj::Value& v)
{
    std::vector<std::string> r;
    for (const auto& e : v.a) {
        r.push_back(e.s);
    }
    std::sort(r.begin(), r.end());
    return r;
}
std::string join(const std::vector<std::string>& v)
{
    std::string r;
    for (const auto& e : v) {
        r += e + " ";
    }
    return r;
}
std::vector<std::string> sorted(std::vector<std::string> v)
{
    std::sort(v.begin(), v.end());
    return v;
}
const char* texts[] = {"a", "abc", "with space", "q\"uote", "back\\slash", "line\nfeed", "{\"x\":1}", "[1,2]", "12", "true", "\xc3\xa9", "", "tab\t"};
}  // namespace

PROP(queries, 10)
{
    int nc = static_cast<int>(s.range(1, 3));
    int nf = static_cast<int>(s.range(nc, 4));
    std::vector<int> per(static_cast<std::size_t>(nc), 1);
    std::vector<Fed> feds(static_cast<std::size_t>(nf));
    for (int i = 0; i < nf; ++i) {
        auto& f = feds[static_cast<std::size_t>(i)];
        f.core = static_cast<std::size_t>(i < nc ? i : static_cast<int>(s.draw(static_cast<std::uint64_t>(nc))));
        if (i >= nc) {
            ++per[f.core];
        }
        f.name = "f" + std::to_string(i);
        f.period = static_cast<int>(s.range(1, 2));
    }
    world::World w(per);
    std::map<std::string, std::string> globals;
    std::vector<std::map<std::string, std::string>> coreTags(static_cast<std::size_t>(nc));
    int phase = 0;  // created, initializing, executing
    int now = 0;
    int asked = 0;
    for (auto& f : feds) {
        auto fi = w.info(f.core);
        fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, static_cast<double>(f.period));
        f.f = std::make_unique<CombinationFederate>(f.name, fi);
    }
    std::vector<std::string> allPubs;
    int counter = 0;
    auto alive = [&] {
        std::vector<Fed*> r;
        for (auto& f : feds) {
            if (!f.gone) {
                r.push_back(&f);
            }
        }
        return r;
    };
    auto pickFed = [&]() -> Fed& {
        auto v = alive();
        return *v[s.draw(v.size())];
    };
    auto addInterface = [&] {
        auto& f = pickFed();
        bool global = s.boolean();
        std::string base = "n" + std::to_string(counter++) + (s.chance(1, 4) ? "/sub" : s.chance(1, 6) ? " x" : "");
        std::string full = global ? base : f.name + "/" + base;
        switch (s.weighted({3, 3, 2})) {
            case 0:
                if (global) {
                    f.f->registerGlobalPublication<double>(base);
                } else {
                    f.f->registerPublication<double>(base);
                }
                f.pubs.push_back(full);
                allPubs.push_back(full);
                break;
            case 1: {
                auto& in = global ? f.f->registerGlobalInput<double>(base) : f.f->registerInput<double>(base);
                f.ins.push_back(full);
                if (!allPubs.empty() && s.chance(2, 3)) {
                    auto t = s.pick(allPubs);
                    in.addTarget(t);
                    f.inTarget[full] = t;
                }
            } break;
            default:
                if (global) {
                    f.f->registerGlobalEndpoint(base);
                } else {
                    f.f->registerEndpoint(base);
                }
                f.ends.push_back(full);
                break;
        }
    };
    // everything sent so far has been seen everywhere
    auto flush = [&] {
        for (auto* f : alive()) {
            auto r = f->f->query("root", "global_flush", HELICS_SEQUENCING_MODE_ORDERED);
            REQUIRE("flush", r.find("error") == std::string::npos, "global_flush: ", r);
        }
    };
    // asks from a random place; any place should get the same answer
    auto ask = [&](const std::string& target, const std::string& q, std::size_t targetCore) {
        auto m = s.chance(1, 4) ? HELICS_SEQUENCING_MODE_ORDERED : HELICS_SEQUENCING_MODE_FAST;
        std::string ans, from;
        ++asked;
        switch (s.weighted({6, 2, 2})) {
            case 0: {
                auto& f = pickFed();
                from = f.name;
                std::string t = target;
                if (target == f.name && s.boolean()) {
                    t = "";
                } else if (target == w.coreName(targetCore) && f.core == targetCore && s.boolean()) {
                    t = "core";
                } else if (target == w.name + "_b") {
                    const char* alias[] = {"root", "broker", "federation", "rootbroker"};
                            t = s.boolean() ? alias[s.draw(4)] : t;
                }
                from += " as " + t;
                if (t.empty()) {
                    ans = f.f->query(q, m);
                } else if (s.chance(1, 5)) {
                    auto id = f.f->queryAsync(t, q, m);
                    ans = f.f->queryComplete(id);
                } else {
                    ans = f.f->query(t, q, m);
                }
            } break;
            case 1: {
                auto c = s.draw(w.cores.size());
                from = "core " + std::to_string(c);
                ans = w.cores[c]->query(target, q, m);
            } break;
            default:
                from = "broker";
                ans = w.broker->query(target, q, m);
                break;
        }
        s.note("query ", q, " of ", target, " from ", from, ": ", ans);
        return ans;
    };
    auto parse = [&](const std::string& target, const std::string& q, const std::string& ans) {
        auto v = mj::parse(ans);
        REQUIRE("json", v.has_value(), "the answer of ", target, " to ", q, " is no JSON: ", ans);
        REQUIRE("refused", v->kind != mj::Value::Obj || v->get("error") == nullptr, target, " refused the query ", q, ": ", ans);
        return *v;
    };
    auto list = [&](const std::string& target, const std::string& q, std::size_t core, const std::vector<std::string>& want) {
        auto ans = ask(target, q, core);
        auto v = parse(target, q, ans);
        REQUIRE("list-kind", v.kind == mj::Value::Arr, target, " ", q, ": ", ans);
        REQUIRE("list", strings(v) == sorted(want), q, " of ", target, ": ", ans, ", expected ", join(sorted(want)));
    };
    auto text = [&](const std::string& target, const std::string& q, std::size_t core, const std::string& want) {
        auto ans = ask(target, q, core);
        auto v = parse(target, q, ans);
        REQUIRE("text", v.kind == mj::Value::Str && v.s == want, q, " of ", target, ": ", ans, ", expected ", want);
    };
    auto is = [&](const std::string& target, const std::string& q, std::size_t core, bool want) {
        auto ans = ask(target, q, core);
        REQUIRE("flag", ans == (want ? "true" : "false"), q, " of ", target, ": ", ans, " in phase ", phase);
    };
    auto lists = [&](const Fed& f, int k) -> const std::vector<std::string>& { return k == 0 ? f.pubs : k == 1 ? f.ins : f.ends; };
    static const char* kinds[] = {"publications", "inputs", "endpoints"};
    const std::string brokerName = w.name + "_b";

    auto interfaces = [&](const mj::Value& v, const std::string& group) {
        std::vector<std::string> r;
        const auto* g = v.get(group);
        if (g != nullptr) {
            for (const auto& e : g->a) {
                const auto* k = e.get("key");
                if (k == nullptr) {
                    k = e.get("name");
                }
                if (k != nullptr) {
                    r.push_back(k->s);
                }
            }
        }
        return sorted(r);
    };
    auto one = [&] {
        auto& f = pickFed();
        auto c = pickFed().core;
        switch (s.draw(19)) {
            case 0: {
                auto k = static_cast<int>(s.draw(3));
                list(f.name, kinds[k], f.core, lists(f, k));
            } break;
            case 1: {
                auto k = static_cast<int>(s.draw(3));
                std::vector<std::string> want;
                for (auto* x : alive()) {
                    if (x->core == c) {
                        for (const auto& e : lists(*x, k)) {
                            want.push_back(e);
                        }
                    }
                }
                bool left = std::any_of(feds.begin(), feds.end(), [&](const Fed& x) { return x.gone; });
                if (!left) {
                    list(w.coreName(c), kinds[k], c, want);
                }
            } break;
            case 2: {
                auto k = static_cast<int>(s.draw(3));
                std::vector<std::string> want;
                for (auto& x : feds) {
                    for (const auto& e : lists(x, k)) {
                        want.push_back(e);
                    }
                }
                bool left = std::any_of(feds.begin(), feds.end(), [&](const Fed& x) { return x.gone; });
                if (!left) {
                    list(brokerName, kinds[k], c, want);
                }
            } break;
            case 3: {
                std::vector<std::string> want;
                for (auto& x : feds) {
                    want.push_back(x.name);
                }
                list(brokerName, "federates", c, want);
                want.clear();
                for (auto& x : feds) {
                    if (x.core == c) {
                        want.push_back(x.name);
                    }
                }
                list(w.coreName(c), "federates", c, want);
            } break;
            case 4: {
                std::vector<std::string> want;
                for (std::size_t i = 0; i < w.cores.size(); ++i) {
                    want.push_back(w.coreName(i));
                }
                list(brokerName, s.boolean() ? "brokers" : "cores", c, want);
                list(brokerName, "subbrokers", c, {});
            } break;
            case 5:
                text(brokerName, "name", c, brokerName);
                text(w.coreName(c), "name", c, w.coreName(c));
                text(f.name, "version", f.core, versionString);
                break;
            case 6:
                is(f.name, "exists", f.core, true);
                is(w.coreName(c), "exists", c, true);
                is("nobody" + std::to_string(s.draw(9)), "exists", 99, false);
                is(brokerName, "isinit", c, phase > 0);
                is(w.coreName(c), "isconnected", c, true);
                is(f.name, "isinit", f.core, phase > 0);
                break;
            case 7: {
                static const char* st[] = {"created", "initializing", "executing"};
                // (another core answers with what the broker knows of its connection)
                auto ans = f.f->query(f.name, "state");
                REQUIRE("state", ans == std::string("\"") + st[phase] + "\"", "state of ", f.name, ": ", ans, " in phase ", phase);
            } break;
            case 8: {
                auto ans = ask(f.name, "current_state", f.core);
                auto v = parse(f.name, "current_state", ans);
                const auto* p = v.get("publications");
                const auto* e = v.get("endpoints");
                const auto* i = v.get("input");
                REQUIRE("counts", p != nullptr && e != nullptr && i != nullptr && p->i == static_cast<long long>(f.pubs.size()) && e->i == static_cast<long long>(f.ends.size()) && i->i == static_cast<long long>(f.ins.size()), "federate ", f.name, ": ", ans, ", it has ", f.pubs.size(), " ", f.ins.size(), " ", f.ends.size());
            } break;
            case 9: {
                auto v = parse(brokerName, "counts", ask(brokerName, "counts", c));
                const auto* b = v.get("brokers");
                const auto* n = v.get("federates");
                REQUIRE("broker-counts", b != nullptr && n != nullptr && b->i == static_cast<long long>(w.cores.size()) && n->i == nf, "brokers ", b ? b->i : -1, " federates ", n ? n->i : -1);
            } break;
            case 10: {
                if (phase == 2) {
                    auto ans = ask(brokerName, "global_time", c);
                    auto v = parse(brokerName, "global_time", ans);
                    const auto* cs = v.get("cores");
                    REQUIRE("time-map", cs != nullptr && cs->a.size() <= w.cores.size(), ans);
                    for (const auto& core : cs->a) {
                        const auto* fs = core.get("federates");
                        if (fs == nullptr) {
                            continue;
                        }
                        for (const auto& e : fs->a) {
                            const auto* at = e.get("attributes");
                            const auto* gt = e.get("granted_time");
                            REQUIRE("time-fed", at != nullptr && gt != nullptr && at->get("name") != nullptr, ans);
                            for (auto* x : alive()) {
                                if (x->name == at->get("name")->s) {
                                    REQUIRE("time-value", gt->num() == static_cast<double>(x->f->getCurrentTime()), x->name, " is at ", static_cast<double>(x->f->getCurrentTime()), ": ", ans);
                                }
                            }
                        }
                    }
                }
            } break;
            case 11: {
                auto ans = ask(brokerName, "federate_map", c);
                auto v = parse(brokerName, "federate_map", ans);
                std::map<std::string, std::vector<std::string>> got, want;
                if (const auto* cs = v.get("cores")) {
                    for (const auto& core : cs->a) {
                        const auto* at = core.get("attributes");
                        REQUIRE("map-core", at != nullptr && at->get("name") != nullptr, ans);
                        auto& g = got[at->get("name")->s];
                        if (const auto* fs = core.get("federates")) {
                            for (const auto& e : fs->a) {
                                const auto* ea = e.get("attributes");
                                REQUIRE("map-fed", ea != nullptr && ea->get("name") != nullptr, ans);
                                g.push_back(ea->get("name")->s);
                            }
                        }
                        g = sorted(g);
                    }
                }
                for (std::size_t i = 0; i < w.cores.size(); ++i) {
                    auto& g = want[w.coreName(i)];
                    for (auto& x : feds) {
                        if (x.core == i) {
                            g.push_back(x.name);
                        }
                    }
                    g = sorted(g);
                }
                bool left = std::any_of(feds.begin(), feds.end(), [&](const Fed& x) { return x.gone; });
                if (!left) {
                    REQUIRE("map", got == want, ans);
                }
            } break;
            case 12: {
                // the values of tags, from the federate or asked for
                static const char* names[] = {"tag1", "other tag", "t3"};
                std::string n = names[s.draw(3)];
                if (s.boolean()) {
                    std::string val = texts[s.draw(13)];
                    f.f->setTag(n, val);
                    f.tags[n] = val;
                    flush();
                }
                auto it = f.tags.find(n);
                text(f.name, "tag/" + n, f.core, it == f.tags.end() ? "" : it->second);
                auto v = parse(f.name, "tags", ask(f.name, "tags", f.core));
                REQUIRE("tags", v.kind == mj::Value::Obj && v.o.size() == f.tags.size(), "federate ", f.name, " has ", f.tags.size(), " tags, the answer ", v.o.size());
                for (const auto& e : v.o) {
                    auto t = f.tags.find(e.first);
                    REQUIRE("tag-value", t != f.tags.end() && e.second.s == t->second, "tag ", e.first, ": ", e.second.s);
                }
            } break;
            case 13: {
                static const char* names[] = {"g1", "global two", "g/3"};
                std::string n = names[s.draw(3)];
                if (globals.count(n) == 0 || s.boolean()) {
                    std::string val = texts[s.draw(13)];
                    switch (s.draw(3)) {
                        case 0: f.f->setGlobal(n, val); break;
                        case 1: w.cores[c]->setGlobal(n, val); break;
                        default: w.broker->setGlobal(n, val); break;
                    }
                    globals[n] = val;
                    flush();
                }
                auto ans = ask("global_value", n, 99);
                auto v = mj::parse(ans);
                bool same = ans == globals[n] || (v && v->kind == mj::Value::Str && v->s == globals[n]);
                REQUIRE("global", same, "global ", n, " is ", ans, ", set to ", globals[n]);
            } break;
            case 14: {
                // commands arrive once, in the order of each sender
                auto& to = pickFed();
                std::string cmd = "cmd" + std::to_string(counter++);
                f.f->sendCommand(to.name, cmd, HELICS_SEQUENCING_MODE_ORDERED);
                to.commands.emplace_back(cmd, f.name);
                flush();
                if (s.boolean()) {
                    for (int k = 0; k < 20 && !to.commands.empty(); ++k) {
                        auto r = to.f->getCommand();
                        if (r.first.empty()) {
                            std::this_thread::sleep_for(std::chrono::milliseconds(1));
                            continue;
                        }
                        REQUIRE("command", r == to.commands.front(), to.name, " got ", r.first, " from ", r.second, ", expected ", to.commands.front().first, " from ", to.commands.front().second);
                        to.commands.pop_front();
                    }
                    REQUIRE("command-lost", to.commands.empty(), to.name, " did not get ", to.commands.front().first);
                }
            } break;
            case 15: {
                if (phase > 0) {
                    auto ans = ask(f.name, "data_flow_graph", f.core);
                    auto v = parse(f.name, "data_flow_graph", ans);
                    auto sub = [](const std::vector<std::string>& a, const std::vector<std::string>& b) { return std::includes(b.begin(), b.end(), a.begin(), a.end()); };
                    REQUIRE("graph", sub(interfaces(v, "publications"), sorted(f.pubs)) && sub(interfaces(v, "inputs"), sorted(f.ins)) && sub(interfaces(v, "endpoints"), sorted(f.ends)), f.name, ": ", ans);
                    for (const auto& l : f.inTarget) {
                        bool found = false;
                        if (const auto* is = v.get("inputs")) {
                            for (const auto& e : is->a) {
                                const auto* k = e.get("key");
                                const auto* ss = e.get("sources");
                                if (k != nullptr && k->s == l.first && ss != nullptr) {
                                    found = ss->a.size() == 1;
                                }
                            }
                        }
                        REQUIRE("link", found, "the link of ", l.first, " to ", l.second, " is not in ", ans);
                    }
                }
            } break;
            case 16: {
                // every query that an object offers is answered by valid JSON
                std::string target = s.boolean() ? f.name : s.boolean() ? w.coreName(c) : brokerName;
                auto core = target == f.name ? f.core : c;
                auto v = parse(target, "queries", ask(target, "queries", core));
                REQUIRE("queries", v.kind == mj::Value::Arr && !v.a.empty(), "no queries of ", target);
                const auto& q = v.a[s.draw(v.a.size())].s;
                if (q == "summary" || q == "interface_details") {
                    break;
                }
                parse(target, q, ask(target, q, core));
            } break;
            case 17: {
                static const char* names[] = {"ctag", "c2"};
                std::string n = names[s.draw(2)];
                auto& tags = coreTags[c];
                if (s.boolean()) {
                    std::string val = texts[s.draw(13)];
                    w.cores[c]->setFederateTag(gLocalCoreId, n, val);
                    tags[n] = val;
                    flush();
                }
                auto it = tags.find(n);
                text(w.coreName(c), "tag/" + n, c, it == tags.end() ? "" : it->second);
            } break;
            default: {
                // a query nobody knows is refused, with JSON that says so
                auto ans = ask(s.boolean() ? f.name : brokerName, "no_such_query", c);
                auto v = mj::parse(ans);
                REQUIRE("unknown", v && v->get("error") != nullptr, "an unknown query was answered by ", ans);
            } break;
        }
    };
    auto some = [&] {
        flush();
        int n = static_cast<int>(s.range(0, 6));
        for (int i = 0; i < n; ++i) {
            one();
        }
    };
    auto all = [&](auto&& start, auto&& complete) {
        for (auto* f : alive()) {
            start(*f->f);
        }
        for (auto* f : alive()) {
            complete(*f->f);
        }
    };
    int ni = static_cast<int>(s.range(0, 8));
    for (int i = 0; i < ni; ++i) {
        addInterface();
        if (s.chance(1, 5)) {
            some();
        }
    }
    some();
    all([](auto& f) { f.enterInitializingModeAsync(); }, [](auto& f) { f.enterInitializingModeComplete(); });
    phase = 1;
    some();
    all([](auto& f) { f.enterExecutingModeAsync(); }, [](auto& f) { f.enterExecutingModeComplete(); });
    phase = 2;
    some();
    int steps = static_cast<int>(s.range(0, 2));
    for (int i = 0; i < steps; ++i) {
        now += 2;
        all([&](auto& f) { f.requestTimeAsync(now); }, [](auto& f) { f.requestTimeComplete(); });
        some();
    }
    if (nf > 1 && s.chance(1, 3)) {
        // (a core without federates disconnects, and is then not there to be asked)
        auto& f = pickFed();
        if (std::count_if(feds.begin(), feds.end(), [&](const Fed& x) { return x.core == f.core; }) > 1) {
            f.f->finalize();
            f.gone = true;
            some();
        }
    }
    if (asked > 1) {
        s.nontrivial();
    }
    for (auto* f : alive()) {
        f->f->finalize();
    }
    for (auto& f : feds) {
        f.f.reset();
    }
}

PBT_MAIN("at least two queries were asked", 20)
