// C07: what filters do to messages: the operations, and whole federations with chains of filters on several cores.
#include "helics/application_api/Endpoints.hpp"
#include "helics/application_api/FilterOperations.hpp"
#include "helics/application_api/Filters.hpp"
#include "helics/application_api/MessageFederate.hpp"
#include "helics/application_api/MessageOperators.hpp"
#include "helics/core/FilterCoordinator.hpp"
#include "helics/core/FilterInfo.hpp"
#include "helics/core/core-exceptions.hpp"
#include "helics/core/flagOperations.hpp"

#include "minijson.hpp"
#include "pbt.hpp"
#include "world.hpp"

#include <algorithm>
#include <cmath>
#include <memory>
#include <mutex>
#include <set>
#include <thread>

#include <csignal>
#include <sys/wait.h>
#include <unistd.h>

using namespace helics;
namespace {
std::unique_ptr<Message> message(pbt::Src& s)
{
    auto m = std::make_unique<Message>();
    m->time = Time(static_cast<double>(s.range(0, 100)) * 0.25);
    m->source = s.pick({"alpha", "b/eta", "", "$", "x${dest}y"});
    m->dest = s.pick({"gamma", "d.elta", "", "gam", "x${source}"});
    m->original_source = m->source;
    m->original_dest = s.pick({"", "orig"});
    m->data = s.str(8, "abc!");
    m->messageID = static_cast<int32_t>(s.draw(100));
    return m;
}
std::string replaceAll(std::string f, const std::string& what, const std::string& with)
{
    std::string o;
    std::size_t p = 0;
    while (true) {
        auto q = f.find(what, p);
        if (q == std::string::npos) {
            return o + f.substr(p);
        }
        o += f.substr(p, q - p) + with;
        p = q + what.size();
    }
}
std::string list(const std::vector<std::string>& v)
{
    if (v.empty()) {
        return "";
    }
    if (v.size() == 1) {
        return v[0];
    }
    std::string o = "[";
    for (auto& x : v) {
        o += '"' + x + "\",";
    }
    o.back() = ']';
    return o;
}
}  // namespace

PROP(operations, 8)
{
    auto same = [](const Message& a, const Message& b, bool dest, bool time) {
        return a.source == b.source && a.original_source == b.original_source && (dest || (a.dest == b.dest && a.original_dest == b.original_dest)) &&
            (time || a.time == b.time) && a.data.to_string() == b.data.to_string() && a.messageID == b.messageID;
    };
    switch (s.draw(6)) {
        case 0: {
            Time d = Time(static_cast<double>(s.range(-4, 40)) * 0.125);
            DelayFilterOperation op(d);
            d = std::max(d, timeZero);
            for (int i = 0; i < 6; ++i) {
                if (s.boolean()) {
                    double v = static_cast<double>(s.range(-4, 40)) * 0.125;
                    op.set(s.pick({"delay", "Delay", "delays"}) == "delay" ? "delay" : "other", v);
                    s.note("set ", v);
                    if (op.getProperty("delay") != static_cast<double>(d)) {  // "other" changes nothing
                        REQUIRE("delay-set", v >= 0 && op.getProperty("delay") == v, v, " gives ", op.getProperty("delay"));
                        d = Time(v);
                    }
                    auto v2 = static_cast<double>(s.range(0, 40)) * 0.125;
                    if (s.boolean()) {
                        op.set("delay", v2);
                        d = Time(v2);
                    }
                    s.nontrivial();
                } else if (s.boolean()) {
                    int ms = static_cast<int>(s.range(0, 5000));
                    op.setString("delay", pbt::cat(ms, " ms"));
                    d = Time(ms, time_units::ms);
                }
                REQUIRE("delay-property", std::abs(op.getProperty("delay") - static_cast<double>(d)) < 1e-9, op.getProperty("delay"), " expected ", static_cast<double>(d));
                auto m = message(s);
                Message before(*m);
                auto r = op.getOperator()->process(std::move(m));
                REQUIRE("delay-kept", r && same(before, *r, false, true), "something else changed");
                REQUIRE("delay-time", r->time == before.time + d, before.time, " + ", d, " gives ", r->time);
            }
            bool threw = false;
            try {
                op.setString("delay", "not a time");
            }
            catch (const InvalidParameter&) {
                threw = true;
            }
            REQUIRE("delay-invalid", threw, "no error");
            REQUIRE("delay-invalid-kept", std::abs(op.getProperty("delay") - static_cast<double>(d)) < 1e-9, "changed");
            break;
        }
        case 1: {
            RandomDropFilterOperation op;
            double p = s.pick({0.0, 1.0, 0.0, 1.0, 0.5});
            op.set(s.pick({"dropprob", "prob"}), p);
            REQUIRE("drop-property", op.getProperty("prob") == p && op.getProperty("dropprob") == p, p);
            int kept = 0;
            int n = static_cast<int>(s.range(1, 20));
            for (int i = 0; i < n; ++i) {
                auto m = message(s);
                Message before(*m);
                auto r = op.getOperator()->process(std::move(m));
                if (r) {
                    ++kept;
                    REQUIRE("drop-kept", same(before, *r, false, false), "changed");
                }
            }
            if (p == 0.0 || p == 1.0) {
                REQUIRE("drop-probability", kept == (p == 0.0 ? n : 0), "probability ", p, " kept ", kept, " of ", n);
                s.nontrivial();
            }
            break;
        }
        case 2: {
            RerouteFilterOperation op;
            std::string nd = s.pick({"new", "", "${source}", "a${dest}b${source}c${dest}", "$x", "${sourc}", "$"});
            op.setString("newdestination", nd);
            std::set<std::string> conds;
            for (int i = static_cast<int>(s.draw(3)); i > 0; --i) {
                std::string c = s.pick({"gam", "gamma", "d.e", "zz", "^g", "ta$"});
                op.setString("condition", c);
                conds.insert(c);
            }
            bool threw = false;
            try {
                op.setString("condition", "(");
            }
            catch (const InvalidParameter&) {
                threw = true;
            }
            REQUIRE("reroute-invalid", threw, "no error");
            REQUIRE("reroute-string", op.getString("newdestination") == nd, op.getString("newdestination"));
            REQUIRE("reroute-conditions", op.getString("condition") == list(std::vector<std::string>(conds.begin(), conds.end())), op.getString("condition"));
            for (int i = 0; i < 5; ++i) {
                auto m = message(s);
                Message before(*m);
                bool hit = conds.empty();
                for (auto& c : conds) {
                    auto& d = before.dest;
                    hit = hit || (c == "gam" && d.find("gam") != std::string::npos) || (c == "gamma" && d.find("gamma") != std::string::npos) ||
                        (c == "d.e" && d.find("d.e") != std::string::npos) || (c == "^g" && !d.empty() && d[0] == 'g') ||
                        (c == "ta$" && d.size() > 1 && d.substr(d.size() - 2) == "ta");
                }
                if (before.dest.find('{') != std::string::npos) {
                    continue;  // a text that is itself a formula
                }
                bool formula = nd.find("${source}") != std::string::npos || nd.find("${dest}") != std::string::npos;
                if (formula && (before.source.find('$') != std::string::npos || before.dest.find('$') != std::string::npos)) {
                    continue;  // '$' has a meaning of its own in the replacement
                }
                std::string want = hit ? replaceAll(replaceAll(nd, "${source}", before.source), "${dest}", before.dest) : before.dest;
                auto r = op.getOperator()->process(std::move(m));
                REQUIRE("reroute-kept", r && same(before, *r, true, false), "something else changed");
                REQUIRE("reroute-dest", r->dest == want, "from '", before.dest, "' by '", nd, "' to '", r->dest, "' expected '", want, "'");
                REQUIRE("reroute-original", r->original_dest == (before.original_dest.empty() ? before.dest : before.original_dest), r->original_dest);
                s.nontrivial();
            }
            break;
        }
        case 3: {
            CloneFilterOperation op;
            std::vector<std::string> to;
            for (int i = static_cast<int>(s.range(1, 8)); i > 0; --i) {
                std::string a = s.pick({"p", "q", "r/1", "s"});
                switch (s.draw(5)) {
                    case 0:
                        op.setString("delivery", a);
                        to = {a};
                        break;
                    case 1:
                        op.setString("remove delivery", a);
                        to.erase(std::remove(to.begin(), to.end(), a), to.end());
                        break;
                    default:
                        op.setString("add delivery", a);
                        if (std::find(to.begin(), to.end(), a) == to.end()) {
                            to.push_back(a);
                        }
                }
                REQUIRE("clone-delivery", op.getString("delivery") == list(to), op.getString("delivery"), " expected ", list(to));
                auto m = message(s);
                Message before(*m);
                auto r = op.getOperator()->processVector(std::move(m));
                REQUIRE("clone-count", r.size() == to.size(), r.size(), " of ", to.size());
                for (std::size_t k = 0; k < r.size(); ++k) {
                    REQUIRE("clone-message", same(before, *r[k], true, false) && r[k]->dest == to[k] && r[k]->original_dest == before.dest, r[k]->dest, " ", r[k]->original_dest);
                    s.nontrivial();
                }
            }
            for (auto* p : {"other", "Delivery"}) {
                bool threw = false;
                try {
                    op.setString(p, "x");
                }
                catch (const InvalidParameter&) {
                    threw = true;
                }
                REQUIRE("clone-unknown", threw, p);
            }
            break;
        }
        case 4: {
            RandomDelayFilterOperation op;
            static const std::vector<std::string> names{"constant", "uniform", "bernoulli", "binomial", "geometric", "poisson", "exponential", "gamma",
                                                        "weibull", "extreme_value", "normal", "lognormal", "chi_squared", "cauchy", "fisher_f", "student_t"};
            for (int i = 0; i < 4; ++i) {
                auto n = s.pick(names);
                op.setString(s.pick({"dist", "distribution"}), n);
                REQUIRE("random-name", op.getString("dist") == n && op.getString("distribution") == n, n, " gives ", op.getString("dist"));
                op.setString("dist", "nosuch");
                REQUIRE("random-unknown", op.getString("dist") == n, "changed by an unknown name");
                double a = static_cast<double>(s.range(1, 8)) * 0.5;
                double b = a + static_cast<double>(s.range(1, 8)) * 0.5;
                op.set(s.pick({"param1", "mean", "min", "alpha"}), a);
                op.set(s.pick({"param2", "stddev", "max", "beta"}), b);
                for (auto* p : {"param1", "mean", "min", "alpha"}) {
                    REQUIRE("random-param1", op.getProperty(p) == a, p, " ", op.getProperty(p));
                }
                for (auto* p : {"param2", "stddev", "max", "beta"}) {
                    REQUIRE("random-param2", op.getProperty(p) == b, p, " ", op.getProperty(p));
                }
                if (n == "constant" || n == "uniform") {
                    for (int k = 0; k < 5; ++k) {
                        auto m = message(s);
                        Message before(*m);
                        auto r = op.getOperator()->process(std::move(m));
                        REQUIRE("random-kept", r && same(before, *r, false, true), "something else changed");
                        auto add = static_cast<double>(r->time - before.time);
                        REQUIRE("random-range", n == "constant" ? std::abs(add - a) < 1e-6 : (add >= a - 1e-6 && add <= b + 1e-6), n, " ", a, " ", b, " adds ", add);
                    }
                    s.nontrivial();
                } else if (n == "bernoulli" || n == "binomial" || n == "geometric" || n == "poisson") {
                    op.set("param1", n == "binomial" || n == "poisson" ? 3.0 : 0.5);
                    op.set("param2", n == "binomial" ? 0.5 : 2.0);
                    for (int k = 0; k < 5; ++k) {
                        auto m = message(s);
                        Time t = m->time;
                        auto add = static_cast<double>(op.getOperator()->process(std::move(m))->time - t);
                        double unit = n == "binomial" ? 1.0 : 2.0;
                        REQUIRE("random-multiple", add >= 0 && std::abs(add / unit - std::round(add / unit)) < 1e-6, n, " adds ", add);
                        REQUIRE("random-top", (n != "bernoulli" || add <= 2.0) && (n != "binomial" || add <= 3.0), n, " adds ", add);
                    }
                    s.nontrivial();
                }
            }
            break;
        }
        default: {
            // operators made of functions, and without one
            auto m = message(s);
            Message before(*m);
            int kind = static_cast<int>(s.draw(5));
            bool with = s.boolean();
            bool pass = s.boolean();
            std::unique_ptr<Message> r;
            if (kind == 0) {
                auto o = std::make_shared<MessageDataOperator>();
                if (with) {
                    o->setDataFunction([](SmallBuffer& b) { b.append("!"); });
                }
                r = std::static_pointer_cast<FilterOperator>(o)->process(std::move(m));
                REQUIRE("data", r && r->data.to_string() == std::string(before.data.to_string()) + (with ? "!" : "") && r->dest == before.dest && r->time == before.time, r->data.to_string());
            } else if (kind == 1) {
                auto o = std::make_shared<MessageConditionalOperator>();
                if (with) {
                    o->setConditionFunction([pass](const Message*) { return pass; });
                }
                r = std::static_pointer_cast<FilterOperator>(o)->process(std::move(m));
                REQUIRE("conditional", (r != nullptr) == (!with || pass), "with ", with, " pass ", pass);
                REQUIRE("conditional-kept", !r || same(before, *r, false, false), "changed");
            } else if (kind == 2) {
                auto o = std::make_shared<MessageDestOperator>();
                if (with) {
                    o->setDestFunction([](const std::string& a, const std::string& b) { return a + "+" + b; });
                }
                r = std::static_pointer_cast<FilterOperator>(o)->process(std::move(m));
                REQUIRE("dest", r && r->dest == (with ? before.source + "+" + before.dest : before.dest), r->dest);
            } else if (kind == 3) {
                auto o = std::make_shared<MessageTimeOperator>();
                if (with) {
                    o->setTimeFunction([](Time t) { return t * 2; });
                }
                r = std::static_pointer_cast<FilterOperator>(o)->process(std::move(m));
                REQUIRE("time", r && r->time == (with ? before.time * 2 : before.time), r->time);
            } else {
                auto o = std::make_shared<CustomMessageOperator>();
                if (with) {
                    o->setMessageFunction([pass](std::unique_ptr<Message> x) { return pass ? std::move(x) : nullptr; });
                }
                r = std::static_pointer_cast<FilterOperator>(o)->process(std::move(m));
                REQUIRE("custom", (r != nullptr) == (!with || pass), "with ", with, " pass ", pass);
            }
            s.nontrivial();
        }
    }
}

namespace {
enum Kind { DELAY, TAG, DROP, REROUTE, CLONE, NONE };
const char* kindNames[] = {"delay", "tag", "drop", "reroute", "clone", "none"};
struct FSpec {
    Kind kind{TAG};
    int owner{0};  // a federate, or -1-core
    double delay{0};
    int mod{2};  // drop: payload numbers divisible by it
    std::string cond;
    int newDest{0};
    std::vector<int> delivery;
    std::vector<int> src, dst;
    char tag{'A'};
};
struct Send {
    int ep, dest;
    double at, stated;  // stated: 0 = none
    int id;
};
struct Got {
    int ep;
    double time;
    std::string data, osrc, odest;
    bool operator<(const Got& o) const { return std::tie(ep, time, data, osrc, odest) < std::tie(o.ep, o.time, o.data, o.osrc, o.odest); }
    bool operator==(const Got& o) const { return std::tie(ep, time, data, osrc, odest) == std::tie(o.ep, o.time, o.data, o.osrc, o.odest); }
};
struct Model {
    std::vector<FSpec> filters;
    std::vector<std::string> eps;
    std::vector<Got> out;
    std::vector<int> epCore, filterCore;
    std::set<int> relayed;  // messages that passed through a third core, or were sent on by a destination
    void passes(std::size_t f, int ep, int id)
    {
        if (filterCore[f] != epCore[static_cast<std::size_t>(ep)]) {
            relayed.insert(id);
        }
    }
    std::string name(int e) const { return eps[static_cast<std::size_t>(e)]; }
    static bool on(const std::vector<int>& v, int e) { return std::find(v.begin(), v.end(), e) != v.end(); }
    bool apply(const FSpec& f, Got& m, int& dest, int id) const
    {
        switch (f.kind) {
            case DELAY:
                m.time += f.delay;
                return true;
            case TAG:
                m.data += f.tag;
                return true;
            case DROP:
                return id % f.mod != 0;
            case REROUTE:
                if (m.odest.empty()) {
                    m.odest = name(dest);
                }
                if (f.cond.empty() || name(dest).find(f.cond) != std::string::npos) {
                    dest = f.newDest;
                }
                return true;
            default:
                return true;
        }
    }
    void route(Got m, int dest, int id)
    {
        for (std::size_t i = 0; i < filters.size(); ++i) {
            auto& f = filters[i];
            if (f.kind != CLONE && on(f.dst, dest)) {
                passes(i, dest, id);
                int before = dest;
                if (!apply(f, m, dest, id)) {
                    return;
                }
                if (dest != before) {
                    relayed.insert(id);
                    route(m, dest, id);
                    return;
                }
                break;
            }
        }
        for (auto& f : filters) {
            if (f.kind == CLONE && on(f.dst, dest)) {
                for (auto a : f.delivery) {
                    Got c(m);
                    c.odest = name(dest);
                    relayed.insert(id);
                    route(c, a, id);
                }
            }
        }
        m.ep = dest;
        out.push_back(m);
    }
    void send(const Send& x)
    {
        Got m{0, std::max(x.at, x.stated), std::to_string(x.id) + ":", name(x.ep), ""};
        int dest = x.dest;
        for (std::size_t i = 0; i < filters.size(); ++i) {
            auto& f = filters[i];
            if (on(f.src, x.ep)) {
                passes(i, x.ep, x.id);
            }
            if (f.kind == CLONE && on(f.src, x.ep)) {
                for (auto a : f.delivery) {
                    Got c(m);
                    c.odest = name(dest);
                    route(c, a, x.id);
                }
            }
        }
        for (auto& f : filters) {
            if (f.kind != CLONE && on(f.src, x.ep) && !apply(f, m, dest, x.id)) {
                return;
            }
        }
        route(m, dest, x.id);
    }
};
std::string sortTags(const std::string& d)
{
    auto p = d.find(':');
    std::string t = p == std::string::npos ? "" : d.substr(p + 1);
    std::sort(t.begin(), t.end());
    return d.substr(0, p + 1) + t;
}
struct Limits {
    bool sameCore{false};  // filters only where their endpoints are
    bool farRelay{false};  // destinations send on to other cores
    int cores{3};
    int far{9};  // filters with an endpoint on another core
    int parts{4};  // federates with endpoints
    int helpers{2};  // federates with filters only
};
void federation(pbt::Src& s, const Limits& lim)
{
    Model m;
    int cores = static_cast<int>(s.range(1, lim.cores));
    int ne = static_cast<int>(s.range(2, 4));
    int np = std::min(ne, static_cast<int>(s.range(1, lim.parts)));
    int nf = static_cast<int>(s.draw(static_cast<std::uint64_t>(lim.helpers) + 1));  // federates with filters only
    int feds = np + nf;
    auto fedOf = [np](int e) { return e % np; };
    std::vector<int> coreOf;
    std::vector<int> perCore(static_cast<std::size_t>(cores), 0);
    for (int i = 0; i < feds; ++i) {
        int c = i < cores ? i : static_cast<int>(s.draw(static_cast<std::uint64_t>(cores)));
        coreOf.push_back(c);
        ++perCore[static_cast<std::size_t>(c)];
    }
    for (std::size_t i = 0; i < perCore.size(); ++i) {
        if (perCore[i] == 0) {
            perCore.resize(i);  // the first cores are filled first
            break;
        }
    }
    cores = static_cast<int>(perCore.size());
    for (int e = 0; e < ne; ++e) {
        m.epCore.push_back(coreOf[static_cast<std::size_t>(fedOf(e))]);
        m.eps.push_back(pbt::cat("ep", static_cast<char>('a' + e)));
    }
    // filters; those at a destination send on to endpoints of a higher number only
    int k = static_cast<int>(s.range(1, 5));
    std::vector<int> nonClone(static_cast<std::size_t>(ne), 0);
    std::vector<int> rerouted(static_cast<std::size_t>(ne), 0);
    int farFilters = 0;
    for (int i = 0; i < k; ++i) {
        FSpec f;
        f.kind = static_cast<Kind>(s.weighted({3, 3, 2, 3, 3, 1}));
        f.owner = static_cast<int>(s.draw(static_cast<std::uint64_t>(feds)));
        if (s.chance(1, 5)) {
            f.owner = -1 - static_cast<int>(s.draw(static_cast<std::uint64_t>(cores)));
        }
        int oc = f.owner < 0 ? -1 - f.owner : coreOf[static_cast<std::size_t>(f.owner)];
        f.delay = static_cast<double>(s.range(0, 12)) * 0.25;
        f.mod = static_cast<int>(s.range(2, 3));
        f.tag = static_cast<char>('A' + i);
        f.cond = s.pick({"", "epa", "epb", "ep"});
        f.newDest = static_cast<int>(s.draw(static_cast<std::uint64_t>(ne)));
        for (int e = 0; e < ne; ++e) {
            if (s.chance(1, 2)) {
                f.delivery.push_back(e);
            }
        }
        bool isFar = false;
        for (int e = 0; e < ne; ++e) {
            if (m.epCore[static_cast<std::size_t>(e)] != oc && (lim.sameCore || farFilters >= lim.far)) {
                continue;
            }
            auto ue = static_cast<std::size_t>(e);
            if (s.chance(1, 3)) {
                if (f.kind == REROUTE) {
                    if (rerouted[ue] != 0) {
                        continue;  // two reroutes depend on their order
                    }
                    rerouted[ue] = 1;
                }
                f.src.push_back(e);
                isFar = isFar || m.epCore[ue] != oc;
            }
            if (s.chance(1, 3)) {
                // sent on to another core: see the known finding
                auto near = [&](int d) { return lim.farRelay || m.epCore[static_cast<std::size_t>(d)] == m.epCore[ue]; };
                bool up = f.kind != REROUTE && f.kind != CLONE;
                if (f.kind == REROUTE) {
                    up = f.newDest > e && near(f.newDest);
                }
                if (f.kind == CLONE) {
                    up = std::all_of(f.delivery.begin(), f.delivery.end(), [&](int d) { return d > e && near(d); });
                }
                if (!up || (f.kind != CLONE && nonClone[ue]++ != 0)) {
                    continue;
                }
                f.dst.push_back(e);
                isFar = isFar || m.epCore[ue] != oc;
            }
        }
        farFilters += isFar ? 1 : 0;
        std::string desc;
        for (auto e : f.src) {
            desc += " src:" + m.name(e);
        }
        for (auto e : f.dst) {
            desc += " dst:" + m.name(e);
        }
        for (auto e : f.delivery) {
            desc += f.kind == CLONE ? " to:" + m.name(e) : std::string();
        }
        s.note("filter ", f.tag, " ", kindNames[f.kind], " of ", f.owner < 0 ? "core " : "federate ", f.owner < 0 ? -1 - f.owner : f.owner, " delay ", f.delay, " mod ", f.mod,
               " cond '", f.cond, "' new ", m.name(f.newDest), desc);
        m.filters.push_back(f);
        m.filterCore.push_back(oc);
    }
    std::string where;
    for (auto c : coreOf) {
        where += pbt::cat(" ", c);
    }
    s.note("cores of the federates:", where, "; endpoints ", ne, " of ", np, " federates");
    // when each federate steps, and what it sends
    const double end = 60.0;
    std::vector<std::vector<double>> steps(static_cast<std::size_t>(np));
    std::vector<std::vector<Send>> sends(static_cast<std::size_t>(np));
    int id = 0;
    for (int p = 0; p < np; ++p) {
        double t = 0;
        int n = static_cast<int>(s.draw(5));
        for (int i = 0; i < n; ++i) {
            t += static_cast<double>(s.range(1, 8)) * 0.25 + 0.01 * (p + 1);
            steps[static_cast<std::size_t>(p)].push_back(t);
            for (int e = p; e < ne; e += np) {
                for (int j = static_cast<int>(s.draw(3)); j > 0; --j) {
                    Send x{e, static_cast<int>(s.draw(static_cast<std::uint64_t>(ne))), t, s.chance(1, 4) ? t + static_cast<double>(s.range(0, 8)) * 0.25 : 0.0, ++id};
                    s.note(m.name(e), " at ", t, " sends ", x.id, " to ", m.name(x.dest), " time ", x.stated);
                    sends[static_cast<std::size_t>(p)].push_back(x);
                    m.send(x);
                }
            }
        }
        steps[static_cast<std::size_t>(p)].push_back(end);
    }
    bool touched = false;
    for (auto& f : m.filters) {
        touched = touched || (!f.src.empty() || !f.dst.empty());
    }
    if (touched && !m.out.empty()) {
        s.nontrivial();
    }
    std::vector<Got> got;
    std::mutex lock;
    std::string trouble;
    std::string late;
    {
        world::World w(perCore);
        std::vector<std::shared_ptr<MessageFederate>> fed;
        std::vector<std::unique_ptr<Filter>> coreFilters;
        std::vector<Endpoint*> ep;
        for (int i = 0; i < feds; ++i) {
            fed.push_back(std::make_shared<MessageFederate>(w.name + pbt::cat("_f", i), w.info(static_cast<std::size_t>(coreOf[static_cast<std::size_t>(i)]))));
        }
        // endpoints and filters in any order
        int nextE = 0;
        std::size_t nextF = 0;
        while (nextE < ne || nextF < m.filters.size()) {
            if (nextF >= m.filters.size() || (nextE < ne && s.boolean())) {
                ep.push_back(&fed[static_cast<std::size_t>(fedOf(nextE))]->registerGlobalEndpoint(m.name(nextE)));
                ++nextE;
                continue;
            }
            auto& f = m.filters[nextF++];
            Filter* flt = nullptr;
            std::string nm = pbt::cat("filter", f.tag);
            auto type = f.kind == DELAY ? FilterTypes::DELAY : f.kind == REROUTE ? FilterTypes::REROUTE : f.kind == CLONE ? FilterTypes::CLONE : FilterTypes::CUSTOM;
            if (f.owner < 0) {
                auto* c = w.cores[static_cast<std::size_t>(-1 - f.owner)].get();
                coreFilters.push_back(f.kind == CLONE ? make_cloning_filter(type, c, "", nm) : make_filter(type, c, nm));
                flt = coreFilters.back().get();
            } else {
                auto* o = fed[static_cast<std::size_t>(f.owner)].get();
                flt = f.kind == CLONE ? &make_cloning_filter(InterfaceVisibility::GLOBAL, type, o, "", nm) : &make_filter(InterfaceVisibility::GLOBAL, type, o, nm);
            }
            switch (f.kind) {
                case DELAY:
                    flt->set("delay", f.delay);
                    break;
                case TAG: {
                    char t = f.tag;
                    flt->setOperator(std::make_shared<MessageDataOperator>([t](SmallBuffer& b) { b.push_back(t); }));
                    break;
                }
                case DROP: {
                    int mod = f.mod;
                    flt->setOperator(std::make_shared<MessageConditionalOperator>(
                        [mod](const Message* x) { return std::stoi(std::string(x->data.to_string())) % mod != 0; }));
                    break;
                }
                case REROUTE:
                    flt->setString("newdestination", m.name(f.newDest));
                    if (!f.cond.empty()) {
                        flt->setString("condition", f.cond);
                    }
                    break;
                case CLONE:
                    for (auto a : f.delivery) {
                        flt->setString("add delivery", m.name(a));
                    }
                    break;
                default:
                    break;
            }
            for (auto e : f.src) {
                flt->addSourceTarget(m.name(e));
            }
            for (auto e : f.dst) {
                flt->addDestinationTarget(m.name(e));
            }
        }
        auto run = [&](int i) {
            auto& f = *fed[static_cast<std::size_t>(i)];
            try {
                f.enterExecutingMode();
                if (i >= np) {
                    return;  // it stays until the others are done: its filters leave with it
                }
                auto ui = static_cast<std::size_t>(i);
                std::size_t sent = 0;
                double prev = 0;
                for (auto t : steps[ui]) {
                    Time g = timeZero;
                    while (g < Time(t)) {
                        g = f.requestTime(t);
                        for (int e = i; e < ne; e += np) {
                          while (ep[static_cast<std::size_t>(e)]->hasMessage()) {
                            auto x = ep[static_cast<std::size_t>(e)]->getMessage();
                            std::lock_guard<std::mutex> l(lock);
                            got.push_back(Got{e, static_cast<double>(x->time), std::string(x->data.to_string()), x->original_source, x->original_dest});
                            // what was sent on without delay, by it or at the time it was granted, arrives next
                            double lag = static_cast<double>(g - x->time);
                            bool next = x->time <= Time(prev) && lag < 1e-6;
                            bool direct = m.relayed.count(std::stoi(std::string(x->data.to_string()))) == 0;
                            if (lag < 0 || !direct) {
                                if (lag < 0) {
                                    late = pbt::cat(m.name(e), " received ", x->data.to_string(), " of time ", x->time, " already at ", g);
                                }
                            } else if (!next && (x->time < Time(prev) || (g != Time(t) && lag != 0))) {
                                late = pbt::cat(m.name(e), " received ", x->data.to_string(), " of time ", static_cast<double>(x->time), " at ", static_cast<double>(g), " after ", prev,
                                                " having requested ", t);
                            }
                        }
                        }
                        prev = static_cast<double>(g);
                    }
                    for (; sent < sends[ui].size() && sends[ui][sent].at == t; ++sent) {
                        auto& x = sends[ui][sent];
                        std::string data = std::to_string(x.id) + ":";
                        if (x.stated > 0) {
                            ep[static_cast<std::size_t>(x.ep)]->sendToAt(data, m.name(x.dest), x.stated);
                        } else {
                            ep[static_cast<std::size_t>(x.ep)]->sendTo(data, m.name(x.dest));
                        }
                    }
                }
                f.finalize();
            }
            catch (const std::exception& e) {
                std::lock_guard<std::mutex> l(lock);
                trouble = pbt::cat("federate ", i, ": ", e.what());
            }
        };
        std::vector<std::thread> th;
        for (int i = 0; i < feds; ++i) {
            th.emplace_back(run, i);
        }
        for (auto& t : th) {
            t.join();
        }
        for (int i = np; i < feds; ++i) {
            fed[static_cast<std::size_t>(i)]->finalize();
        }
        fed.clear();
        coreFilters.clear();
    }
    REQUIRE("federation", trouble.empty(), trouble);
    auto norm = [](std::vector<Got> v) {
        for (auto& x : v) {
            x.data = sortTags(x.data);
            x.time = std::round(x.time * 1e6) / 1e6;
        }
        std::sort(v.begin(), v.end());
        return v;
    };
    auto want = norm(m.out);
    want.erase(std::remove_if(want.begin(), want.end(), [&](const Got& g) { return g.time >= end; }), want.end());
    auto have = norm(got);
    auto text = [&](const Got& g) { return pbt::cat(m.name(g.ep), " at ", g.time, " '", g.data, "' from ", g.osrc, " first to '", g.odest, "'"); };
    for (std::size_t i = 0; i < std::max(want.size(), have.size()); ++i) {
        if (i < want.size() && i < have.size() && want[i] == have[i]) {
            continue;
        }
        if (i >= have.size() || (i < want.size() && want[i] < have[i])) {
            FAIL("not-received", text(want[i]), "; next received: ", i < have.size() ? text(have[i]) : std::string("nothing"));
        }
        FAIL("not-expected", text(have[i]), "; expected instead: ", i < want.size() ? text(want[i]) : std::string("nothing"));
    }
    REQUIRE("order", late.empty(), late);
}
}  // namespace

// the bookkeeping: the filters of an endpoint closed one by one, the endpoints of a filter
PROP(coordinator, 2)
{
    {
        FilterCoordinator c;
        std::vector<std::unique_ptr<FilterInfo>> f;
        int n = static_cast<int>(s.range(1, 8));
        for (int i = 0; i < n; ++i) {
            f.push_back(std::make_unique<FilterInfo>(GlobalBrokerId(static_cast<int>(s.range(1, 3))), InterfaceHandle(static_cast<int>(s.draw(3))), "k", "", "", s.boolean()));
            switch (s.draw(4)) {
                case 0:
                    c.destFilter = f.back().get();
                    break;
                case 1:
                    c.cloningDestFilters.push_back(f.back().get());
                    break;
                default:
                    c.allSourceFilters.push_back(f.back().get());
            }
            f.back()->flags = static_cast<std::uint16_t>(s.draw(65536)) & static_cast<std::uint16_t>(~(1U << disconnected_flag));
        }
        std::vector<std::uint16_t> want;
        for (auto& x : f) {
            want.push_back(x->flags);
        }
        std::set<FilterInfo*> in(c.allSourceFilters.begin(), c.allSourceFilters.end());
        in.insert(c.cloningDestFilters.begin(), c.cloningDestFilters.end());
        in.insert(c.destFilter);
        for (int k = 0; k < 4; ++k) {
            GlobalHandle h(GlobalFederateId(static_cast<int>(s.range(1, 3))), InterfaceHandle(static_cast<int>(s.draw(3))));
            c.closeFilter(h);
            for (std::size_t i = 0; i < f.size(); ++i) {
                if (in.count(f[i].get()) != 0 && f[i]->core_id == h.fed_id && f[i]->handle == h.handle) {
                    want[i] = static_cast<std::uint16_t>(want[i] | (1U << disconnected_flag));
                    s.nontrivial();
                }
                REQUIRE("close", f[i]->flags == want[i], "filter ", i, " flags ", f[i]->flags, " expected ", want[i]);
            }
        }
    }
    FilterInfo fi(GlobalBrokerId(1), InterfaceHandle(0), "key", "in", "out", false);
    struct End {
        GlobalHandle id;
        std::string key;
    };
    std::vector<End> src, dst;
    auto text = [](const std::vector<End>& v) {
        std::vector<std::string> k;
        for (auto& x : v) {
            k.push_back(x.key);
        }
        return list(k);
    };
    for (int k = static_cast<int>(s.range(1, 10)); k > 0; --k) {
        GlobalHandle h(GlobalFederateId(static_cast<int>(s.range(1, 3))), InterfaceHandle(static_cast<int>(s.draw(2))));
        std::string key = s.pick({"a", "b", "c/d", "long name"});
        auto same = [&](const End& e) { return e.id == h; };
        int op = static_cast<int>(s.draw(3));
        s.note(op, " ", h.fed_id.baseValue(), ":", h.handle.baseValue(), " ", key);
        if (op == 2) {
            fi.removeTarget(h);
            src.erase(std::remove_if(src.begin(), src.end(), same), src.end());
            dst.erase(std::remove_if(dst.begin(), dst.end(), same), dst.end());
        } else {
            auto& v = op == 0 ? src : dst;
            if (op == 0) {
                fi.addSourceEndpoint(h, key, "");
            } else {
                fi.addDestinationEndpoint(h, key, "");
            }
            if (std::none_of(v.begin(), v.end(), same)) {
                v.push_back({h, key});
            }
        }
        REQUIRE("sources", fi.getSourceEndpoints() == text(src), fi.getSourceEndpoints(), " expected ", text(src));
        REQUIRE("destinations", fi.getDestinationEndpoints() == text(dst), fi.getDestinationEndpoints(), " expected ", text(dst));
        auto ids = [&](const std::vector<GlobalHandle>& t, const std::vector<End>& v) {
            return std::equal(t.begin(), t.end(), v.begin(), v.end(), [](const GlobalHandle& a, const End& b) { return a == b.id; });
        };
        REQUIRE("source-targets", ids(fi.sourceTargets, src), fi.sourceTargets.size(), " of ", src.size());
        REQUIRE("destination-targets", ids(fi.destTargets, dst), fi.destTargets.size(), " of ", dst.size());
    }
}

// one federate with its filters: every chain
PROP(alone, 4)
{
    federation(s, Limits{true, false, 1, 0, 1, 0});
}

// filters of another federate of the same core
PROP(helper, 3)
{
    federation(s, Limits{true, false, 1, 0, 1, 1});
}

// filters of two federates that send to each other
PROP(pair, 3)
{
    federation(s, Limits{true, false, 1, 0, 2, 0});
}

// filters of another core
PROP(apart, 3)
{
    federation(s, Limits{false, false, 2, 9, 1, 1});
}

// Known findings: what is too much for the time coordination, see known_findings.txt. Whole federations of these
// kinds run in child processes until one fails.
bool someFail(const Limits& lim, int children, int secs)
{
    std::vector<pid_t> kids;
    for (int i = 0; i < children; ++i) {
        pid_t p = fork();
        if (p == 0) {
            auto stop = std::chrono::steady_clock::now() + std::chrono::seconds(secs);
            for (std::uint64_t k = 0; std::chrono::steady_clock::now() < stop; ++k) {
                alarm(6);  // one takes some hundredths of a second
                pbt::Src s(static_cast<std::uint64_t>(i) * 100000 + k, nullptr);
                try {
                    federation(s, lim);
                }
                catch (const pbt::Discard&) {
                }
                catch (...) {
                    _exit(1);
                }
            }
            _exit(0);
        }
        kids.push_back(p);
    }
    bool failed = false;
    while (!kids.empty()) {
        int st = 0;
        pid_t p = waitpid(-1, &st, 0);
        kids.erase(std::remove(kids.begin(), kids.end(), p), kids.end());
        if (st != 0 && !failed) {
            failed = true;
            for (auto k : kids) {
                kill(k, SIGKILL);
            }
        }
        if (p < 0) {
            break;
        }
    }
    return failed;
}
PROP(kf_relay, 0)
{
    s.note("known finding");
    if (someFail(Limits{true, true, 3, 9, 3, 0}, 8, 15)) {
        FAIL("kf-relay", "a message sent on by the filter of its destination to an endpoint of another core comes too late or not at all");
    }
}
PROP(kf_several, 0)
{
    s.note("known finding");
    if (someFail(Limits{false, false, 3, 9, 4, 2}, 8, 15)) {
        FAIL("kf-several", "three or more federates with endpoints and filters of several federates or cores wait for ever, or a message comes too late");
    }
}

PBT_MAIN("a filter changed, dropped, moved or copied a message, or a federation with filters delivered messages", 60)
