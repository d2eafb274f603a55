// C26: inputs with one or several sources: which value is current, which is chosen, reductions, change detection.
#include "helics/application_api/Inputs.hpp"
#include "helics/application_api/Publications.hpp"
#include "helics/application_api/ValueFederate.hpp"
#include "helics/core/BrokerFactory.hpp"
#include "helics/core/CoreFactory.hpp"
#include "helics/core/InputInfo.hpp"
#include "helics/core/helics_definitions.hpp"

#include "minijson.hpp"
#include "pbt.hpp"
#include "world.hpp"

#include <deque>
#include <memory>
#include <numeric>
#include <optional>

using namespace helics;
namespace {
struct Rec {
    Time t;
    unsigned it;
    std::string d;
};
struct Source {
    int fed, handle;
    std::string name, type, units;
    std::deque<Rec> pending;
    std::optional<Rec> cur;
    Time off{Time::maxVal()};
    Time lastT{timeZero};
    unsigned lastIt{0};
};
std::string quoted(const std::string& x)
{
    return '"' + x + '"';
}
std::string joined(const std::vector<std::string>& v, bool collapse)
{
    if (v.empty()) {
        return "";
    }
    bool same = true;
    for (auto& x : v) {
        same = same && x == v[0];
    }
    if ((collapse && same) || v.size() == 1) {
        return v[0];
    }
    std::string o = "[";
    for (auto& x : v) {
        o += quoted(x) + ",";
    }
    o.back() = ']';
    return o;
}
std::string text(const std::shared_ptr<const SmallBuffer>& b)
{
    return b ? std::string(b->to_string()) : std::string("(none)");
}
}  // namespace

PROP(queue, 12)
{
    InputInfo info(GlobalHandle(GlobalFederateId(131072), InterfaceHandle(4)), "in", "double", "m");
    std::vector<Source> src;
    bool change = false;
    bool noInt = false;
    Time gap = timeZero;
    std::vector<int> prio;
    int accepted = 0;
    int updates = 0;
    int ties = 0;
    Time now = timeZero;
    auto add = [&]() {
        Source x;
        x.fed = 131073 + static_cast<int>(s.draw(2));
        x.handle = static_cast<int>(s.draw(3));
        for (auto& y : src) {
            if (y.fed == x.fed && y.handle == x.handle) {
                return;
            }
        }
        x.name = pbt::cat("s", src.size());
        x.type = s.pick({"double", "string", "double", ""});
        x.units = s.pick({"m", "cm", "m", ""});
        x.lastT = now;
        s.note("source ", x.name, " ", x.type, " ", x.units);
        REQUIRE("new-source", info.addSource(GlobalHandle(GlobalFederateId(x.fed), InterfaceHandle(x.handle)), x.name, x.type, x.units), x.name);
        src.push_back(x);
    };
    auto gh = [](const Source& x) { return GlobalHandle(GlobalFederateId(x.fed), InterfaceHandle(x.handle)); };
    auto check = [&](const std::string& op) {
        std::size_t bytes = 0;
        Time next = Time::maxVal();
        std::vector<std::string> types, units, names;
        Time best = Time::minVal();
        int bi = -1;
        for (std::size_t i = 0; i < src.size(); ++i) {
            auto& x = src[i];
            for (auto& p : x.pending) {
                bytes += p.d.size();
                next = std::min(next, p.t);
            }
            types.push_back(x.type);
            units.push_back(x.units);
            names.push_back(x.name);
            std::string want = x.cur ? x.cur->d : "(none)";
            REQUIRE("current", text(info.getData(static_cast<int>(i))) == want, op, " source ", i, " holds '", text(info.getData(static_cast<int>(i))), "' expected '", want, "'");
            REQUIRE("current-all", info.getAllData().size() == src.size() && text(info.getAllData()[i]) == want, op, " source ", i);
            if (x.cur) {
                REQUIRE("current-time", info.current_data_time[i].first == x.cur->t && info.current_data_time[i].second == x.cur->it, op, " source ", i, " ",
                        info.current_data_time[i].first, " ", info.current_data_time[i].second, " expected ", x.cur->t, " ", x.cur->it);
                if (x.cur->t > best) {
                    best = x.cur->t;
                    bi = static_cast<int>(i);
                } else if (x.cur->t == best) {
                    ++ties;
                    for (auto k = prio.rbegin(); k != prio.rend(); ++k) {  // the most recent entry is the highest
                        if (*k == bi) {
                            break;
                        }
                        if (*k == static_cast<int>(i)) {
                            bi = static_cast<int>(i);
                            break;
                        }
                    }
                }
            }
            REQUIRE("source-name", info.getSourceName(gh(x)) == x.name, op, " ", info.getSourceName(gh(x)));
        }
        uint32_t idx = 77;
        auto chosen = text(info.getData(&idx));
        REQUIRE("chosen", chosen == (bi < 0 ? std::string("(none)") : src[bi].cur->d), op, " got '", chosen, "' from source ", idx, " expected source ", bi);
        if (bi >= 0) {
            REQUIRE("chosen-index", static_cast<int>(idx) == bi, op, " ", idx, " expected ", bi);
        }
        REQUIRE("queued-size", info.queuedDataSize() == bytes, op, " ", info.queuedDataSize(), " expected ", bytes);
        REQUIRE("next-value", info.nextValueTime() == (noInt ? Time::maxVal() : next), op, " ", info.nextValueTime(), " expected ", next);
        REQUIRE("types", info.getInjectionType() == joined(types, true), op, " '", info.getInjectionType(), "' expected '", joined(types, true), "'");
        REQUIRE("units", info.getInjectionUnits() == joined(units, true), op, " '", info.getInjectionUnits(), "' expected '", joined(units, true), "'");
        REQUIRE("targets", info.getTargets() == joined(names, false), op, " '", info.getTargets(), "' expected '", joined(names, false), "'");
        REQUIRE("bad-index", !info.getData(static_cast<int>(src.size())) && !info.getData(-1), op);
        REQUIRE("connections", info.getProperty(defs::Options::CONNECTIONS) == static_cast<int>(src.size()), op);
    };
    auto take = [&](Source& x, const Rec& r) {
        if (change && x.cur && x.cur->d == r.d) {
            if (x.cur->t == r.t) {
                x.cur->it = r.it;
            }
            return false;
        }
        x.cur = r;
        return true;
    };
    add();
    check("start");
    auto steps = 1 + s.size(30);
    for (std::size_t st = 0; st < steps; ++st) {
        std::string op;
        switch (s.weighted({10, 6, 2, 1, 2, 2, 1, 2})) {
            case 0: {
                if (s.chance(1, 12)) {
                    op = "data from unknown source";
                    REQUIRE("unknown-source", !info.addData(GlobalHandle(GlobalFederateId(9), InterfaceHandle(0)), now, 0, std::make_shared<SmallBuffer>("x")), op);
                    REQUIRE("no-data", !info.addData(gh(src[0]), now, 0, nullptr), op);
                    break;
                }
                auto i = s.draw(src.size());
                auto& x = src[i];
                Time t = x.lastT + Time(static_cast<double>(s.pick({0, 0, 1, 1, 2, 5})) * 0.5);
                unsigned it = 0;
                if (t == x.lastT) {
                    it = x.lastIt + static_cast<unsigned>(s.draw(2));
                }
                std::string d = s.chance(1, 10) ? std::string(100, 'q') : std::string(s.pick({"a", "b", "a", "", "bb"}));
                op = pbt::cat("data ", x.name, " t=", t, " it=", it, " '", d.substr(0, 4), "'");
                s.note(op);
                const Rec* prev = x.pending.empty() ? (x.cur ? &*x.cur : nullptr) : &x.pending.back();
                bool want = t <= x.off && !(prev != nullptr && ((gap > timeZero && t - prev->t < gap) || (change && prev->d == d)));
                bool got = info.addData(gh(x), t, it, std::make_shared<SmallBuffer>(d));
                REQUIRE("accepted", got == want, op, " accepted ", got);
                if (want) {
                    x.pending.push_back({t, it, d});
                    ++accepted;
                }
                x.lastT = t;
                x.lastIt = it;
                break;
            }
            case 1: {
                Time t = now + Time(static_cast<double>(s.pick({0, 1, 1, 2, 3, 10})) * 0.5);
                auto mode = s.draw(3);
                if (mode == 2) {
                    bool mixed = false;
                    for (auto& x : src) {
                        const Rec* older = nullptr;
                        const Rec* at = nullptr;
                        for (auto& p : x.pending) {
                            if (p.t < t) {
                                older = &p;
                            } else if (p.t == t && at == nullptr) {
                                at = &p;
                            }
                        }
                        mixed = mixed || (older != nullptr && at != nullptr && older->it != at->it);
                    }
                    if (mixed) {
                        mode = 1;
                    }
                }
                op = pbt::cat(mode == 0 ? "up to " : mode == 1 ? "inclusive " : "next iteration ", t);
                s.note(op);
                bool want = false;
                for (auto& x : src) {
                    std::optional<Rec> last;
                    std::optional<unsigned> first;
                    while (!x.pending.empty()) {
                        auto& p = x.pending.front();
                        bool ok = p.t < t || (mode == 1 && p.t == t);
                        if (mode == 2 && p.t == t) {
                            ok = !first || *first == p.it;
                            first = first ? first : p.it;
                        }
                        if (!ok) {
                            break;
                        }
                        last = p;
                        x.pending.pop_front();
                    }
                    if (last && take(x, *last)) {
                        want = true;
                    }
                }
                bool got = mode == 0 ? info.updateTimeUpTo(t) : mode == 1 ? info.updateTimeInclusive(t) : info.updateTimeNextIteration(t);
                REQUIRE("updated", got == want, op, " ", got);
                now = t;
                updates += want ? 1 : 0;
                break;
            }
            case 2:
                add();
                op = "add source";
                break;
            case 3: {
                change = s.boolean();
                op = pbt::cat("on change ", change);
                s.note(op);
                info.setProperty(defs::Options::HANDLE_ONLY_UPDATE_ON_CHANGE, change ? 1 : 0);
                break;
            }
            case 4: {
                if (s.chance(1, 4)) {
                    prio.clear();
                    op = "clear priorities";
                    info.setProperty(defs::Options::CLEAR_PRIORITY_LIST, 1);
                } else {
                    prio.push_back(static_cast<int>(s.draw(4)));
                    op = pbt::cat("priority ", prio.back());
                    info.setProperty(defs::Options::INPUT_PRIORITY_LOCATION, prio.back());
                    REQUIRE("priority", info.getProperty(defs::Options::INPUT_PRIORITY_LOCATION) == prio.back(), op);
                }
                s.note(op);
                break;
            }
            case 5: {  // removal and reconnection
                auto i = s.draw(src.size());
                auto& x = src[i];
                auto mode = s.draw(4);
                Time t = now + Time(static_cast<double>(s.draw(4)) * 0.5);
                op = pbt::cat("mode ", mode, " ", x.name, " at ", t);
                s.note(op);
                if (mode == 3) {
                    bool back = x.off < Time::maxVal();
                    if (back) {
                        x.type = s.pick({"double", "int", ""});
                        x.units = s.pick({"m", "km", ""});
                        x.off = Time::maxVal();
                        s.tag("reconnection");
                    }
                    REQUIRE("reconnected", info.addSource(gh(x), x.name, x.type, x.units) == back, op);
                    break;
                }
                for (auto& y : src) {
                    if (mode == 2 ? y.fed == x.fed : &y == &x) {
                        y.off = std::min(y.off, t);
                        if (mode != 2) {
                            while (!y.pending.empty() && y.pending.back().t > t) {
                                y.pending.pop_back();
                            }
                        }
                    }
                }
                if (mode == 0) {
                    info.removeSource(gh(x), t);
                } else if (mode == 1) {
                    info.removeSource(x.name, t);
                } else {
                    info.disconnectFederate(GlobalFederateId(x.fed), t);
                }
                s.tag("removal");
                break;
            }
            case 6: {
                op = "clear future";
                s.note(op);
                info.clearFutureData();
                for (auto& x : src) {
                    x.pending.clear();
                }
                break;
            }
            default: {
                if (s.boolean()) {
                    noInt = s.boolean();
                    info.setProperty(defs::Options::IGNORE_INTERRUPTS, noInt ? 1 : 0);
                    op = pbt::cat("ignore interrupts ", noInt);
                } else {
                    int ms = s.pick({0, 500, 1000, 250});
                    gap = Time(ms, time_units::ms);
                    info.setProperty(defs::Options::TIME_RESTRICTED, ms);
                    op = pbt::cat("gap ", ms);
                    REQUIRE("gap", info.getProperty(defs::Options::TIME_RESTRICTED) == ms, op);
                }
                s.note(op);
                break;
            }
        }
        check(op);
    }
    if (accepted > 1 && updates > 0) {
        s.nontrivial();
    }
    if (ties > 0 && !prio.empty()) {
        s.tag("tie-with-priority");
    }
}

namespace {
using VD = std::vector<double>;
struct Val {
    DataType type{DataType::HELICS_DOUBLE};
    VD num;  // the elements as numbers (of unit-less sources)
    std::string str;  // for a string source
    std::string show;
};
bool close(double a, double b)
{
    return a == b || std::abs(a - b) <= 1e-9 * std::max({1.0, std::abs(a), std::abs(b)});
}
bool close(const VD& a, const VD& b)
{
    if (a.size() != b.size()) {
        return false;
    }
    for (std::size_t i = 0; i < a.size(); ++i) {
        if (!close(a[i], b[i])) {
            return false;
        }
    }
    return true;
}
double norm(const VD& v)
{
    double t = 0;
    for (auto x : v) {
        t += x * x;
    }
    return std::sqrt(t);
}
std::string show(const VD& v)
{
    std::string o = "[";
    for (auto x : v) {
        o += pbt::cat(x, " ");
    }
    return o + "]";
}
struct Federation {
    world::World w{{1}};
    std::string name{w.name};
    std::unique_ptr<ValueFederate> fed{std::make_unique<ValueFederate>(name, w.info())};
    ~Federation()
    {
        try {
            fed->finalize();
        }
        catch (...) {
        }
        fed.reset();
    }
};
}  // namespace

PROP(reduce, 1)
{
    Federation f;
    auto& fed = *f.fed;
    // numeric sources of several types, or strings only
    bool strings = s.chance(1, 4);
    auto n = 1 + s.draw(4);
    struct Pub {
        Publication* p;
        DataType type;
        double factor{1.0};  // to metres
        std::optional<Val> cur;
    };
    std::vector<Pub> pubs;
    bool vectors = s.chance(1, 3);
    bool units = !strings && !vectors && s.chance(1, 4);
    for (std::uint64_t i = 0; i < n; ++i) {
        DataType t = strings ? DataType::HELICS_STRING :
                     vectors ? s.pick({DataType::HELICS_VECTOR, DataType::HELICS_VECTOR, DataType::HELICS_DOUBLE}) :
                               s.pick({DataType::HELICS_DOUBLE, DataType::HELICS_INT, DataType::HELICS_DOUBLE, DataType::HELICS_BOOL});
        if (units && t == DataType::HELICS_BOOL) {
            t = DataType::HELICS_DOUBLE;
        }
        auto u = units ? s.draw(3) : 0;
        Pub p;
        p.p = &fed.registerGlobalPublication(pbt::cat(f.name, "_p", i), typeNameStringRef(t), units ? (u == 0 ? "m" : u == 1 ? "km" : "cm") : "");
        p.type = t;
        p.factor = u == 0 ? 1.0 : u == 1 ? 1000.0 : 0.01;
        pubs.push_back(p);
        s.note("pub ", static_cast<int>(t), " unit ", u);
    }
    using M = MultiInputHandlingMethod;
    auto op = s.pick({M::NO_OP, M::VECTORIZE_OPERATION, M::AND_OPERATION, M::OR_OPERATION, M::SUM_OPERATION, M::DIFF_OPERATION, M::MAX_OPERATION, M::MIN_OPERATION,
                      M::AVERAGE_OPERATION});
    DataType target = strings ? DataType::HELICS_STRING : vectors ? DataType::HELICS_VECTOR : s.pick({DataType::HELICS_DOUBLE, DataType::HELICS_DOUBLE, DataType::HELICS_INT});
    if (strings && (op == M::AVERAGE_OPERATION || op == M::AND_OPERATION || op == M::OR_OPERATION)) {
        op = M::SUM_OPERATION;
    }
    if (target == DataType::HELICS_INT && (units || op == M::SUM_OPERATION || op == M::AVERAGE_OPERATION || op == M::VECTORIZE_OPERATION)) {
        target = DataType::HELICS_DOUBLE;
    }
    s.note("op ", static_cast<int>(op), " target ", static_cast<int>(target));
    auto& in = fed.registerInput(f.name + "_in", typeNameStringRef(target), units ? "m" : "");
    // the order of the targets is the order of the values
    std::vector<std::size_t> order(n);
    std::iota(order.begin(), order.end(), 0U);
    for (std::size_t i = n; i > 1; --i) {
        std::swap(order[i - 1], order[s.draw(i)]);
    }
    for (auto i : order) {
        in.addTarget(pubs[i].p->getName());
    }
    in.setOption(HELICS_HANDLE_OPTION_MULTI_INPUT_HANDLING_METHOD, static_cast<int32_t>(op));
    REQUIRE("method", in.getOption(HELICS_HANDLE_OPTION_MULTI_INPUT_HANDLING_METHOD) == static_cast<int32_t>(op), "");
    std::vector<int> prio;
    while (s.chance(1, 3) && prio.size() < 4) {
        prio.push_back(static_cast<int>(s.draw(n)));
        in.setOption(HELICS_HANDLE_OPTION_INPUT_PRIORITY_LOCATION, prio.back());
        s.note("priority ", prio.back());
    }
    double delta = -1;
    if (!strings && !vectors && op != M::AND_OPERATION && op != M::OR_OPERATION && op != M::VECTORIZE_OPERATION && s.chance(1, 3)) {
        delta = s.pick({0.5, 2.0, 0.0});
        in.setMinimumChange(delta);
        s.note("delta ", delta);
    }
    fed.enterExecutingMode();
    bool early = s.chance(1, 4);
    if (early) {  // nothing published yet: reading is harmless
        (void)in.getValue<double>();
        (void)in.getValueRef<std::string>();
        (void)in.getValueRef<VD>();
        (void)in.getValue<std::complex<double>>();
        REQUIRE("early-update", !in.isUpdated(), "");
    }
    std::optional<VD> lastNum;
    std::vector<Time> when(n, Time::minVal());
    auto rounds = 1 + s.draw(4);
    for (std::uint64_t r = 0; r < rounds; ++r) {
        bool any = false;
        for (std::size_t i = 0; i < n; ++i) {
            if (!s.chance(2, 3)) {
                continue;
            }
            auto& p = pubs[i];
            Val v;
            v.type = p.type;
            switch (p.type) {
                case DataType::HELICS_STRING:
                    v.str = s.str(6, "ab\"\\ xyz1");
                    p.p->publish(v.str);
                    v.show = v.str;
                    break;
                case DataType::HELICS_INT: {
                    auto x = s.range<std::int64_t>(-20, 20);
                    p.p->publish(x);
                    v.num = {static_cast<double>(x) * p.factor};
                    break;
                }
                case DataType::HELICS_BOOL: {
                    bool x = s.boolean();
                    p.p->publish(x);
                    v.num = {x ? 1.0 : 0.0};
                    break;
                }
                case DataType::HELICS_VECTOR: {
                    VD x;
                    for (auto k = s.draw(4); k > 0; --k) {
                        x.push_back(static_cast<double>(s.range(-40, 40)) / 4.0);
                    }
                    p.p->publish(x);
                    v.num = x;
                    break;
                }
                default: {
                    double x = static_cast<double>(s.range(-400, 400)) / 16.0;
                    p.p->publish(x);
                    v.num = {x * p.factor};
                    break;
                }
            }
            s.note("t", r, " pub ", i, p.type == DataType::HELICS_STRING ? v.show : show(v.num));
            p.cur = v;
            when[i] = fed.getCurrentTime();
            any = true;
        }
        fed.requestNextStep();
        std::vector<const Val*> vals;
        for (auto i : order) {
            if (pubs[i].cur) {
                vals.push_back(&*pubs[i].cur);
            }
        }
        if (vals.empty()) {
            REQUIRE("no-update", !in.isUpdated(), "");
            continue;
        }
        if (strings) {
            std::string want;
            switch (op) {
                case M::NO_OP: {
                    int b = -1;
                    for (std::size_t k = 0; k < order.size(); ++k) {
                        auto i = order[k];
                        if (!pubs[i].cur) {
                            continue;
                        }
                        if (b < 0 || when[i] > when[order[b]]) {
                            b = static_cast<int>(k);
                        } else if (when[i] == when[order[b]]) {
                            for (auto q = prio.rbegin(); q != prio.rend() && *q != b; ++q) {
                                if (*q == static_cast<int>(k)) {
                                    b = static_cast<int>(k);
                                    break;
                                }
                            }
                        }
                    }
                    want = pubs[order[b]].cur->str;
                    break;
                }
                case M::SUM_OPERATION:
                    for (auto* v : vals) {
                        want += v->str;
                    }
                    break;
                case M::DIFF_OPERATION:
                    want = "0";
                    for (auto* v : vals) {
                        if (v->str != vals[0]->str) {
                            want = "1";
                        }
                    }
                    break;
                case M::MAX_OPERATION:
                    want = vals[0]->str;
                    for (auto* v : vals) {
                        want = std::max(want, v->str);
                    }
                    break;
                case M::MIN_OPERATION:
                    want = vals[0]->str;
                    for (auto* v : vals) {
                        want = std::min(want, v->str);
                    }
                    break;
                default: {
                    auto got = in.getValue<std::string>();
                    auto j = mj::parse(got);
                    REQUIRE("vectorize-json", j && j->kind == mj::Value::Arr && j->a.size() == vals.size(), "'", got, "' for ", vals.size(), " values");
                    for (std::size_t k = 0; k < vals.size(); ++k) {
                        REQUIRE("vectorize-string", j->a[k].s == vals[k]->str, "element ", k, " is '", j->a[k].s, "' expected '", vals[k]->str, "'");
                    }
                    s.nontrivial();
                    continue;
                }
            }
            auto got = s.boolean() ? in.getValue<std::string>() : std::string(in.getValueRef<std::string>());
            REQUIRE("string-result", got == want, "op ", static_cast<int>(op), " '", got, "' expected '", want, "'");
            s.nontrivial();
            continue;
        }
        VD want;
        VD all;
        for (auto* v : vals) {
            all.insert(all.end(), v->num.begin(), v->num.end());
        }
        bool asVector = false;
        bool defined = true;
        switch (op) {
            case M::NO_OP: {
                int b = -1;
                for (std::size_t k = 0; k < order.size(); ++k) {
                    auto i = order[k];
                    if (!pubs[i].cur) {
                        continue;
                    }
                    if (b < 0 || when[i] > when[order[b]]) {
                        b = static_cast<int>(k);
                    } else if (when[i] == when[order[b]]) {
                        for (auto q = prio.rbegin(); q != prio.rend() && *q != b; ++q) {
                            if (*q == static_cast<int>(k)) {
                                b = static_cast<int>(k);
                                break;
                            }
                        }
                    }
                }
                want = pubs[order[b]].cur->num;
                asVector = vectors;
                // sources of different types or units cannot be told apart without a reduction
                for (auto& p : pubs) {
                    defined = defined && p.type == pubs[0].type && p.factor == pubs[0].factor;
                }
                break;
            }
            case M::VECTORIZE_OPERATION:
                want = all;
                asVector = true;
                break;
            case M::AND_OPERATION: {
                bool b = true;
                for (auto* v : vals) {
                    b = b && norm(v->num) != 0;
                }
                want = {b ? 1.0 : 0.0};
                break;
            }
            case M::OR_OPERATION: {
                bool b = false;
                for (auto* v : vals) {
                    b = b || norm(v->num) != 0;
                }
                want = {b ? 1.0 : 0.0};
                break;
            }
            case M::SUM_OPERATION:
                want = {std::accumulate(all.begin(), all.end(), 0.0)};
                break;
            case M::AVERAGE_OPERATION:
                defined = !all.empty();
                want = {std::accumulate(all.begin(), all.end(), 0.0) / static_cast<double>(all.size())};
                break;
            case M::DIFF_OPERATION:
                if (vectors) {
                    for (std::size_t k = 1; k < all.size(); ++k) {
                        want.push_back(all[k - 1] - all[k]);
                    }
                    asVector = true;
                } else {
                    double x = vals[0]->num[0];
                    for (std::size_t k = 1; k < vals.size(); ++k) {
                        x -= target == DataType::HELICS_INT ? std::trunc(vals[k]->num[0]) : vals[k]->num[0];
                    }
                    want = {target == DataType::HELICS_INT ? std::trunc(vals[0]->num[0]) - (vals[0]->num[0] - x) : x};
                }
                break;
            default: {
                const Val* best = vals[0];
                for (auto* v : vals) {
                    if (vectors) {
                        if (op == M::MAX_OPERATION ? norm(v->num) > norm(best->num) : norm(v->num) < norm(best->num)) {
                            best = v;
                        }
                    } else if (op == M::MAX_OPERATION ? v->num[0] > best->num[0] : v->num[0] < best->num[0]) {
                        best = v;
                    }
                }
                want = best->num;
                asVector = vectors;
                break;
            }
        }
        if (target == DataType::HELICS_INT && op != M::NO_OP && !vectors && !want.empty()) {
            want[0] = std::trunc(want[0]);
        }
        if (!defined) {
            (void)in.getValue<VD>();
            s.tag("no-oracle");
            continue;
        }
        if (delta >= 0 && !asVector) {
            // only changes beyond the minimum are reported, and the reported value stays until then
            if (!any && op == M::NO_OP) {
                continue;
            }
            bool upd = in.isUpdated();
            bool expect = any && (!lastNum || std::abs(want[0] - (*lastNum)[0]) > delta);
            if (lastNum) {
                REQUIRE("change", upd == expect, "op ", static_cast<int>(op), " updated ", upd, " from ", (*lastNum)[0], " to ", want[0], " minimum ", delta);
            } else if (!upd) {
                continue;  // the first value is compared with the value an input starts with
            }
            if (upd) {
                lastNum = want;
            }
            want = *lastNum;
            s.tag("minimum-change");
        }
        if (asVector) {
            VD got = s.boolean() ? in.getValue<VD>() : in.getValueRef<VD>();
            REQUIRE("vector-result", close(got, want), "op ", static_cast<int>(op), " ", show(got), " expected ", show(want));
        } else {
            double got = in.getValue<double>();
            REQUIRE("result", close(got, want[0]), "op ", static_cast<int>(op), " target ", static_cast<int>(target), " ", got, " expected ", want[0]);
        }
        s.nontrivial();
        if (vals.size() > 1) {
            s.tag("several");
        }
    }
}
PBT_MAIN("queue: histories of up to 30 arrivals, time updates (exclusive, inclusive, next iteration), sources added, removed, disconnected and "
         "reconnected, priorities, minimum gaps and on-change filtering over one input, compared with a model after every step. reduce: a "
         "federate with one to four publications of one or several types and units and an input with every handling method, up to five "
         "time steps. Non-trivial: two values accepted and one update, or one reduction with a defined result checked.",
         30.0)
