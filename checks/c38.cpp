// C38: settings, options, tags and descriptions: in force as given last, however given, and nothing else changed.
#include "helics/application_api/CombinationFederate.hpp"
#include "helics/application_api/Endpoints.hpp"
#include "helics/application_api/Federate.hpp"
#include "helics/application_api/Filters.hpp"
#include "helics/application_api/Inputs.hpp"
#include "helics/application_api/Publications.hpp"
#include "helics/core/core-exceptions.hpp"
#include "helics/core/helics_definitions.hpp"

#include "minijson.hpp"
#include "pbt.hpp"
#include "world.hpp"

#include <cmath>
#include <map>
#include <vector>

using namespace helics;
namespace {
using ns = std::int64_t;
struct TimeProp {
    int code;
    const char* name;
    const char* arg;
};
const TimeProp timeProps[] = {{HELICS_PROPERTY_TIME_PERIOD, "period", "period"},
                              {HELICS_PROPERTY_TIME_OFFSET, "offset", "offset"},
                              {HELICS_PROPERTY_TIME_DELTA, "time_delta", "timedelta"},
                              {HELICS_PROPERTY_TIME_INPUT_DELAY, "input_delay", "inputdelay"},
                              {HELICS_PROPERTY_TIME_OUTPUT_DELAY, "output_delay", "outputdelay"},
                              {HELICS_PROPERTY_TIME_RT_LAG, "rt_lag", "rtlag"},
                              {HELICS_PROPERTY_TIME_RT_LEAD, "rt_lead", "rtlead"},
                              {HELICS_PROPERTY_TIME_RT_TOLERANCE, "rt_tolerance", "rttolerance"},
                              {HELICS_PROPERTY_TIME_GRANT_TIMEOUT, "grant_timeout", "grant_timeout"},
                              {HELICS_PROPERTY_TIME_STOPTIME, "stop_time", "stoptime"}};
struct IntProp {
    int code;
    const char* arg;
    int lo, hi;
};
const IntProp intProps[] = {{HELICS_PROPERTY_INT_MAX_ITERATIONS, "maxiterations", 1, 100000},
                            {HELICS_PROPERTY_INT_LOG_LEVEL, "loglevel", -4, 33},
                            {HELICS_PROPERTY_INT_VALUE_BUFFER_WARNING, "value_buffer_warning", 0, 70000},
                            {HELICS_PROPERTY_INT_INDEX_GROUP, nullptr, 0, 16},
                            {HELICS_PROPERTY_INT_LOG_BUFFER, nullptr, 0, 40000}};
struct FlagProp {
    int code;
    const char* name;
};
const FlagProp flagProps[] = {{HELICS_FLAG_UNINTERRUPTIBLE, "uninterruptible"},
                              {HELICS_FLAG_WAIT_FOR_CURRENT_TIME_UPDATE, "wait_for_current_time_update"},
                              {HELICS_FLAG_RESTRICTIVE_TIME_POLICY, "restrictive_time_policy"},
                              {HELICS_FLAG_EVENT_TRIGGERED, "event_triggered"},
                              {HELICS_FLAG_ONLY_TRANSMIT_ON_CHANGE, "only_transmit_on_change"},
                              {HELICS_FLAG_ONLY_UPDATE_ON_CHANGE, "only_update_on_change"},
                              {HELICS_FLAG_REALTIME, "realtime"},
                              {HELICS_FLAG_OBSERVER, "observer"},
                              {HELICS_FLAG_SOURCE_ONLY, "source_only"},
                              {HELICS_FLAG_REENTRANT, "reentrant"},
                              {HELICS_FLAG_SLOW_RESPONDING, "slow_responding"},
                              {HELICS_FLAG_TERMINATE_ON_ERROR, "terminate_on_error"},
                              {HELICS_FLAG_IGNORE_TIME_MISMATCH_WARNINGS, "ignore_time_mismatch_warnings"},
                              {HELICS_HANDLE_OPTION_STRICT_TYPE_CHECKING, "strict_input_type_checking"},
                              {HELICS_HANDLE_OPTION_IGNORE_UNIT_MISMATCH, "ignore_unit_mismatch"},
                              {HELICS_HANDLE_OPTION_CONNECTION_REQUIRED, "connection_required"},
                              {HELICS_HANDLE_OPTION_CONNECTION_OPTIONAL, "connection_optional"},
                              {HELICS_HANDLE_OPTION_RECONNECTABLE, "reconnectable"}};
struct Model {
    std::map<int, ns> times;
    std::map<int, int> ints;
    std::map<int, bool> flags;
    void setTime(int c, ns v)
    {
        if (c == HELICS_PROPERTY_TIME_RT_TOLERANCE) {
            times[HELICS_PROPERTY_TIME_RT_LAG] = times[HELICS_PROPERTY_TIME_RT_LEAD] = v;
        } else if (c == HELICS_PROPERTY_TIME_RT_LAG) {
            times[HELICS_PROPERTY_TIME_RT_TOLERANCE] = v;
        }
        if (c == HELICS_PROPERTY_TIME_DELTA && v <= 0) {
            v = 1;
        }
        times[c] = v;
    }
    void setFlag(int c, bool v)
    {
        if (v && c == HELICS_FLAG_OBSERVER) {
            flags[HELICS_FLAG_SOURCE_ONLY] = false;
        }
        if (v && c == HELICS_FLAG_SOURCE_ONLY) {
            flags[HELICS_FLAG_OBSERVER] = false;
        }
        flags[c] = v;
    }
    void read(const Federate& f)
    {
        for (auto& p : timeProps) {
            times[p.code] = f.getTimeProperty(p.code).getBaseTimeCode();
        }
        for (auto& p : intProps) {
            ints[p.code] = f.getIntegerProperty(p.code);
        }
        for (auto& p : flagProps) {
            flags[p.code] = f.getFlagOption(p.code);
        }
    }
    void compare(const Federate& f, const char* when) const
    {
        for (auto& p : timeProps) {
            auto got = f.getTimeProperty(p.code).getBaseTimeCode();
            REQUIRE("time", got == times.at(p.code), when, p.name, " is ", got, ", set ", times.at(p.code));
        }
        for (auto& p : intProps) {
            auto got = f.getIntegerProperty(p.code);
            REQUIRE("int", got == ints.at(p.code), when, p.code, " is ", got, ", set ", ints.at(p.code));
        }
        for (auto& p : flagProps) {
            auto got = f.getFlagOption(p.code);
            REQUIRE("flag", got == flags.at(p.code), when, p.name, " is ", got, ", set ", flags.at(p.code));
        }
        REQUIRE("interruptible", f.getFlagOption(HELICS_FLAG_INTERRUPTIBLE) == !flags.at(HELICS_FLAG_UNINTERRUPTIBLE), "interruptible");
    }
};
int levelCode(const std::string& n)
{
    static const std::map<std::string, int> codes{{"no_print", HELICS_LOG_LEVEL_NO_PRINT}, {"error", HELICS_LOG_LEVEL_ERROR}, {"warning", HELICS_LOG_LEVEL_WARNING}, {"summary", HELICS_LOG_LEVEL_SUMMARY},
                                                  {"interfaces", HELICS_LOG_LEVEL_INTERFACES}, {"timing", HELICS_LOG_LEVEL_TIMING}, {"debug", HELICS_LOG_LEVEL_DEBUG}, {"trace", HELICS_LOG_LEVEL_TRACE}};
    return codes.at(n);
}
std::string spell(pbt::Src& s, const std::string& name)
{
    // snake_case, camelCase, lower case
    switch (s.draw(3)) {
        case 0:
            return name;
        case 1: {
            std::string out;
            for (std::size_t i = 0; i < name.size(); ++i) {
                if (name[i] == '_' && i + 1 < name.size()) {
                    out += static_cast<char>(toupper(name[++i]));
                } else {
                    out += name[i];
                }
            }
            return out;
        }
        default: {
            std::string out;
            for (auto c : name) {
                if (c != '_') {
                    out += c;
                }
            }
            return out;
        }
    }
}
ns aTime(pbt::Src& s, int code)
{
    if (code == HELICS_PROPERTY_TIME_GRANT_TIMEOUT) {
        return static_cast<ns>(s.range(2000, 9000)) * 1000000000;
    }
    ns v = static_cast<ns>(s.range(0, 5000)) * 1000000;
    return v;
}
std::string timeText(pbt::Src& s, ns v)
{
    ns ms = v / 1000000;
    switch (s.draw(3)) {
        case 0:
            return std::to_string(ms) + "ms";
        case 1:
            return std::to_string(ms * 1000) + "us";
        default:
            return std::to_string(ms / 1000) + "." + (ms % 1000 < 100 ? (ms % 1000 < 10 ? "00" : "0") : "") + std::to_string(ms % 1000) + "s";
    }
}
}  // namespace

PROP(federate, 8)
{
    world::World w({2}, "", "");
    FederateInfo plain = w.info(0);
    auto base = std::make_unique<Federate>(w.name + "base", plain);
    Model m;
    m.read(*base);
    const Model untouched = m;
    FederateInfo fi = w.info(0);
    // the text first
    int way = static_cast<int>(s.draw(4));
    std::string args, json, toml;
    std::vector<std::string> flagNames;
    std::map<int, bool> seen;
    int n = way == 0 ? 0 : static_cast<int>(s.range(1, 7));
    for (int i = 0; i < n; ++i) {
        int what = static_cast<int>(s.weighted({4, 2, 4}));
        if (what == 0) {
            auto& p = timeProps[s.draw(10)];
            if (seen[p.code] || (p.code >= HELICS_PROPERTY_TIME_RT_LAG && p.code <= HELICS_PROPERTY_TIME_RT_TOLERANCE && (seen[HELICS_PROPERTY_TIME_RT_LAG] || seen[HELICS_PROPERTY_TIME_RT_LEAD] || seen[HELICS_PROPERTY_TIME_RT_TOLERANCE]))) {
                continue;
            }
            seen[p.code] = true;
            auto v = aTime(s, p.code);
            auto txt = timeText(s, v);
            m.setTime(p.code, v);
            args += std::string(" --") + p.arg + (s.boolean() ? "=" : " ") + (s.chance(1, 4) ? std::to_string(v / 1000000) : txt);
            std::string val = s.chance(1, 4) ? (v % 1000000000 == 0 ? std::to_string(v / 1000000000) : std::to_string(v / 1000000) + "e-3") : '"' + txt + '"';
            auto nm = spell(s, p.name);
            json += (json.empty() ? "\"" : ",\"") + nm + "\":" + val;
            toml += nm + "=" + (val[0] == '"' ? val : "\"" + txt + "\"") + "\n";
        } else if (what == 1) {
            auto& p = intProps[s.draw(3)];
            if (seen[p.code]) {
                continue;
            }
            seen[p.code] = true;
            int v = p.code == HELICS_PROPERTY_INT_LOG_LEVEL ? s.pick(std::vector<int>{-4, 0, 3, 6, 12, 15, 21, 30}) : static_cast<int>(s.range(p.lo, p.hi));
            m.ints[p.code] = v;
            // levels are given by name in text
            static const std::map<int, std::string> levels{{-4, "no_print"}, {0, "error"}, {3, "warning"}, {6, "summary"}, {12, "interfaces"}, {15, "timing"}, {21, "debug"}, {30, "trace"}};
            auto num = p.code == HELICS_PROPERTY_INT_LOG_LEVEL ? levels.at(v) : std::to_string(v);
            m.ints[p.code] = v = p.code == HELICS_PROPERTY_INT_LOG_LEVEL ? levelCode(num) : v;
            args += std::string(" --") + p.arg + "=" + num;
            num = p.code == HELICS_PROPERTY_INT_LOG_LEVEL ? "\"" + num + "\"" : num;
            json += std::string(json.empty() ? "\"" : ",\"") + p.arg + "\":" + num;
            toml += std::string(p.arg) + "=" + num + "\n";
        } else {
            auto& p = flagProps[s.draw(18)];
            int key = (p.code == HELICS_FLAG_OBSERVER || p.code == HELICS_FLAG_SOURCE_ONLY) ? HELICS_FLAG_OBSERVER : p.code;
            if (seen[key]) {
                continue;
            }
            seen[key] = true;
            bool v = s.chance(3, 4);
            m.setFlag(p.code, v);
            auto nm = spell(s, p.name);
            args += std::string(" --flags=") + (v ? "" : "-") + nm;
            json += (json.empty() ? "\"" : ",\"") + nm + "\":" + (v ? "true" : "false");
            toml += nm + "=" + (v ? "true" : "false") + "\n";
        }
        s.nontrivial();
    }
    if (!args.empty()) {
        if (way == 1) {
            s.note("args ", args);
            s.tag("args");
            if (s.boolean()) {
                fi.loadInfoFromArgsIgnoreOutput(args);
            } else {
                fi.loadInfoFromArgs(args);
            }
        } else if (way == 2) {
            bool nested = s.chance(1, 4);
            json = nested ? "{\"helics\":{" + json + "}}" : "{" + json + "}";
            s.note("json ", json);
            s.tag("json");
            fi.loadInfoFromJson(json);
        } else if (way == 3) {
            s.note("toml ", toml);
            s.tag("toml");
            fi.loadInfoFromToml(toml);
        }
    }
    // then calls on the description of the federate
    int k = static_cast<int>(s.range(0, 6));
    auto call = [&](auto& target, bool live) {
        int what = static_cast<int>(s.weighted({4, 3, 4}));
        if (what == 0) {
            auto& p = timeProps[s.draw(10)];
            auto v = aTime(s, p.code);
            s.note("set ", p.name, " ", v);
            m.setTime(p.code, v);
            if (s.boolean()) {
                target.setProperty(p.code, Time(v, time_units::ns));
            } else {
                target.setProperty(p.code, static_cast<double>(v) * 1e-9);
            }
        } else if (what == 1) {
            auto& p = intProps[s.draw(5)];
            int v = p.code == HELICS_PROPERTY_INT_LOG_LEVEL ? s.pick(std::vector<int>{-4, 0, 3, 6, 12, 15, 21, 30}) : static_cast<int>(s.range(p.lo, p.hi));
            s.note("set ", p.code, " ", v);
            m.ints[p.code] = v;
            target.setProperty(p.code, v);
        } else {
            auto& p = flagProps[s.draw(18)];
            bool v = s.boolean();
            s.note("set ", p.name, " ", v);
            m.setFlag(p.code, v);
            target.setFlagOption(p.code, v);
        }
        (void)live;
        s.nontrivial();
    };
    for (int i = 0; i < k; ++i) {
        call(fi, false);
    }
    Federate f(w.name + "f", fi);
    m.compare(f, "created: ");
    k = static_cast<int>(s.range(0, 8));
    for (int i = 0; i < k; ++i) {
        call(f, true);
        m.compare(f, "set: ");
    }
    untouched.compare(*base, "another federate: ");
    if (s.chance(1, 3) && !m.flags[HELICS_FLAG_REALTIME]) {
        // while it runs, in force with the next request
        s.tag("running");
        base->enterExecutingModeAsync();
        f.enterExecutingMode();
        base->enterExecutingModeComplete();
        base->finalize();
        m.compare(f, "executing: ");
        auto& fixed = m;
        Model keep = m;
        k = static_cast<int>(s.range(1, 8));
        for (int i = 0; i < k; ++i) {
            call(f, true);
        }
        f.setFlagOption(HELICS_FLAG_REALTIME, false);
        fixed.flags[HELICS_FLAG_REALTIME] = false;
        for (auto c : {HELICS_FLAG_OBSERVER, HELICS_FLAG_SOURCE_ONLY, HELICS_FLAG_REENTRANT}) {
            fixed.flags[c] = keep.flags[c];
        }
        f.requestTime(1.0);
        m.compare(f, "running: ");
    }
    base->finalize();
    f.finalize();
}

PROP(interfaces, 5)
{
    world::World w({1}, "", "");
    auto f = std::make_unique<CombinationFederate>(w.name + "f", w.info(0));
    struct Item {
        std::unique_ptr<Interface> own;
        Interface* i;
        char type;
        std::map<int, int> opts;
        std::map<std::string, std::string> tags;
        std::string info;
    };
    std::vector<Item> items;
    int n = static_cast<int>(s.range(1, 5));
    for (int i = 0; i < n; ++i) {
        Item it{};
        auto nm = "i" + std::to_string(i);
        it.type = "ipef"[s.draw(4)];
        switch (it.type) {
            case 'i':
                it.i = &f->registerInput<double>(nm);
                break;
            case 'p':
                it.i = &f->registerPublication<double>(nm);
                break;
            case 'e':
                it.i = &f->registerEndpoint(nm);
                break;
            default:
                it.i = &f->registerFilter(nm);
        }
        items.push_back(std::move(it));
    }
    auto boolOpts = [](char t) {
        std::vector<int> v{HELICS_HANDLE_OPTION_CONNECTION_REQUIRED, HELICS_HANDLE_OPTION_CONNECTION_OPTIONAL};
        if (t == 'i') {
            v.insert(v.end(), {HELICS_HANDLE_OPTION_IGNORE_INTERRUPTS, HELICS_HANDLE_OPTION_ONLY_UPDATE_ON_CHANGE, HELICS_HANDLE_OPTION_STRICT_TYPE_CHECKING, HELICS_HANDLE_OPTION_IGNORE_UNIT_MISMATCH});
        } else if (t == 'p') {
            v.insert(v.end(), {HELICS_HANDLE_OPTION_ONLY_TRANSMIT_ON_CHANGE, HELICS_HANDLE_OPTION_BUFFER_DATA});
        } else if (t == 'e') {
            v.insert(v.end(), {HELICS_HANDLE_OPTION_SOURCE_ONLY, HELICS_HANDLE_OPTION_RECEIVE_ONLY});
        }
        if (t != 'f') {
            v.insert(v.end(), {HELICS_HANDLE_OPTION_SINGLE_CONNECTION_ONLY, HELICS_HANDLE_OPTION_MULTIPLE_CONNECTIONS_ALLOWED});
        }
        return v;
    };
    auto intOpts = [](char t) {
        std::vector<int> v;
        if (t == 'i') {
            v = {HELICS_HANDLE_OPTION_INPUT_PRIORITY_LOCATION, HELICS_HANDLE_OPTION_TIME_RESTRICTED, HELICS_HANDLE_OPTION_MULTI_INPUT_HANDLING_METHOD};
        } else if (t == 'p') {
            v = {HELICS_HANDLE_OPTION_TIME_RESTRICTED};
        }
        return v;
    };
    for (auto& it : items) {
        for (auto o : boolOpts(it.type)) {
            it.opts[o] = it.i->getOption(o);
        }
        for (auto o : intOpts(it.type)) {
            it.opts[o] = it.i->getOption(o);
        }
    }
    auto coreApp = w.cores[0];
    std::map<std::string, std::string> coreTags, fedTags;
    auto tagName = [&] { return s.pick(std::vector<std::string>{"a", "b", "tag one", "ä", "x\"y", "a\\", "long_tag_name_for_a_change_of_storage"}); };
    auto tagValue = [&] { return s.pick(std::vector<std::string>{"1", "v", "true", "two words", "\"q\"", "a\\b", "new\nline", "[1,2]", "ü"}); };
    int steps = static_cast<int>(s.range(1, 20));
    for (int k = 0; k < steps; ++k) {
        auto& it = items[s.draw(items.size())];
        switch (s.weighted({8, 4, 4, 2, 3, 3})) {
            case 0: {
                auto v = boolOpts(it.type);
                int o = s.pick(v);
                bool on = s.boolean();
                s.note(it.type, " option ", o, " ", on);
                it.i->setOption(o, on ? 1 : 0);
                it.opts[o] = on ? 1 : 0;
                if (on && o == HELICS_HANDLE_OPTION_CONNECTION_REQUIRED) {
                    it.opts[HELICS_HANDLE_OPTION_CONNECTION_OPTIONAL] = 0;
                }
                if (on && o == HELICS_HANDLE_OPTION_CONNECTION_OPTIONAL) {
                    it.opts[HELICS_HANDLE_OPTION_CONNECTION_REQUIRED] = 0;
                }
                if (o == HELICS_HANDLE_OPTION_SINGLE_CONNECTION_ONLY) {
                    it.opts[HELICS_HANDLE_OPTION_MULTIPLE_CONNECTIONS_ALLOWED] = on ? 0 : 1;
                }
                if (o == HELICS_HANDLE_OPTION_MULTIPLE_CONNECTIONS_ALLOWED) {
                    it.opts[HELICS_HANDLE_OPTION_SINGLE_CONNECTION_ONLY] = on ? 0 : 1;
                }
                s.nontrivial();
                break;
            }
            case 1: {
                auto v = intOpts(it.type);
                if (v.empty()) {
                    break;
                }
                int o = s.pick(v);
                int x = o == HELICS_HANDLE_OPTION_MULTI_INPUT_HANDLING_METHOD ?
                    s.pick(std::vector<int>{HELICS_MULTI_INPUT_NO_OP, HELICS_MULTI_INPUT_VECTORIZE_OPERATION, HELICS_MULTI_INPUT_SUM_OPERATION, HELICS_MULTI_INPUT_MAX_OPERATION}) :
                    static_cast<int>(s.range(1, 100000));
                s.note(it.type, " option ", o, " ", x);
                it.i->setOption(o, x);
                it.opts[o] = x;
                s.nontrivial();
                break;
            }
            case 2: {
                auto t = tagName();
                auto v = s.chance(1, 5) ? std::string() : tagValue();
                s.note(it.type, " tag ", t, "=", v);
                it.i->setTag(t, v);
                it.tags[t] = v.empty() ? "true" : v;
                s.nontrivial();
                break;
            }
            case 3: {
                auto v = s.chance(1, 5) ? std::string() : tagValue();
                s.note(it.type, " info ", v);
                it.i->setInfo(v);
                it.info = v;
                break;
            }
            case 4: {
                auto t = tagName();
                auto v = tagValue();
                s.note("federate tag ", t, "=", v);
                f->setTag(t, v);
                fedTags[t] = v;
                break;
            }
            default: {
                auto t = s.pick(std::vector<std::string>{"a", "b", "long_tag_name_for_a_change_of_storage"});
                auto v = s.pick(std::vector<std::string>{"1", "v", "true", "two words"});
                s.note("core tag ", t, "=", v);
                coreApp->setFederateTag(gLocalCoreId, t, v);
                coreTags[t] = v;
            }
        }
        for (auto& x : items) {
            for (auto& o : x.opts) {
                auto got = x.i->getOption(o.first);
                REQUIRE("option", got == o.second, x.type, " ", x.i->getName(), " option ", o.first, " is ", got, ", set ", o.second);
            }
            for (auto& t : x.tags) {
                REQUIRE("tag", x.i->getTag(t.first) == t.second, x.type, " tag ", t.first, " is ", x.i->getTag(t.first), ", set ", t.second);
            }
            REQUIRE("no-tag", x.i->getTag("none").empty(), "a tag nobody set");
            REQUIRE("info", x.i->getInfo() == x.info, "info is ", x.i->getInfo(), ", set ", x.info);
        }
        for (auto& t : fedTags) {
            REQUIRE("fed-tag", f->getTag(t.first) == t.second, t.first, " is ", f->getTag(t.first), ", set ", t.second);
        }
    }
    for (auto& t : coreTags) {
        auto got = coreApp->getFederateTag(gLocalCoreId, t.first);
        REQUIRE("core-tag", got == t.second, t.first, " is ", got, ", set ", t.second);
    }
    // what others are told
    if (!coreTags.empty()) {
        auto q = f->query(w.coreName(0), "tags");
        auto j = mj::parse(q);
        REQUIRE("core-tags-query", j && j->kind == mj::Value::Obj && j->o.size() == coreTags.size(), q);
    }
    {
        auto q = f->query(f->getName(), "tags");
        auto j = mj::parse(q);
        REQUIRE("tags-json", j && j->kind == mj::Value::Obj, q);
        for (auto& t : fedTags) {
            const auto* v = j->get(t.first);
            REQUIRE("tags-query", v != nullptr && v->kind == mj::Value::Str && v->s == t.second, t.first, " in ", q);
        }
    }
    f->finalize();
}

PBT_MAIN("at least one setting, option or tag was given", 60)
