// C17: names and defaults: core types, ports, properties, flags, options, option values, data types.
#include "helics/application_api/helicsTypes.hpp"
#include "helics/application_api/typeOperations.hpp"
#include "helics/core/CoreTypes.hpp"
#include "helics/core/basic_CoreTypes.hpp"
#include "helics/core/coreTypeOperations.hpp"
#include "helics/network/networkDefaults.hpp"
#include "helics/shared_api_library/helicsCore.h"
#include "helics/shared_api_library/MessageFederate.h"
#include "helics/shared_api_library/ValueFederate.h"

#include "names.hpp"
#include "pbt.hpp"

using namespace helics;
namespace {
std::string lower(std::string s)
{
    for (auto& c : s) {
        if (c >= 'A' && c <= 'Z') {
            c = static_cast<char>(c + 32);
        }
    }
    return s;
}
std::string anyCase(pbt::Src& s, std::string v)
{
    auto m = s.draw(4);
    for (auto& c : v) {
        bool up = m == 0 ? false : m == 1 ? true : s.boolean();
        if (m != 3 && ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))) {
            c = up ? static_cast<char>(c & ~32) : static_cast<char>(c | 32);
        }
    }
    return v;
}
int find(const names::Table& t, const std::string& v)
{
    for (auto& [n, i] : t) {
        if (n == v) {
            return i;
        }
    }
    return -999;
}
std::string noUnder(std::string v)
{
    v.erase(std::remove(v.begin(), v.end(), '_'), v.end());
    return v;
}
// reference resolution of an option name: as given, lower case, lower case without underscores
int ref(const names::Table& t, const std::string& v, bool under = true)
{
    for (auto& c : under ? std::vector<std::string>{v, lower(v), noUnder(lower(v))} :
                           std::vector<std::string>{v, lower(v)}) {
        auto r = find(t, c);
        if (r != -999) {
            return r;
        }
    }
    return -999;
}
std::string garble(pbt::Src& s, std::string n)
{
    switch (s.draw(6)) {
        case 0:
            n.insert(s.draw(n.size() + 1), 1, static_cast<char>('a' + s.draw(26)));
            break;
        case 1:
            if (!n.empty()) {
                n.erase(s.draw(n.size()), 1);
            }
            break;
        case 2:
            n.insert(s.draw(n.size() + 1), "_");
            break;
        case 3:
            n = s.bytes(12);
            n.erase(std::remove(n.begin(), n.end(), '\0'), n.end());
            break;
        default:
            break;
    }
    return n;
}
int refCore(std::string v)
{
    if (v.empty()) {
        return 0;
    }
    if (v.back() == '_') {
        v.pop_back();
    }
    auto r = ref(names::coreNames, v, false);
    if (r != -999) {
        return r;
    }
    auto l = lower(v);
    if (!l.empty() && (l[0] == '=' || l[0] == '-')) {
        return refCore(l.substr(1));
    }
    static const names::Table prefixes{{"zmqss", 10}, {"zmq_ss", 10}, {"zmq2", 10}, {"zmq", 1}, {"ipc", 4}, {"test", 3},
        {"tcpss", 11}, {"tcp", 6}, {"udp", 7}, {"http", 12}, {"mpi", 2}, {"inproc", 18}, {"web", 14}, {"null", 66}};
    for (auto& [p, i] : prefixes) {
        if (v.compare(0, p.size(), p) == 0) {
            return i;
        }
    }
    return 22;
}
}  // namespace

PROP(coreNames, 4)
{
    auto base = s.pick(names::coreNames);
    auto n = base.first;
    int kind = static_cast<int>(s.draw(5));
    if (kind == 0) {
        n = anyCase(s, n);
        REQUIRE("case", static_cast<int>(coreTypeFromString(n)) == base.second, n, " gives ",
                static_cast<int>(coreTypeFromString(n)), " not ", base.second);
        s.nontrivial();
    } else if (kind == 1) {
        n = std::string(s.draw(3), '-') + std::string(s.draw(2), '=') + n + (s.boolean() ? "_" : "");
        s.nontrivial();
    } else if (kind == 2) {
        n += s.str(6, "_0123456789sx- ");
        s.nontrivial();
    } else {
        n = garble(s, n);
    }
    s.note("core type '", n, "'");
    auto got = static_cast<int>(coreTypeFromString(n));
    if (n.empty() || lower(n).find_first_not_of("-=_") == std::string::npos) {
        REQUIRE("resolves", got == 0 || got == 22, "'", n, "' resolves to ", got);
        return;
    }
    auto want = refCore(n);
    REQUIRE("resolves", got == want, "'", n, "' resolves to ", got, " not ", want);
    REQUIRE("same", core::coreTypeFromString(n) == coreTypeFromString(n), n);
}
PROP(coreRoundTrip, 3)
{
    int v = s.boolean() ? s.pick(names::coreNames).second : s.range(-3, 110);
    s.note("core type ", v);
    auto t = static_cast<CoreType>(v);
    auto str = to_string(t);
    static const std::set<int> named{1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14, 18, 66, 77};
    if (named.count(v) != 0) {
        s.nontrivial();
        REQUIRE("named", !str.empty(), v, " has no name");
        auto back = static_cast<int>(coreTypeFromString(str));
        REQUIRE("roundtrip", back == v || (v == 5 && back == 4), v, " is written ", str, " and read as ", back);
        // generated core names start with this string; they still identify the type
        if (v != 9 && v != 77) {
            auto name = str + s.str(8, "abcdef0123456789-");
            auto b2 = static_cast<int>(coreTypeFromString(name));
            REQUIRE("prefix", b2 == v || (v == 5 && b2 == 4), v, ": ", name, " is read as ", b2);
        }
    } else {
        REQUIRE("unnamed", str.empty(), v, " is written ", str);
    }
    REQUIRE("unavailable", !isCoreTypeAvailable(t) || v == 0 || named.count(v) != 0, v, " is available");
    REQUIRE("available", isCoreTypeAvailable(t) == core::isCoreTypeAvailable(t), v);
    REQUIRE("pair", isCoreTypeAvailable(CoreType::ZMQ) == isCoreTypeAvailable(CoreType::ZMQ_SS), "zmq and zmqss");
    REQUIRE("never", !isCoreTypeAvailable(CoreType::NULLCORE), "null core available");
}
PROP(ports, 2)
{
    int v = s.boolean() ? s.pick(names::coreNames).second : s.range(-10, 120);
    s.note("port of ", v);
    static const std::map<int, int> want{{6, 24160}, {11, 33133}, {1, 23404}, {10, 23414}, {7, 23901}, {12, 80}, {14, 80}};
    auto it = want.find(v);
    auto got = getDefaultPort(v);
    REQUIRE("port", got == (it == want.end() ? -1 : it->second), "type ", v, " has default port ", got);
    if (it != want.end()) {
        s.nontrivial();
    }
    // brokers of different transports on one host do not collide
    std::set<int> all;
    for (int t : {1, 6, 7, 10, 11}) {
        REQUIRE("distinct", all.insert(getDefaultPort(t)).second, "two transports share a default port");
    }
}
PROP(options, 5)
{
    int which = static_cast<int>(s.draw(4));
    auto& tab = which == 0 ? names::propNames : which == 1 ? names::flagNames : which == 2 ? names::optionNames : names::valueNames;
    auto base = s.pick(tab);
    auto n = base.first;
    bool exact = s.chance(3, 5);
    if (which == 3 && s.chance(1, 4)) {
        base = s.pick(names::logNames);
        n = base.first;
    }
    n = exact ? anyCase(s, n) : garble(s, n);
    s.note("table ", which, " '", n, "'");
    auto get = [&](const std::string& v) {
        return which == 0 ? helicsGetPropertyIndex(v.c_str()) :
            which == 1    ? helicsGetFlagIndex(v.c_str()) :
            which == 2    ? helicsGetOptionIndex(v.c_str()) :
                            helicsGetOptionValue(v.c_str());
    };
    auto got = get(n);
    if (exact) {
        s.nontrivial();
        if (find(names::valueNames, base.first) == -999 || which != 3) {
            REQUIRE("case", got == base.second, "'", n, "' of table ", which, " gives ", got, " not ", base.second);
        }
    }
    int want = -999;
    switch (which) {
        case 0:
            // a property name may also be a flag name
            for (auto& c : {n, lower(n)}) {
                want = want == -999 ? find(names::propNames, c) : want;
            }
            want = want == -999 ? ref(names::flagNames, lower(n)) : want;
            want = want == -999 ? find(names::propNames, noUnder(lower(n))) : want;
            break;
        case 1:
            want = ref(names::flagNames, n);
            break;
        case 2:
            want = ref(names::optionNames, n);
            break;
        default:
            for (auto& c : {n, lower(n)}) {
                want = want == -999 ? find(names::valueNames, c) : want;
                want = want == -999 ? find(names::logNames, c) : want;
            }
            break;
    }
    if (want == -999) {
        REQUIRE("unknown", got < 0, "'", n, "' of table ", which, " gives ", got, " but is not a documented name");
    } else {
        REQUIRE("index", got == want, "'", n, "' of table ", which, " gives ", got, " not ", want);
    }
}
PROP(dataTypes, 4)
{
    auto base = s.pick(names::typeNames);
    bool exact = s.chance(1, 2);
    auto n = exact ? anyCase(s, base.first) : garble(s, base.first);
    s.note("type '", n, "'");
    auto got = getTypeFromString(n);
    if (exact) {
        s.nontrivial();
        REQUIRE("type", static_cast<int>(got) == base.second, "'", n, "' is type ", static_cast<int>(got), " not ", base.second);
    } else if (!n.empty() && n[0] == '[') {
        REQUIRE("multi", got == DataType::HELICS_MULTI, n);
    } else if (ref(names::typeNames, n, false) != -999) {
        REQUIRE("type", static_cast<int>(got) == ref(names::typeNames, n, false), n);
    } else if (n.size() > 2 && n.find_first_of("KPSt0123456789<>:") == std::string::npos) {
        REQUIRE("custom", got == DataType::HELICS_CUSTOM, "'", n, "' is type ", static_cast<int>(got));
    }
    if (s.chance(1, 20)) {
        n = anyCase(s, s.pick({"map", "raw", "custom"}));
        got = getTypeFromString(n);
    }
    auto ln = lower(n);
    int wantC = got != DataType::HELICS_CUSTOM ? static_cast<int>(got) :
        (ln == "map" || ln == "raw" || ln == "custom") ? HELICS_DATA_TYPE_RAW : HELICS_DATA_TYPE_UNKNOWN;
    REQUIRE("capi", helicsGetDataType(n.c_str()) == wantC, n, " gives ", helicsGetDataType(n.c_str()), " in the C API");
    std::string cleaned(getCleanedTypeName(n));
    REQUIRE("cleaned", getTypeFromString(cleaned) == got, "'", n, "' cleans to '", cleaned, "'");
    auto canon = typeNameStringRef(got);
    if (!canon.empty()) {
        REQUIRE("canon", getTypeFromString(canon) == got, canon);
    }
    // matchingTypes: symmetric, reflexive, and the generic types match everything
    auto b = s.boolean() ? s.pick(names::typeNames).first : garble(s, s.pick(names::typeNames).first);
    auto m1 = core::matchingTypes(n, b);
    REQUIRE("symmetric", m1 == core::matchingTypes(b, n), "'", n, "' '", b, "'");
    REQUIRE("reflexive", core::matchingTypes(n, n), n);
    static const std::set<std::string> generic{"any", "all", "data", "string", "block", ""};
    auto gen = [&](const std::string& x) { return generic.count(x) != 0 || x.compare(0, 3, "def") == 0; };
    REQUIRE("match", m1 == (n == b || gen(n) || gen(b)), "'", n, "' and '", b, "' match: ", m1);
}
PROP(interfaceNames, 1)
{
    auto c = static_cast<char>(s.range(0, 127));
    static const std::map<char, std::string> want{{'p', "Publication"}, {'i', "Input"}, {'e', "Endpoint"}, {'f', "Filter"}, {'t', "Translator"}};
    auto it = want.find(c);
    std::string got(interfaceTypeName(static_cast<InterfaceType>(c)));
    s.note("interface ", static_cast<int>(c), " ", got);
    REQUIRE("iname", got == (it == want.end() ? "Interface" : it->second), "interface '", c, "' is named ", got);
    if (it != want.end()) {
        s.nontrivial();
    }
}
PBT_MAIN("the name is a documented one in some spelling, or the type has a name", 20)
