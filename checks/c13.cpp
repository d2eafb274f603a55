// C13: identifiers are faithful: distinct raw values give distinct, consistently ordered and hashed
// identifiers; federate, broker, special and reserved identifiers never overlap.
#include "helics/core/GlobalFederateId.hpp"
#include "helics/core/LocalFederateId.hpp"

#include "pbt.hpp"

#include <iomanip>
#include <unordered_set>

using namespace helics;
namespace {
std::int32_t raw(pbt::Src& s)
{
    static const std::vector<std::int32_t> edges{0,           1,           -1,          2,           -259,        -235262,     -1745234,
                                                 0x0001FFFF,  0x00020000,  0x00020001,  0x6FFFFFFF,  0x70000000,  0x70000001,  0x6FFFFFFE,
                                                 -1700000000, -1699999999, -1700000001, -2000000000, -2010000000, -1295148000, 2147483647,
                                                 INT32_MIN,   -2010000001, -1999999999, 0x6FFFFFFA};
    switch (s.draw(4)) {
        case 0:
            return s.pick(edges);
        case 1:
            return static_cast<std::int32_t>(s.pick(edges) + static_cast<std::int64_t>(s.draw(9)) - 4);
        case 2:
            return static_cast<std::int32_t>(s.bits());
        default:
            return static_cast<std::int32_t>(s.draw(4000)) - 1000;
    }
}
template<class T>
std::string text(const T& v)
{
    std::ostringstream o;
    o << v;
    return o.str();
}
template<class T>
void pairLaws(const char* n, std::int32_t a, std::int32_t b)
{
    T x(a);
    T y(b);
    REQUIRE("base-value", x.baseValue() == a, n, " ", a, " -> ", x.baseValue());
    REQUIRE("equal", (x == y) == (a == b), n, " ", a, " ", b);
    REQUIRE("unequal", (x != y) == (a != b), n, " ", a, " ", b);
    REQUIRE("less", (x < y) == (a < b), n, " ", a, " ", b);
    if constexpr (requires { x > y; }) {
        REQUIRE("greater", (x > y) == (a > b), n, " ", a, " ", b);
    }
    std::hash<T> h;
    REQUIRE("hash-equal", a != b || h(x) == h(y), n, " ", a);
    REQUIRE("hash-distinct", a == b || h(x) != h(y), n, " hash collision ", a, " ", b);  // 32-bit identity domain
    REQUIRE("text", text(x) == std::to_string(a), n, " prints ", text(x), " for ", a);
    T copy = x;
    copy = y;
    REQUIRE("copy", copy.baseValue() == b, n, " copy of ", b);
    REQUIRE("default-invalid", !T().isValid(), n, " a default identifier is valid");
    if (!(x == T()) && a != -1700000000) {
        REQUIRE("valid", x.isValid(), n, " ", a, " reported invalid");
    }
}
}  // namespace

PROP(pairs, 4)
{
    auto a = raw(s);
    auto b = s.chance(1, 4) ? a : raw(s);
    s.note(a, ",", b);
    pairLaws<LocalFederateId>("LocalFederateId", a, b);
    pairLaws<InterfaceHandle>("InterfaceHandle", a, b);
    pairLaws<GlobalBrokerId>("GlobalBrokerId", a, b);
    pairLaws<GlobalFederateId>("GlobalFederateId", a, b);
    pairLaws<route_id>("route_id", a, b);
    GlobalFederateId f(a);
    GlobalBrokerId g(a);
    REQUIRE("convert", GlobalFederateId(g) == f && static_cast<GlobalBrokerId>(f) == g && f == g, a);
    REQUIRE("cross-compare",
            (f == GlobalBrokerId(b)) == (a == b) && (f != GlobalBrokerId(b)) == (a != b) && (f < GlobalBrokerId(b)) == (a < b) &&
                (f > GlobalBrokerId(b)) == (a > b),
            a, " ", b);
    // federates and brokers partition the identifiers; 1 is the root broker
    bool fed = a >= 0x00020000 && a < 0x70000000;
    bool brk = a >= 0x70000000 || a == 1;
    REQUIRE("is-federate", f.isFederate() == fed && g.isFederate() == fed, a);
    REQUIRE("is-broker", f.isBroker() == brk && g.isBroker() == brk, a);
    REQUIRE("disjoint", !(f.isFederate() && f.isBroker()), a);
    REQUIRE("federate-index", f.localIndex() == (a >= 0x00020000 ? a - 0x00020000 : a), a);
    REQUIRE("broker-index", g.localIndex() == (a >= 0x70000000 ? a - 0x70000000 : a), a);
    *f.getBaseTypePointer() = b;
    REQUIRE("base-pointer", f.baseValue() == b, a, " ", b);
    InterfaceHandle ih(a);
    *ih.getBaseTypePointer() = b;
    REQUIRE("base-pointer", ih == InterfaceHandle(b), a, " ", b);
    if (a != b) {
        s.nontrivial();
    }
    s.tag(fed ? "federate" : brk ? "broker" : "other");
}

PROP(handles, 3)
{
    auto a1 = raw(s);
    auto a2 = raw(s);
    auto b1 = s.chance(1, 2) ? a1 : raw(s);
    auto b2 = s.chance(1, 2) ? a2 : s.chance(1, 3) ? a1 : raw(s);
    if (s.chance(1, 6)) {
        b1 = a2;
        b2 = a1;
    }
    s.note(a1, "::", a2, " ", b1, "::", b2);
    GlobalHandle x{GlobalFederateId(a1), InterfaceHandle(a2)};
    GlobalHandle y{GlobalFederateId(b1), InterfaceHandle(b2)};
    bool eq = a1 == b1 && a2 == b2;
    REQUIRE("equal", (x == y) == eq && (x != y) == !eq, "");
    REQUIRE("order", (x < y) == (std::pair(a1, a2) < std::pair(b1, b2)), "");
    auto k = static_cast<std::uint64_t>(x);
    REQUIRE("pack", static_cast<std::int32_t>(k >> 32U) == a1 && static_cast<std::int32_t>(k & 0xFFFFFFFFU) == a2, "key ", k);
    std::hash<GlobalHandle> h;
    REQUIRE("hash", eq ? h(x) == h(y) : h(x) != h(y), "");
    REQUIRE("text", text(x) == std::to_string(a1) + "::" + std::to_string(a2), text(x));
    REQUIRE("valid", x.isValid() == (x.fed_id.isValid() && x.handle.isValid()), "");
    REQUIRE("default", !GlobalHandle().isValid() && !GlobalHandle(GlobalFederateId(a1), InterfaceHandle()).isValid() &&
                !GlobalHandle(GlobalFederateId(), InterfaceHandle(a2)).isValid(), "");
    if (!eq) {
        s.nontrivial();
    }
}

PROP(special, 2)
{
    // special federates of distinct brokers never collide with each other or with brokers
    std::unordered_set<std::int32_t> seen;
    auto n = 2 + s.size(60);
    auto base = static_cast<std::int32_t>(s.draw(100000));
    s.note("brokers ", base, "..", base + n);
    for (int idx = 0; idx < 3; ++idx) {
        auto f = getSpecialFederateId(gRootBrokerID, idx);
        REQUIRE("special-unique", seen.insert(f.baseValue()).second, "root ", idx);
        REQUIRE("special-federate", f.isFederate() && !f.isBroker(), "root ", idx);
    }
    for (std::size_t k = 0; k < n; ++k) {
        GlobalBrokerId br(gGlobalBrokerIdShift + base + static_cast<int>(k));
        for (int idx = 0; idx < 3; ++idx) {
            auto f = getSpecialFederateId(br, idx);
            REQUIRE("special-unique", seen.insert(f.baseValue()).second, "broker ", br.localIndex(), " ", idx);
            REQUIRE("special-federate", f.isFederate() && !f.isBroker() && f.isValid(), "broker ", br.localIndex());
        }
    }
    std::set<std::int32_t> reserved{parent_broker_id.baseValue(), gRootBrokerID.baseValue(), gDirectCoreId.baseValue(),
                                    gLocalCoreId.baseValue(), gDirectSendHandle.baseValue(), InterfaceHandle().baseValue(),
                                    GlobalFederateId().baseValue(), LocalFederateId().baseValue(), route_id().baseValue()};
    REQUIRE("reserved-distinct", reserved.size() == 9, "two reserved identifiers coincide");
    REQUIRE("reserved-valid", gDirectCoreId.isValid() && gLocalCoreId.isValid() && gDirectSendHandle.isValid() &&
                gRootBrokerID.isValid() && gRootBrokerID.isBroker() && !parent_broker_id.isBroker(), "");
    for (auto r : reserved) {
        REQUIRE("reserved-clash", seen.count(r) == 0 && !GlobalFederateId(r).isFederate(), r);
    }
    s.nontrivial();
}

PROP(routes, 1)
{
    auto code = static_cast<std::int32_t>(s.draw(120));
    auto index = static_cast<std::int32_t>(s.boolean() ? s.draw(1U << 24U) : s.draw(300));
    auto r = generateRouteId(code, index);
    s.note(code, " ", index);
    REQUIRE("route-code", getRouteTypeCode(r) == code, "route ", code, "/", index, " -> ", getRouteTypeCode(r));
    REQUIRE("route-index", (r.baseValue() & 0xFFFFFF) == index, "route ", code, "/", index);
    REQUIRE("route-valid", r.isValid(), "");
    REQUIRE("route-reserved", parent_route_id != control_route && parent_route_id.isValid() && control_route.isValid() && r != control_route, "");
    s.nontrivial();
}

PBT_MAIN("Pairs of raw 32-bit values (range boundaries, reserved values and their neighbours, small and arbitrary values) put through "
         "every identifier type; sets of brokers put through the special-identifier generator. Non-trivial: two distinct identifiers "
         "are compared (pairs/handles), always for special/routes.",
         20.0)
