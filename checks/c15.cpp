// C15: pending ("unknown") interface connections: nothing added is lost, invented or reported under another name.
#include "helics/core/UnknownHandleManager.hpp"
#include "helics/core/core-data.hpp"
#include "helics/core/flagOperations.hpp"

#include "pbt.hpp"

#include <tuple>

using namespace helics;
namespace {
struct Rec {
    std::string name;
    std::int32_t fed, handle;
    std::uint16_t flags;
    auto operator<=>(const Rec&) const = default;
};
struct Link {
    std::string a, b;
    auto operator<=>(const Link&) const = default;
};
using Recs = std::vector<Rec>;
using Links = std::vector<Link>;
enum { P, I, E, F };
struct Model {
    Recs unk[4];
    Recs rec[4];
    Links data, ept, srcF, dstF;
};
Recs named(const Recs& r, const std::string& n)
{
    Recs o;
    for (auto& x : r) {
        if (x.name == n) {
            o.push_back(x);
        }
    }
    std::sort(o.begin(), o.end());
    return o;
}
Recs conv(const std::string& n, const std::vector<UnknownHandleManager::TargetInfo>& v)
{
    Recs o;
    for (auto& x : v) {
        o.push_back({n, x.first.fed_id.baseValue(), x.first.handle.baseValue(), x.second});
    }
    std::sort(o.begin(), o.end());
    return o;
}
std::vector<std::string> linked(const Links& l, const std::string& n)
{
    std::vector<std::string> o;
    for (auto& x : l) {
        if (x.a == n) {
            o.push_back(x.b);
        }
    }
    std::sort(o.begin(), o.end());
    return o;
}
std::vector<std::string> sorted(std::vector<std::string> v)
{
    std::sort(v.begin(), v.end());
    return v;
}
template<class C, class F>
void erase(C& c, F f)
{
    c.erase(std::remove_if(c.begin(), c.end(), f), c.end());
}
using Seen = std::vector<std::tuple<char, Rec>>;
const InterfaceType types[4] = {InterfaceType::PUBLICATION, InterfaceType::INPUT, InterfaceType::ENDPOINT, InterfaceType::FILTER};

bool opt(const Rec& r)
{
    return (r.flags & (1U << optional_flag)) != 0;
}
bool req(const Rec& r)
{
    return (r.flags & (1U << required_flag)) != 0;
}

void agree(const UnknownHandleManager& u, const Model& m, const std::vector<std::string>& names, const std::string& op)
{
    for (auto& n : names) {
        REQUIRE("publications", conv(n, u.checkForPublications(n)) == named(m.unk[P], n), op, " ", n);
        REQUIRE("inputs", conv(n, u.checkForInputs(n)) == named(m.unk[I], n), op, " ", n);
        REQUIRE("endpoints", conv(n, u.checkForEndpoints(n)) == named(m.unk[E], n), op, " ", n);
        REQUIRE("filters", conv(n, u.checkForFilters(n)) == named(m.unk[F], n), op, " ", n);
        REQUIRE("re-publications", conv(n, u.checkForReconnectionPublications(n)) == named(m.rec[P], n), op, " ", n);
        REQUIRE("re-inputs", conv(n, u.checkForReconnectionInputs(n)) == named(m.rec[I], n), op, " ", n);
        REQUIRE("re-endpoints", conv(n, u.checkForReconnectionEndpoints(n)) == named(m.rec[E], n), op, " ", n);
        REQUIRE("re-filters", conv(n, u.checkForReconnectionFilters(n)) == named(m.rec[F], n), op, " ", n);
        REQUIRE("links", sorted(u.checkForLinks(n)) == linked(m.data, n), op, " ", n);
        REQUIRE("endpoint-links", sorted(u.checkForEndpointLinks(n)) == linked(m.ept, n), op, " ", n);
        REQUIRE("source-filters", sorted(u.checkForFilterSourceTargets(n)) == linked(m.srcF, n), op, " ", n);
        REQUIRE("dest-filters", sorted(u.checkForFilterDestTargets(n)) == linked(m.dstF, n), op, " ", n);
    }
    bool links = !(m.data.empty() && m.ept.empty() && m.srcF.empty() && m.dstF.empty());
    Seen all, nonOpt, required;
    for (int t = 0; t < 4; ++t) {
        for (auto& r : m.unk[t]) {
            auto c = static_cast<char>(types[t]);
            all.emplace_back(c, r);
            if (!opt(r)) {
                nonOpt.emplace_back(c, r);
            }
            if (req(r)) {
                required.emplace_back(c, r);
            }
        }
    }
    REQUIRE("has-unknowns", u.hasUnknowns() == (links || !all.empty()), op);
    REQUIRE("has-non-optional", u.hasNonOptionalUnknowns() == (links || !nonOpt.empty()), op);
    REQUIRE("has-required", u.hasRequiredUnknowns() == !required.empty(), op);
    auto collect = [](Seen& out) {
        return [&out](const std::string& n, InterfaceType t, UnknownHandleManager::TargetInfo h) {
            out.emplace_back(static_cast<char>(t), Rec{n, h.first.fed_id.baseValue(), h.first.handle.baseValue(), h.second});
        };
    };
    auto same = [](Seen a, Seen b) {
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        return a == b;
    };
    Seen g1, g2, g3;
    u.processUnknowns(collect(g1));
    u.processNonOptionalUnknowns(collect(g2));
    u.processRequiredUnknowns(collect(g3));
    REQUIRE("process-unknowns", same(g1, all), op, " reported ", g1.size(), " of ", all.size());
    REQUIRE("process-non-optional", same(g2, nonOpt), op, " reported ", g2.size(), " of ", nonOpt.size());
    REQUIRE("process-required", same(g3, required), op, " reported ", g3.size(), " of ", required.size());
    std::vector<std::tuple<std::string, char, std::string, char>> l1, l2;
    u.processUnknownLinks([&](const std::string& o, InterfaceType a, const std::string& t, InterfaceType b) {
        l1.emplace_back(o, static_cast<char>(a), t, static_cast<char>(b));
    });
    auto add = [&](const Links& l, InterfaceType a, InterfaceType b) {
        for (auto& x : l) {
            l2.emplace_back(x.a, static_cast<char>(a), x.b, static_cast<char>(b));
        }
    };
    add(m.data, InterfaceType::PUBLICATION, InterfaceType::INPUT);
    add(m.ept, InterfaceType::ENDPOINT, InterfaceType::ENDPOINT);
    add(m.dstF, InterfaceType::FILTER, InterfaceType::ENDPOINT);
    add(m.srcF, InterfaceType::FILTER, InterfaceType::ENDPOINT);
    std::sort(l1.begin(), l1.end());
    std::sort(l2.begin(), l2.end());
    REQUIRE("process-links", l1 == l2, op, " reported ", l1.size(), " of ", l2.size());
}
}  // namespace

PROP(model, 1)
{
    UnknownHandleManager u;
    Model m;
    std::vector<std::string> names{"a", "b", "ab", "", "fed/pub"};
    auto steps = 1 + s.size(40);
    bool dup = false;
    bool erased = false;
    for (std::size_t st = 0; st < steps; ++st) {
        auto n = s.pick(names);
        auto n2 = s.pick(names);
        auto kind = static_cast<int>(s.draw(4));
        Rec r{n, static_cast<std::int32_t>(s.draw(4)), static_cast<std::int32_t>(s.draw(4)), 0};
        r.flags = s.chance(1, 5) ? static_cast<std::uint16_t>(s.bits()) : static_cast<std::uint16_t>(s.pick({0U, 1U << optional_flag, 1U << required_flag, (1U << optional_flag) | (1U << required_flag)}));
        GlobalHandle h{GlobalFederateId(r.fed), InterfaceHandle(r.handle)};
        std::string op;
        switch (s.draw(11)) {
            case 0:
            case 1:
            case 2:
                op = pbt::cat("add unknown ", kind, " '", n, "' ", r.fed, "/", r.handle, " ", r.flags);
                dup = dup || !named(m.unk[kind], n).empty();
                (kind == P ? u.addUnknownPublication(n, h, r.flags) :
                     kind == I ? u.addUnknownInput(n, h, r.flags) :
                     kind == E ? u.addUnknownEndpoint(n, h, r.flags) :
                                 u.addUnknownFilter(n, h, r.flags));
                m.unk[kind].push_back(r);
                break;
            case 3:
                op = pbt::cat("add reconnectable ", kind, " '", n, "'");
                (kind == P ? u.addReconnectablePublication(n, h, r.flags) :
                     kind == I ? u.addReconnectableInput(n, h, r.flags) :
                     kind == E ? u.addReconnectableEndpoint(n, h, r.flags) :
                                 u.addReconnectableFilter(n, h, r.flags));
                m.rec[kind].push_back(r);
                break;
            case 4:
            case 5:
                op = pbt::cat("add link ", kind, " '", n, "'->'", n2, "'");
                (kind == 0 ? u.addDataLink(n, n2) :
                     kind == 1 ? u.addEndpointLink(n, n2) :
                     kind == 2 ? u.addSourceFilterLink(n, n2) :
                                 u.addDestinationFilterLink(n, n2));
                (kind == 0 ? m.data : kind == 1 ? m.ept : kind == 2 ? m.srcF : m.dstF).push_back({n, n2});
                break;
            case 6:
            case 7: {
                op = pbt::cat("clear ", kind, " '", n, "'");
                erased = erased || !named(m.unk[kind], n).empty();
                auto byName = [&](const Rec& x) { return x.name == n; };
                auto lnk = [&](const Link& x) { return x.a == n; };
                ::erase(m.unk[kind], byName);
                switch (kind) {
                    case P:
                        u.clearPublication(n);
                        ::erase(m.data, lnk);
                        break;
                    case I:
                        u.clearInput(n);
                        break;
                    case E:
                        u.clearEndpoint(n);
                        ::erase(m.ept, lnk);
                        break;
                    default:
                        u.clearFilter(n);
                        ::erase(m.srcF, lnk);
                        ::erase(m.dstF, lnk);
                        break;
                }
                break;
            }
            case 8: {
                auto fed = static_cast<std::int32_t>(s.draw(4));
                op = pbt::cat("clear federate ", fed);
                u.clearFederateUnknowns(GlobalFederateId(fed));
                for (auto& l : m.unk) {
                    auto sz = l.size();
                    ::erase(l, [&](const Rec& x) { return x.fed == fed; });
                    erased = erased || l.size() != sz;
                }
                break;
            }
            default: {
                // remove by an arbitrary predicate over (name, kind, handle)
                auto mask = s.bits();
                op = pbt::cat("clear if ", mask);
                auto decide = [mask](const Rec& x, InterfaceType t) {
                    auto v = pbt::mix(mask ^ (static_cast<std::uint64_t>(x.name.size()) << 8U) ^ static_cast<std::uint64_t>(x.fed * 64 + x.handle) ^
                                      (static_cast<std::uint64_t>(t) << 32U));
                    return (v & 7U) == 0;
                };
                Seen asked, want;
                for (int t = 0; t < 4; ++t) {
                    for (auto& x : m.unk[t]) {
                        want.emplace_back(static_cast<char>(types[t]), x);
                    }
                }
                u.clearUnknownsIf([&](const std::string& nm, InterfaceType t, UnknownHandleManager::TargetInfo ti) {
                    Rec x{nm, ti.first.fed_id.baseValue(), ti.first.handle.baseValue(), ti.second};
                    asked.emplace_back(static_cast<char>(t), x);
                    return decide(x, t);
                });
                std::sort(asked.begin(), asked.end());
                std::sort(want.begin(), want.end());
                REQUIRE("clear-if-asked", asked == want, op, " asked about ", asked.size(), " of ", want.size());
                for (int t = 0; t < 4; ++t) {
                    ::erase(m.unk[t], [&](const Rec& x) { return decide(x, types[t]); });
                }
                break;
            }
        }
        s.note(op);
        agree(u, m, names, op);
    }
    if (dup) {
        s.tag("duplicate-name");
    }
    if (erased) {
        s.tag("cleared");
    }
    if (dup && erased) {
        s.nontrivial();
    }
}
PBT_MAIN("Histories of up to 40 add / link / clear operations over 5 names, 4 interface kinds and 4 federates; after every step every "
         "query and every callback enumeration is compared (as a multiset) with a list model. Non-trivial: a name was registered twice "
         "for one kind and something was cleared.",
         20.0)
