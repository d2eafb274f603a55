// C05: what a co-simulation without ties shows is fixed by its specification, whatever the topology and the schedule.
#include "cosim.hpp"
using namespace cosim;
static void layout(pbt::Src& s, Spec& sp, bool messages)
{
    auto nb = messages ? 1 : 1 + static_cast<int>(s.weighted({3, 2, 2, 1}));
    sp.brokers = {-1};
    for (int b = 1; b < nb; ++b) {
        sp.brokers.push_back(static_cast<int>(s.draw(static_cast<std::uint64_t>(b))));
    }
    auto nc = 1 + static_cast<int>(s.draw(sp.feds.size()));
    sp.cores.clear();
    for (int c = 0; c < nc; ++c) {
        sp.cores.push_back(static_cast<int>(s.draw(static_cast<std::uint64_t>(nb))));
    }
    for (auto& f : sp.feds) {
        f.core = static_cast<int>(s.draw(static_cast<std::uint64_t>(nc)));
        f.async = s.chance(1, 5);
    }
    sp.reverseStart = s.boolean();
    sp.core = s.boolean() ? "inproc" : "test";
    sp.noise = s.boolean() ? 0 : static_cast<unsigned>(1 + s.draw(60));
    sp.noiseSeed = s.bits();
}
static void one(pbt::Src& s, const Gen& g, int runs)
{
    auto sp = generate(s, g);
    auto want = simulate(sp);
    s.note(show(sp));
    s.note(show(want, sp));
    std::size_t events = 0;
    for (std::size_t i = 0; i < sp.feds.size(); ++i) {
        events += eventsFor(sp, want, static_cast<int>(i)).size();
    }
    for (int r = 0; r < runs; ++r) {
        layout(s, sp, g.messages);
        s.note(show(sp));
        auto t = run(sp);
        s.note(show(t, sp));
        checkRan(sp, t);
        checkSame(sp, want, t);
    }
    if (events >= 2) {
        s.nontrivial();
    }
}
PROP(values, 3)
{
    Gen g;
    g.tieFree = true;
    g.messages = false;
    one(s, g, 2);
}
PROP(messages, 2)
{
    Gen g;
    g.tieFree = true;
    g.values = false;
    one(s, g, 2);
}
PROP(mixed, 2)
{
    Gen g;
    g.tieFree = true;
    one(s, g, 2);
}
PBT_MAIN("a co-simulation of at least two federates in which at least two values or messages reach somebody, run twice with different topologies, core types, start orders and schedules", 30, nullptr)
