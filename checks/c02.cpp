// C02: values arrive when they should and never before, over generated co-simulations (see cosim.hpp, cogen.cpp).
#include "cosim.hpp"
using namespace cosim;
static Trace one(pbt::Src& s, const Gen& g, Spec& sp)
{
    sp = generate(s, g);
    s.note(show(sp));
    auto t = run(sp);
    s.note(show(t, sp));
    checkRan(sp, t);
    return t;
}
static void look(pbt::Src& s, const Gen& g)
{
    Spec sp;
    auto t = one(s, g, sp);
    checkValues(sp, t);
    std::size_t updates = 0;
    for (auto& f : t.feds) {
        for (auto& x : f.grants) {
            for (auto& in : x.ins) {
                updates += in.updated ? 1 : 0;
            }
        }
    }
    s.tag(updates == 0 ? "no update" : updates < 4 ? "few updates" : "many updates");
    if (updates >= 2) {
        s.nontrivial();
    }
}
PROP(values, 4)
{
    Gen g;
    g.messages = false;
    look(s, g);
}
PROP(nodelay, 2)
{
    Gen g;
    g.messages = false;
    g.delays = false;
    look(s, g);
}
PROP(mixed, 2)
{
    Gen g;
    look(s, g);
}
PBT_MAIN("a co-simulation of at least two federates in which at least two updates are seen", 30, nullptr)
