// C01: the grant contract of time requests, over generated co-simulations (see cosim.hpp, cogen.cpp).
#include "cosim.hpp"
using namespace cosim;
static Trace one(pbt::Src& s, const Gen& g, Spec& sp)
{
    sp = generate(s, g);
    s.note(show(sp));
    auto t = run(sp);
    s.note(show(t, sp));
    checkRan(sp, t);
    return t;
}
static void grants(pbt::Src& s, const Gen& g)
{
    Spec sp;
    auto t = one(s, g, sp);
    checkGrants(sp, t);
    bool interrupted = false;
    for (std::size_t i = 0; i < t.feds.size(); ++i) {
        for (auto& x : t.feds[i].grants) {
            interrupted = interrupted || x.granted < x.requested;
        }
    }
    if (interrupted) {
        s.nontrivial();
    }
    s.tag(interrupted ? "interrupted" : "as requested");
}
PROP(values, 3)
{
    Gen g;
    g.messages = false;
    grants(s, g);
}
PROP(tfvalues, 2)
{
    Gen g;
    g.tieFree = true;
    g.messages = false;
    grants(s, g);
}
PROP(messages, 2)
{
    Gen g;
    g.values = false;
    grants(s, g);
}
PROP(mixed, 2)
{
    Gen g;
    grants(s, g);
}
PROP(plain, 1)
{
    Gen g;
    g.delays = false;
    grants(s, g);
}
/// federates with inputs and endpoints that can be interrupted may wait for each other for ever
PROP(kf_mixedhang, 0)
{
    s.note("known finding");
    if (failsInChild(R"(test brokers -1 cores 0 0 noise 52
f0@0 offset=500000000 in(in0_0 <2- pub3_0) ep(ep0_0) init[] stop 3250000000/30 : [+0] [+750000000]
f1@0 period=250000000 uninterruptible=1 in(in1_0 <1- pub3_0) ep(f1/ep0) init[] stop 4500000000/30 : [m0>f1/ep0 +7000000000] [m0>ep0_0 m0>ep3_0 m0>ep3_0 +1750000000]
f2@0 period=250000000 outdelay=500000000 in(in2_0 <2- pub3_0) ep(f2/ep0) init[] stop 5750000000/30 : [+0] [+1250000000]
f3@0 offset=500000000 delta=500000000 indelay=500000000 uninterruptible=1 pub(pub3_0) ep(ep3_0) init[] stop 5750000000/30 : [+1250000000]
)", 30, 8)) {
        FAIL("kf-mixedhang", "federates with inputs and endpoints that can be interrupted may wait for each other for ever");
    }
}
/// two federates with inputs from each other that both wait for the end of time wait for ever
PROP(kf_bothend, 0)
{
    s.note("known finding");
    if (failsInChild(R"(inproc brokers -1 cores 0
f0@0 period=8 offset=9 pub(pub0_0) in(in0_0 <1- f1/pub0) init[] stop 96/30 : [+end] [+24]
f1@0 period=8 offset=10 pub(f1/pub0) in(in1_1 <4- pub0_0) init[] stop 32/30 : [+end] [+8] [+8] [+8]
)", 10, 8)) {
        FAIL("kf-bothend", "two federates with inputs from each other that both wait for the end of time wait for ever");
    }
}
PBT_MAIN("a co-simulation of at least two federates in which somebody is granted a time before the one it asked for", 30, nullptr)
