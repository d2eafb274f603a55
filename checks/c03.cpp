// C03: messages arrive exactly once, in order and on time, over generated co-simulations (see cosim.hpp, cogen.cpp).
#include "cosim.hpp"
using namespace cosim;
static Trace one(pbt::Src& s, const Gen& g, Spec& sp)
{
    sp = generate(s, g);
    s.note(show(sp));
    auto t = run(sp);
    s.note(show(t, sp));
    checkRan(sp, t);
    return t;
}
static void look(pbt::Src& s, const Gen& g)
{
    Spec sp;
    auto t = one(s, g, sp);
    checkMessages(sp, t);
    std::size_t got = 0;
    for (auto& f : t.feds) {
        for (auto& x : f.grants) {
            got += x.msgs.size();
        }
    }
    s.tag(got == 0 ? "none received" : got < 4 ? "few received" : "many received");
    if (got >= 2) {
        s.nontrivial();
    }
}
PROP(messages, 4)
{
    Gen g;
    g.values = false;
    look(s, g);
}
PROP(nodelay, 2)
{
    Gen g;
    g.values = false;
    g.delays = false;
    look(s, g);
}
PROP(mixed, 2)
{
    Gen g;
    look(s, g);
}
/// messages between cores of different sub-brokers have no time dependency and arrive late
PROP(kf_subbroker, 0)
{
    s.note("known finding");
    if (failsInChild(R"(test brokers -1 0 0 cores 2 1 2
f0@0 ep(ep0_0) init[] stop 3/30 : [+1400]
f1@1 ep(f1/ep0) init[] stop 3/30 : [+217]
f2@2 ep(f2/ep0) init[] stop 3/30 : [m0>f1/ep0 +168]
)", 20, 20)) {
        FAIL("kf-subbroker", "messages between cores of different sub-brokers have no time dependency and arrive late");
    }
}
/// a federate that a message wakes and that answers at that time is not waited for by the others
PROP(kf_reply, 0)
{
    s.note("known finding");
    if (failsInChild(R"(test brokers -1 cores 0 0 0 0
f0@1 period=1 uninterruptible=1 async=1 ep(ep0_0>ep1_0) init[m0>ep0_0 ] stop 13/30 : [m0>ep0_0 m0>ep1_0 +4] [+1]
f1@3 uninterruptible=1 ep(ep1_0) init[m0>f3/ep0 ] stop 9/30 : [m0>ep0_0 m0>f3/ep0 +2] [+4] [m0>f3/ep0 m0>f3/ep0 +30] [m0>ep1_0 +1]
f2@2 period=1 offset=1 init[] stop 18/30 : [+3]
f3@1 period=2 delta=1 ep(f3/ep0) init[] stop 7/30 : [m0>ep0_0 m0>ep0_0 m0>ep0_0 +37] [+1] [m0>ep1_0 +7]
)", 30, 20)) {
        FAIL("kf-reply", "a federate that a message wakes and that answers at that time is not waited for by the others");
    }
}
/// a message to a federate that waits for the end of time and answers comes too late
PROP(kf_endoftime, 0)
{
    s.note("known finding");
    if (failsInChild(R"(test brokers -1 cores 0 0
f0@0 ep(f0/ep0>ep2_0) init[] stop 161/30 : [m0 +end] [m0>ep1_0 m0 +7] [m0 +0]
f1@0 offset=28 uninterruptible=1 ep(ep1_0>f0/ep0) init[] stop 70/30 : [+42]
f2@1 period=28 uninterruptible=1 ep(ep2_0>f0/ep0) init[] stop 168/30 : [m0 m0 +7] [+7]
)", 30, 20)) {
        FAIL("kf-endoftime", "a message to a federate that waits for the end of time and answers comes too late");
    }
}
PBT_MAIN("a co-simulation of at least two federates in which at least two messages are received", 30, nullptr)
