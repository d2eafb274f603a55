// Generated co-simulations: what they consist of, running them against the real library, what was seen.
#pragma once
#include "helics/application_api/CombinationFederate.hpp"
#include "helics/application_api/Endpoints.hpp"
#include "helics/application_api/Inputs.hpp"
#include "helics/application_api/Publications.hpp"
#include "helics/core/BrokerFactory.hpp"
#include "helics/core/Core.hpp"
#include "helics/core/CoreFactory.hpp"
#include "helics/core/core-exceptions.hpp"
#include "helics/core/coreTypeOperations.hpp"
#include "helics/core/helicsVersion.hpp"

#include "pbt.hpp"

#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <vector>

namespace cosim {
using ns = std::int64_t;  // times in nanoseconds
constexpr ns never = std::numeric_limits<ns>::max();
inline helics::Time T(ns t)
{
    helics::Time r;
    r.setBaseTimeCode(t);
    return r;
}
inline ns N(helics::Time t) { return t.getBaseTimeCode(); }

struct Pub {
    std::string key;  // full name
    bool global{true};
    int type{0};  // 0 double, 1 int, 2 string
};
struct In {
    std::string name;
    std::vector<std::string> targets;  // full names of publications
    std::vector<int> link;  // how each target is connected
};
struct Ep {
    std::string key;
    bool global{true};
    std::string dest;  // default destination, empty: none
};
struct Act {
    int kind{0};  // 0 publish, 1 message
    int idx{0};
    std::string dest;  // message: destination, empty: the default one
    ns at{-1};  // message: time after the granted time, <0: not stated
};
struct Step {
    ns dt{0};  // request the granted time plus this; never: the end of time
    std::vector<Act> acts;
    int iter{0};  // 0 none, 1 iterate if needed, 2 force
};
struct Fed {
    std::string name;
    int core{0};
    ns period{0};
    ns offset{0};
    ns delta{0};  // 0: not stated
    ns inDelay{0};
    ns outDelay{0};
    bool uninterruptible{false};
    bool wait{false};
    bool eventTriggered{false};
    bool restrictive{false};
    std::vector<Pub> pubs;
    std::vector<In> ins;
    std::vector<Ep> eps;
    std::vector<Act> init;  // done in initializing mode
    std::vector<Step> script;
    ns stop{0};
    int maxGrants{60};
    bool async{false};  // use the asynchronous calls
};
struct Spec {
    std::string core{"test"};
    std::vector<int> brokers{-1};  // parent of each broker, the first is the root
    std::vector<int> cores{0};  // broker of each core
    std::vector<Fed> feds;
    unsigned noise{0};
    std::uint64_t noiseSeed{0};
    bool reverseStart{false};
    std::string brokerFlags;
    std::string coreFlags;
};

struct InSeen {
    bool updated{false};
    std::string value;
    ns last{0};
};
struct MsgSeen {
    int ep{0};
    ns time{0};
    std::string source, original, dest, data;
};
struct Sent {  // something sent
    int fed{0};
    bool message{false};
    int idx{0};
    ns granted{0};  // time of the federate when it was sent, -1: initializing
    ns stated{-1};  // time stated for the message
    std::string dest;
    std::string data;
    int grant{0};  // number of the grant it followed (-1 initializing, 0 entering execution)
};
struct Grant {
    ns requested{0};
    ns granted{0};
    int iter{0};
    int result{0};  // 0 next step, 1 error, 2 halted, 3 iterating
    std::vector<InSeen> ins;
    std::vector<MsgSeen> msgs;
};
struct FedTrace {
    std::vector<Grant> grants;  // the first one is entering execution
    std::vector<Sent> sent;
    std::string error;  // an exception
};
struct Trace {
    std::vector<FedTrace> feds;
    bool brokersEnded{true};
    std::string error;
};
std::string show(const Spec& s);
std::string show(const Trace& t, const Spec& s);
Trace run(const Spec& s);
/// reads what show(Spec) writes
Spec parseSpec(std::istream& is);
/// runs it in another process, with different schedule noise: whether a check fails or it does not end
bool failsInChild(const char* text, int times, int secs);
std::string valueText(int fed, int pub, int count, int type);
/// what an input shows before anything was published to it
std::string defaultText();

// the grid of times a federate can be granted
ns aligned(const Fed& f, ns t);
ns nextPossible(const Fed& f, ns granted);
}  // namespace cosim

// ---- generation
namespace cosim {
struct Gen {
    bool tieFree{false};  // no two federates are ever at the same time
    bool messages{true};
    bool values{true};
    bool delays{true};
    int maxFeds{5};
    bool multiTarget{false};
    bool wait{false};
    bool restrictive{false};  // everything uses the restrictive time policy
};
/// the default time policy looks two steps up a chain of federates that can be interrupted (the restrictive one is
/// documented for what is beyond): makes federates uninterruptible until no chain is longer
void limitChains(Spec& s);
Spec generate(pbt::Src& s, const Gen& g);

// ---- oracles
struct Event {  // something a federate gets
    ns e{0};  // effective time; -1: sent while initializing
    int in{-1};  // input number, or
    int ep{-1};  // endpoint number
    const Sent* sent{nullptr};
    int target{0};  // which target of the input
};
/// what was sent to a federate, by time
std::vector<Event> eventsFor(const Spec& s, const Trace& t, int fed);
void checkRan(const Spec& s, const Trace& t);
void checkGrants(const Spec& s, const Trace& t);
void checkValues(const Spec& s, const Trace& t);
void checkMessages(const Spec& s, const Trace& t);
/// the trace a tie-free specification must give
Trace simulate(const Spec& s);
void checkSame(const Spec& s, const Trace& expected, const Trace& got);
}  // namespace cosim
