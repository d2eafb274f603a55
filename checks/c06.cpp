// C06: federates that leave or fail, at any stage and in any way, never stop the others, and nobody loses what they sent.
#include "helics/application_api/CombinationFederate.hpp"
#include "helics/application_api/Endpoints.hpp"
#include "helics/application_api/Federate.hpp"
#include "helics/application_api/Inputs.hpp"
#include "helics/application_api/Publications.hpp"
#include "helics/application_api/ValueFederate.hpp"
#include "helics/core/core-exceptions.hpp"

#include "pbt.hpp"
#include "world.hpp"

#include <condition_variable>
#include <map>
#include <mutex>
#include <optional>
#include <set>
#include <thread>
#include <vector>

using namespace helics;
namespace {
enum Stage { CREATED, INIT, EXEC, STEP, END };
enum How { FINALIZE, LOCAL_ERROR, GLOBAL_ERROR, DESTROY };
const char* stageName(int s)
{
    static const char* n[] = {"before-init", "in-init", "in-exec", "after-step", "at-end"};
    return n[s];
}
const char* howName(int h)
{
    static const char* n[] = {"finalize", "local-error", "global-error", "destroy"};
    return n[h];
}
struct Plan {
    int core{0};
    int stage{END};
    int how{FINALIZE};
    int steps{0};  // granted steps before leaving (stage STEP)
    int period{1};
    bool uninterruptible{false};
    bool async{false};
    bool sendAtEnd{false};  // publish once more right before leaving
    bool terminateOnError{false};
    std::vector<int> subs;  // federates whose publication it takes
    std::vector<int> mail;  // federates it sends messages to
};
struct Result {
    int published{-1};  // the last value published
    int initValue{-1};
    double granted{-1};
    bool threw{false};
    int threwAt{-1};  // stage
    std::string what;
    std::map<int, int> last;  // the last value of each subscribed federate
    std::vector<std::string> mail;
    std::vector<std::string> sent;  // "dest:text"
    bool reached{false};
    std::string bad, badWhat;
    Federate::Modes mode{Federate::Modes::STARTUP};
};
constexpr int cEnd = 6;
}  // namespace

PROP(leaving, 10)
{
    int nc = static_cast<int>(s.range(1, 3));
    int nf = static_cast<int>(s.range(std::max(nc, 2), 5));
    std::vector<int> per(static_cast<std::size_t>(nc), 1);
    std::vector<Plan> plans(static_cast<std::size_t>(nf));
    for (int i = 0; i < nf; ++i) {
        auto& p = plans[static_cast<std::size_t>(i)];
        p.core = i < nc ? i : static_cast<int>(s.draw(static_cast<std::uint64_t>(nc)));
        if (i >= nc) {
            ++per[static_cast<std::size_t>(p.core)];
        }
    }
    int globalErrors = 0;
    int leavers = 0;
    int failed = 0;
    int mode = static_cast<int>(s.weighted({4, 3, 2}));  // only finalize; local errors too; a global error too
    bool links = s.chance(2, 3);
    bool mails = s.chance(1, 3);
    for (int i = 0; i < nf; ++i) {
        auto& p = plans[static_cast<std::size_t>(i)];
        if (s.chance(1, 2)) {
            p.stage = static_cast<int>(s.weighted({3, 3, 3, 4}));
            p.steps = p.stage == STEP ? static_cast<int>(s.range(1, 3)) : 0;
            p.how = static_cast<int>(s.weighted({4, mode >= 1 ? 4 : 0, mode >= 2 && globalErrors == 0 ? 4 : 0, 1}));
            if (p.how == GLOBAL_ERROR) {
                ++globalErrors;
            }
            if (p.how == LOCAL_ERROR || p.how == GLOBAL_ERROR) {
                ++failed;
            }
            ++leavers;
        }
        p.period = static_cast<int>(s.range(1, 2));
        p.steps = std::min(p.steps, (cEnd - 1) / p.period);
        p.uninterruptible = s.chance(1, 4);
        p.async = s.chance(1, 5);
        p.sendAtEnd = s.chance(1, 2);
        if (links) {
            for (int j = 0; j < nf; ++j) {
                if (j != i && s.chance(1, 3)) {
                    p.subs.push_back(j);
                }
            }
        }
        if (mails) {
            for (int j = 0; j < nf; ++j) {
                if (j != i && s.chance(1, 3)) {
                    p.mail.push_back(j);
                }
            }
        }
        std::string t;
        for (auto j : p.subs) {
            t += " <-" + std::to_string(j);
        }
        for (auto j : p.mail) {
            t += " ~>" + std::to_string(j);
        }
        s.note("fed ", i, " core ", p.core, " ", stageName(p.stage), " ", p.steps, " ", howName(p.how), " period ", p.period, p.uninterruptible ? " unint" : "", p.async ? " async" : "", p.sendAtEnd ? " send-at-end" : "", t);
    }
    if (leavers > 0) {
        s.nontrivial();
    }
    s.tag(globalErrors > 0 ? "global-error" : mode == 1 ? "local-errors" : "finalize");
    std::vector<Result> res(static_cast<std::size_t>(nf));
    {
        world::World w(per);
        std::vector<std::unique_ptr<CombinationFederate>> feds;
        std::vector<Publication*> pubs;
        std::vector<std::map<int, Input*>> inputs(static_cast<std::size_t>(nf));
        std::vector<Endpoint*> ends(static_cast<std::size_t>(nf), nullptr);
        for (int i = 0; i < nf; ++i) {
            auto& p = plans[static_cast<std::size_t>(i)];
            auto fi = w.info(static_cast<std::size_t>(p.core));
            fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, static_cast<double>(p.period));
            if (p.uninterruptible) {
                fi.setFlagOption(HELICS_FLAG_UNINTERRUPTIBLE);
            }
            feds.push_back(std::make_unique<CombinationFederate>("f" + std::to_string(i), fi));
        }
        for (int i = 0; i < nf; ++i) {
            auto& f = *feds[static_cast<std::size_t>(i)];
            pubs.push_back(&f.registerGlobalPublication<std::int64_t>("p" + std::to_string(i)));
            for (auto j : plans[static_cast<std::size_t>(i)].subs) {
                auto& in = f.registerInput<std::int64_t>("i" + std::to_string(j));
                in.addTarget("p" + std::to_string(j));
                inputs[static_cast<std::size_t>(i)][j] = &in;
            }
            if (mails) {
                ends[static_cast<std::size_t>(i)] = &f.registerGlobalEndpoint("e" + std::to_string(i));
            }
        }
        std::vector<std::thread> threads;
        for (int i = 0; i < nf; ++i) {
            threads.emplace_back([&, i] {
                auto& p = plans[static_cast<std::size_t>(i)];
                auto& r = res[static_cast<std::size_t>(i)];
                auto& fp = feds[static_cast<std::size_t>(i)];
                int at = CREATED;
                auto send = [&](int v) {
                    pubs[static_cast<std::size_t>(i)]->publish(static_cast<std::int64_t>(v));
                    r.published = v;
                    for (auto j : p.mail) {
                        std::string text = std::to_string(i) + "/" + std::to_string(v);
                        ends[static_cast<std::size_t>(i)]->sendTo(text, "e" + std::to_string(j));
                        r.sent.push_back(std::to_string(j) + ":" + text);
                    }
                };
                auto take = [&] {
                    for (auto& in : inputs[static_cast<std::size_t>(i)]) {
                        if (in.second->isUpdated()) {
                            r.last[in.first] = static_cast<int>(in.second->getValue<std::int64_t>());
                        }
                    }
                    if (ends[static_cast<std::size_t>(i)] != nullptr) {
                        while (auto m = ends[static_cast<std::size_t>(i)]->getMessage()) {
                            r.mail.emplace_back(m->data.to_string());
                        }
                    }
                };
                auto leave = [&](bool canSend) {
                    if (canSend && p.sendAtEnd) {
                        send(1000 + i);
                    }
                    switch (p.how) {
                        case FINALIZE:
                            fp->finalize();
                            r.mode = fp->getCurrentMode();
                            break;
                        case LOCAL_ERROR:
                            fp->localError(100 + i, "it failed");
                            r.mode = fp->getCurrentMode();
                            fp->finalize();
                            break;
                        case GLOBAL_ERROR:
                            fp->globalError(200 + i, "all failed");
                            r.mode = fp->getCurrentMode();
                            fp->finalize();
                            break;
                        default:
                            fp.reset();
                            break;
                    }
                };
                try {
                    if (p.stage == CREATED) {
                        leave(false);
                        return;
                    }
                    if (p.async) {
                        fp->enterInitializingModeAsync();
                        fp->enterInitializingModeComplete();
                    } else {
                        fp->enterInitializingMode();
                    }
                    at = INIT;
                    if (i % 2 == 0) {
                        send(500 + i);
                        r.initValue = 500 + i;
                    }
                    if (p.stage == INIT) {
                        leave(true);
                        return;
                    }
                    if (p.async) {
                        fp->enterExecutingModeAsync();
                        fp->enterExecutingModeComplete();
                    } else {
                        fp->enterExecutingMode();
                    }
                    at = EXEC;
                    r.granted = 0;
                    take();
                    if (p.stage == EXEC) {
                        leave(true);
                        return;
                    }
                    at = STEP;
                    double want = p.period;
                    int steps = 0;
                    while (r.granted < cEnd) {
                        double g = 0;
                        if (p.async) {
                            fp->requestTimeAsync(want);
                            g = static_cast<double>(fp->requestTimeComplete());
                        } else {
                            g = static_cast<double>(fp->requestTime(want));
                        }
                        if (globalErrors > 0 && g >= 9e9) {
                            // ended by the error
                            r.threw = true;
                            r.threwAt = at;
                            fp->finalize();
                            return;
                        }
                        if (g <= r.granted || g > want) {
                            // past the request: only the end of time after an error tells so
                            r.bad = "grant";
                            r.badWhat = "granted " + std::to_string(g) + " at " + std::to_string(r.granted) + " on a request for " + std::to_string(want);
                            r.granted = g;
                            break;
                        }
                        r.granted = g;
                        take();
                        if (g < want) {
                            continue;
                        }
                        ++steps;
                        send(steps);
                        if (p.stage == STEP && steps == p.steps) {
                            leave(true);
                            return;
                        }
                        want += p.period;
                    }
                    r.reached = true;
                    p.how = FINALIZE;
                    leave(false);
                }
                catch (const HelicsException& e) {
                    r.threw = true;
                    r.threwAt = at;
                    r.what = e.what();
                    if (fp) {
                        r.mode = fp->getCurrentMode();
                        try {
                            fp->finalize();
                        }
                        catch (const HelicsException& e2) {
                            r.bad = "finalize-after-error";
                            r.badWhat = e2.what();
                        }
                    }
                }
            });
        }
        for (auto& t : threads) {
            t.join();
        }
        pubs.clear();
        feds.clear();
        if (failed > 0) {
            // a federate that failed stays with its core until the core ends
            for (auto& c : w.cores) {
                c->disconnect();
            }
        }
        bool gone = w.broker->waitForDisconnect(std::chrono::milliseconds(8000));
        REQUIRE("broker-left", gone, "the broker is still connected after every federate left");
    }
    for (int i = 0; i < nf; ++i) {
        auto& p = plans[static_cast<std::size_t>(i)];
        auto& r = res[static_cast<std::size_t>(i)];
        REQUIRE("finalize-after-error", r.bad != "finalize-after-error", "federate ", i, ": ", r.badWhat);
        REQUIRE("grant", r.bad.empty(), "federate ", i, ": ", r.badWhat);
        if (globalErrors == 0) {
            REQUIRE("stopped", !r.threw, "federate ", i, " got an exception at ", stageName(r.threwAt), ": ", r.what);
            if (p.stage == END) {
                REQUIRE("not-reached", r.reached, "federate ", i, " stopped at ", r.granted);
            }
        }
        if (globalErrors == 0 && p.stage != END && p.how == FINALIZE) {
            REQUIRE("finalized", r.mode == Federate::Modes::FINALIZE, "mode ", static_cast<int>(r.mode), " of federate ", i);
        }
        if (!r.threw && p.stage != END && (p.how == LOCAL_ERROR || p.how == GLOBAL_ERROR)) {
            REQUIRE("error-mode", r.mode == Federate::Modes::ERROR_STATE, "mode ", static_cast<int>(r.mode), " of federate ", i);
        }
        if (r.reached && globalErrors == 0) {
            // everything sent arrived: the values up to the last grant, the messages, in order
            for (auto j : p.subs) {
                auto& o = res[static_cast<std::size_t>(j)];
                auto& po = plans[static_cast<std::size_t>(j)];
                int expect = o.published;
                if (o.reached) {
                    // its last values at the end of the run may come after the end here
                    continue;
                }
                (void)po;
                if (expect >= 0) {
                    int got = r.last.count(j) != 0U ? r.last[j] : -1;
                    REQUIRE("lost-value", got == expect, "federate ", i, " has ", got, " of federate ", j, ", which left ", stageName(po.stage), " by ", howName(po.how), ", published last ", expect);
                }
            }
            for (int j = 0; j < nf; ++j) {
                auto& o = res[static_cast<std::size_t>(j)];
                if (o.reached) {
                    continue;
                }
                std::string pre = std::to_string(i) + ":";
                for (auto& m : o.sent) {
                    if (m.compare(0, pre.size(), pre) != 0) {
                        continue;
                    }
                    auto text = m.substr(pre.size());
                    auto n = std::count(r.mail.begin(), r.mail.end(), text);
                    REQUIRE("lost-message", n == 1, "message ", text, " of federate ", j, " arrived ", n, " times at federate ", i);
                }
            }
        }
    }
}

PBT_MAIN("at least one federate leaves early", 20)
