// C29: the modes of a federate: every sequence of calls, synchronous and asynchronous, valid and not.
#include "helics/application_api/CombinationFederate.hpp"
#include "helics/application_api/Federate.hpp"
#include "helics/application_api/ValueFederate.hpp"
#include "helics/core/core-exceptions.hpp"

#include "pbt.hpp"
#include "world.hpp"

#include <cmath>
#include <mutex>
#include <vector>

using namespace helics;
using M = Federate::Modes;
namespace {
const char* modeName(M m)
{
    switch (m) {
        case M::STARTUP:
            return "startup";
        case M::INITIALIZING:
            return "initializing";
        case M::EXECUTING:
            return "executing";
        case M::FINALIZE:
            return "finalize";
        case M::ERROR_STATE:
            return "error";
        case M::PENDING_INIT:
            return "pending-init";
        case M::PENDING_EXEC:
            return "pending-exec";
        case M::PENDING_TIME:
            return "pending-time";
        case M::PENDING_ITERATIVE_TIME:
            return "pending-iterative-time";
        case M::PENDING_FINALIZE:
            return "pending-finalize";
        case M::FINISHED:
            return "finished";
        case M::PENDING_ITERATIVE_INIT:
            return "pending-iterative-init";
        default:
            return "?";
    }
}
using ns = std::int64_t;
constexpr ns cMax = 9223372036854775807LL;
struct Model {
    M mode{M::STARTUP};
    bool single{false};
    ns period{0}, offset{0}, delta{0};
    ns now{0};
    bool timeKnown{false};
    IterationRequest execReq{IterationRequest::NO_ITERATIONS};
    ns pendingTime{0};
    IterationRequest pendingIter{IterationRequest::NO_ITERATIONS};
    int iterations{0};
    static bool valid(M m) { return m == M::STARTUP || m == M::INITIALIZING || m == M::EXECUTING; }
    ns grant(ns t) const
    {
        if (t >= cMax) {
            return cMax;
        }
        ns next = now + std::max<ns>(std::max<ns>(delta, 1), 0);
        ns r = std::max(t, next);
        if (period > 1) {
            if (now < offset) {
                next = std::max(next, offset);
                r = std::max(r, offset);
            }
            ns k = (r - offset + period - 1) / period;
            r = offset + k * period;
        }
        return r;
    }
    void exec(IterationRequest it)
    {
        if (it == IterationRequest::FORCE_ITERATION) {
            mode = M::INITIALIZING;
            timeKnown = false;
        } else {
            mode = M::EXECUTING;
            now = 0;
            timeKnown = true;
        }
    }
    void grantNow(ns t)
    {
        now = grant(t);
        mode = now >= cMax ? M::FINISHED : M::EXECUTING;
    }
};
}  // namespace

PROP(modes, 10)
{
    world::World w({1}, "", "");
    auto fi = w.info(0);
    Model m;
    m.single = s.chance(1, 6);
    if (m.single) {
        fi.setFlagOption(HELICS_FLAG_SINGLE_THREAD_FEDERATE);
    }
    if (s.chance(1, 3)) {
        m.period = static_cast<ns>(s.range(1, 4)) * 500000000;
        fi.setProperty(HELICS_PROPERTY_TIME_PERIOD, Time(m.period, time_units::ns));
    }
    if (s.chance(1, 4)) {
        m.delta = static_cast<ns>(s.range(1, 4)) * 250000000;
        fi.setProperty(HELICS_PROPERTY_TIME_DELTA, Time(m.delta, time_units::ns));
    }
    struct {
        std::mutex lock;
        std::vector<std::pair<M, M>> changes;
        int execEntry{0}, initEntry{0}, initIter{0}, entry{0}, ret{0}, ended{0};
        double lastUpdate{-100};
    } log;
    std::unique_ptr<Federate> f;
    int kind = static_cast<int>(s.draw(3));
    if (kind == 0) {
        f = std::make_unique<CombinationFederate>(w.name + "f", fi);
    } else if (kind == 1) {
        f = std::make_unique<ValueFederate>(w.name + "f", fi);
    } else {
        f = std::make_unique<Federate>(w.name + "f", fi);
    }
    s.note(m.single ? "single thread " : "", "period ", m.period, " delta ", m.delta, " kind ", kind);
    bool probe = s.chance(1, 2);
    auto look = [&] {
        if (probe) {
            f->isAsyncOperationCompleted();
        }
    };
    f->setModeUpdateCallback([&](M n, M o) {
        std::lock_guard<std::mutex> l(log.lock);
        log.changes.emplace_back(n, o);
    });
    f->setExecutingEntryCallback([&] {
        ++log.execEntry;
        look();
    });
    f->setInitializingEntryCallback([&](bool it) {
        it ? ++log.initIter : ++log.initEntry;
        look();
    });
    f->setTimeRequestEntryCallback([&](Time, Time, bool) {
        ++log.entry;
        look();
    });
    f->setTimeRequestReturnCallback([&](Time, bool) {
        ++log.ret;
        look();
    });
    f->setTimeUpdateCallback([&](Time t, bool) {
        log.lastUpdate = static_cast<double>(t);
        look();
    });
    f->setCosimulationTerminatedCallback([&] { ++log.ended; });
    int requests = 0;
    int execs = 0;
    int steps = static_cast<int>(s.range(2, 16));
    static const std::vector<IterationRequest> reqs{IterationRequest::NO_ITERATIONS, IterationRequest::ITERATE_IF_NEEDED, IterationRequest::FORCE_ITERATION};
    const char* names[] = {"enterInit", "enterInitAsync", "enterInitComplete", "enterInitIterative", "enterInitIterativeAsync", "enterInitIterativeComplete", "enterExec", "enterExecAsync", "enterExecComplete", "requestTime",
                           "requestTimeAsync", "requestTimeComplete", "requestTimeIterative", "requestTimeIterativeAsync", "requestTimeIterativeComplete", "finalize", "finalizeAsync", "finalizeComplete", "isAsyncOperationCompleted",
                           "localError", "globalError", "completeOperation"};
    for (int k = 0; k < steps; ++k) {
        int op = static_cast<int>(s.weighted({4, 3, 3, 2, 2, 2, 5, 4, 4, 8, 6, 5, 5, 5, 5, 1, 1, 1, 3, 0, 0, 2}));
        if (k + 3 > steps && s.chance(1, 3)) {
            op = static_cast<int>(s.range(15, 20));
        }
        auto it = s.pick(reqs);
        ns t = static_cast<ns>(s.range(0, 40)) * 250000000;
        if (s.chance(1, 12)) {
            t = cMax;
        } else if (s.chance(1, 2)) {
            t = m.now >= cMax ? cMax : m.now + t / 8;
        }
        s.note(names[op], "(", op >= 9 && op <= 13 ? t : static_cast<int>(it), ")");
        Model before = m;
        bool refused = false;  // the model says so
        Time result = timeZero;
        iteration_time iresult{};
        IterationResult eres = IterationResult::NEXT_STEP;
        bool asyncDone = false;
        bool threw = false;
        std::string what;
        bool wantTime = false;
        bool wantIter = false;
        IterationResult wantState = IterationResult::NEXT_STEP;
        bool wantE = false;
        auto init = [&] { m.mode = M::INITIALIZING; };
        auto doExec = [&](IterationRequest r) {
            m.exec(r);
            ++execs;
            wantE = true;
            wantState = r == IterationRequest::FORCE_ITERATION ? IterationResult::ITERATING : IterationResult::NEXT_STEP;
        };
        auto doTime = [&](ns x) {
            m.grantNow(x);
            wantTime = true;
        };
        auto doIter = [&](ns x, IterationRequest r) {
            wantIter = true;
            // without moving on it is an iteration
            if (r == IterationRequest::FORCE_ITERATION || (r == IterationRequest::ITERATE_IF_NEEDED && x <= m.now)) {
                wantState = IterationResult::ITERATING;
                m.mode = M::EXECUTING;
            } else {
                m.grantNow(x);
                wantState = m.mode == M::FINISHED ? IterationResult::HALTED : IterationResult::NEXT_STEP;
            }
        };
        auto complete = [&] {
            switch (m.mode) {
                case M::PENDING_INIT:
                    init();
                    break;
                case M::PENDING_EXEC:
                    doExec(m.execReq);
                    break;
                case M::PENDING_TIME:
                    doTime(m.pendingTime);
                    break;
                case M::PENDING_ITERATIVE_TIME:
                    doIter(m.pendingTime, m.pendingIter);
                    break;
                case M::PENDING_FINALIZE:
                    m.mode = M::FINALIZE;
                    break;
                case M::PENDING_ITERATIVE_INIT:
                    m.mode = M::STARTUP;
                    break;
                default:
                    break;
            }
        };
        bool async = op == 1 || op == 4 || op == 7 || op == 10 || op == 13 || op == 16;
        if (m.single && async) {
            refused = true;
        } else {
            switch (op) {
                case 0:
                case 2:
                    refused = m.mode != M::STARTUP && m.mode != M::PENDING_INIT && m.mode != M::INITIALIZING;
                    if (!refused) {
                        init();
                    }
                    break;
                case 1:
                    refused = m.mode != M::STARTUP && m.mode != M::PENDING_INIT && m.mode != M::INITIALIZING;
                    if (m.mode == M::STARTUP) {
                        m.mode = M::PENDING_INIT;
                    }
                    break;
                case 3:
                case 5:
                    refused = m.mode != M::STARTUP && m.mode != M::PENDING_ITERATIVE_INIT;
                    if (!refused) {
                        m.mode = M::STARTUP;
                    }
                    break;
                case 4:
                    refused = m.mode != M::STARTUP && m.mode != M::PENDING_ITERATIVE_INIT;
                    if (!refused) {
                        m.mode = M::PENDING_ITERATIVE_INIT;
                    }
                    break;
                case 6:
                case 8:
                    if (op == 8) {
                        it = IterationRequest::NO_ITERATIONS;
                    }
                    if (m.mode == M::STARTUP || m.mode == M::PENDING_INIT || m.mode == M::INITIALIZING) {
                        doExec(it);
                    } else if (m.mode == M::PENDING_EXEC) {
                        doExec(m.execReq);
                    } else if (m.mode == M::PENDING_TIME || m.mode == M::PENDING_ITERATIVE_TIME) {
                        complete();
                        wantTime = false;
                        wantIter = false;
                    } else {
                        refused = m.mode != M::EXECUTING;
                    }
                    break;
                case 7:
                    if (m.mode == M::STARTUP || m.mode == M::PENDING_INIT || m.mode == M::INITIALIZING) {
                        m.execReq = it;
                        m.mode = M::PENDING_EXEC;
                    } else {
                        refused = m.mode != M::PENDING_EXEC && m.mode != M::EXECUTING && m.mode != M::PENDING_TIME && m.mode != M::PENDING_ITERATIVE_TIME;
                    }
                    break;
                case 9:
                    if (m.mode == M::EXECUTING) {
                        ++requests;
                        doTime(t);
                    } else {
                        refused = m.mode != M::FINALIZE && m.mode != M::FINISHED;
                    }
                    break;
                case 10:
                case 13:
                    refused = m.mode != M::EXECUTING;
                    if (!refused) {
                        ++requests;
                        m.mode = op == 10 ? M::PENDING_TIME : M::PENDING_ITERATIVE_TIME;
                        m.pendingTime = t;
                        m.pendingIter = it;
                    }
                    break;
                case 11:
                    refused = m.mode != M::PENDING_TIME;
                    if (!refused) {
                        doTime(m.pendingTime);
                    }
                    break;
                case 12:
                    if (m.mode == M::EXECUTING) {
                        ++requests;
                        doIter(t, it);
                    } else {
                        refused = m.mode != M::FINALIZE && m.mode != M::FINISHED;
                    }
                    break;
                case 14:
                    refused = m.mode != M::PENDING_ITERATIVE_TIME;
                    if (!refused) {
                        doIter(m.pendingTime, m.pendingIter);
                    }
                    break;
                case 15:
                case 17:
                    if (m.mode != M::ERROR_STATE) {
                        m.mode = M::FINALIZE;
                    }
                    break;
                case 16:
                    if (m.mode != M::ERROR_STATE && m.mode != M::FINALIZE) {
                        m.mode = M::PENDING_FINALIZE;
                    }
                    break;
                case 18:
                    break;
                case 19:
                case 20:
                    m.mode = M::ERROR_STATE;
                    break;
                default:
                    complete();
                    wantTime = wantIter = false;
            }
        }
        if (refused) {
            m = before;
        }
        if (m.mode != before.mode) {
            s.nontrivial();
        }
        s.tag(modeName(m.mode));
        auto tm = t >= cMax ? Time::maxVal() : Time(t, time_units::ns);
        try {
            switch (op) {
                case 0:
                    f->enterInitializingMode();
                    break;
                case 1:
                    f->enterInitializingModeAsync();
                    break;
                case 2:
                    f->enterInitializingModeComplete();
                    break;
                case 3:
                    f->enterInitializingModeIterative();
                    break;
                case 4:
                    f->enterInitializingModeIterativeAsync();
                    break;
                case 5:
                    f->enterInitializingModeIterativeComplete();
                    break;
                case 6:
                    eres = f->enterExecutingMode(it);
                    break;
                case 7:
                    f->enterExecutingModeAsync(it);
                    break;
                case 8:
                    eres = f->enterExecutingModeComplete();
                    break;
                case 9:
                    result = f->requestTime(tm);
                    break;
                case 10:
                    f->requestTimeAsync(tm);
                    break;
                case 11:
                    result = f->requestTimeComplete();
                    break;
                case 12:
                    iresult = f->requestTimeIterative(tm, it);
                    break;
                case 13:
                    f->requestTimeIterativeAsync(tm, it);
                    break;
                case 14:
                    iresult = f->requestTimeIterativeComplete();
                    break;
                case 15:
                    f->finalize();
                    break;
                case 16:
                    f->finalizeAsync();
                    break;
                case 17:
                    f->finalizeComplete();
                    break;
                case 18:
                    asyncDone = f->isAsyncOperationCompleted();
                    break;
                case 19:
                    f->localError(27, "an error");
                    break;
                case 20:
                    f->globalError(28, "an error");
                    break;
                default:
                    f->completeOperation();
            }
        }
        catch (const InvalidFunctionCall& e) {
            threw = true;
            what = e.what();
        }
        REQUIRE("refused", threw == refused, names[op], " in mode ", modeName(before.mode), threw ? " refused: " : " accepted", what);
        REQUIRE("mode", f->getCurrentMode() == m.mode, names[op], " in mode ", modeName(before.mode), " leads to ", modeName(f->getCurrentMode()), ", expected ", modeName(m.mode));
        bool pending = m.mode == M::PENDING_INIT || m.mode == M::PENDING_EXEC || m.mode == M::PENDING_TIME || m.mode == M::PENDING_ITERATIVE_TIME || m.mode == M::PENDING_FINALIZE || m.mode == M::PENDING_ITERATIVE_INIT;
        if (op == 18 && !pending) {
            REQUIRE("async-none", !asyncDone, "completed in mode ", modeName(m.mode));
        }
        if (op == 18 && pending && s.chance(1, 2)) {
            // it does complete
            auto stop = std::chrono::steady_clock::now() + std::chrono::seconds(20);
            while (!f->isAsyncOperationCompleted() && std::chrono::steady_clock::now() < stop) {
                std::this_thread::sleep_for(std::chrono::microseconds(100));
            }
            REQUIRE("async-done", f->isAsyncOperationCompleted(), "not completed in mode ", modeName(m.mode));
        }
        if (refused) {
            continue;
        }
        if (wantE && (op == 6 || op == 8)) {
            REQUIRE("exec-result", eres == wantState, "result ", static_cast<int>(eres), " expected ", static_cast<int>(wantState));
        }
        if (wantTime) {
            REQUIRE("granted", result.getBaseTimeCode() == m.now, result.getBaseTimeCode(), " expected ", m.now, " after ", before.now);
        }
        if (wantIter) {
            REQUIRE("iterative", iresult.state == wantState && iresult.grantedTime.getBaseTimeCode() == m.now, static_cast<int>(iresult.state), " at ", iresult.grantedTime.getBaseTimeCode(), " expected ",
                    static_cast<int>(wantState), " at ", m.now);
        }
        if ((op == 9 || op == 12) && (before.mode == M::FINALIZE || before.mode == M::FINISHED)) {
            REQUIRE("after-end", op == 9 ? result == Time::maxVal() : (iresult.grantedTime == Time::maxVal() && iresult.state == IterationResult::HALTED), "time after the end");
        }
        if (m.mode == M::EXECUTING && m.timeKnown) {
            REQUIRE("current-time", f->getCurrentTime().getBaseTimeCode() == m.now, f->getCurrentTime().getBaseTimeCode(), " expected ", m.now);
            REQUIRE("update-callback", log.lastUpdate == static_cast<double>(f->getCurrentTime()), log.lastUpdate);
            REQUIRE("exec-entry", log.execEntry == 1, log.execEntry);
            REQUIRE("request-callbacks", log.entry == requests, log.entry, " of ", requests);
        }
        if (m.mode == M::INITIALIZING) {
            REQUIRE("exec-early", log.execEntry == 0, "executing entry callback while initializing");
        }
        if (m.mode == M::FINALIZE || m.mode == M::ERROR_STATE) {
            REQUIRE("ended", log.ended >= 1, "no callback at the end");
        } else {
            REQUIRE("not-ended", log.ended == 0, "callback of the end in mode ", modeName(m.mode));
        }
        std::lock_guard<std::mutex> l(log.lock);
        if (!pending && m.mode != M::INITIALIZING && m.mode != M::STARTUP) {
            REQUIRE("last-change", !log.changes.empty() && log.changes.back().first == m.mode, "not reported: ", modeName(m.mode));
        }
        for (auto& c : log.changes) {
            REQUIRE("change", c.first != c.second, modeName(c.first));
        }
    }
    f->completeOperation();
    f->finalize();
    auto last = f->getCurrentMode();
    REQUIRE("final", last == M::FINALIZE || last == M::ERROR_STATE, modeName(last));
    f.reset();
}

PBT_MAIN("the mode of the federate changed at least once", 60)
