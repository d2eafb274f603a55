#include "cosim.hpp"

#include "gmlc/containers/SchedNoise.hpp"
#include "helics/core/BrokerBase.hpp"

#include <atomic>
#include <thread>
#include <unistd.h>

namespace cosim {
std::string valueText(int fed, int pub, int count, int type)
{
    if (type == 2) {
        return pbt::cat("v", fed, ".", pub, ".", count);
    }
    return pbt::cat(fed * 1000000 + pub * 10000 + count);
}
std::string defaultText() { return "-"; }

ns aligned(const Fed& f, ns t)
{
    if (f.period <= 1 || t == never) {
        return t;
    }
    if (t <= f.offset) {
        return f.offset;
    }
    auto k = (t - f.offset + f.period - 1) / f.period;
    return f.offset + k * f.period;
}
ns nextPossible(const Fed& f, ns g)
{
    auto delta = std::max<ns>(f.delta, 1);
    if (g == 0) {
        if (f.offset > delta) {
            return f.offset;
        }
        if (f.offset == 0) {
            return aligned(f, std::max(delta, f.period));
        }
        if (f.period <= 1) {
            return delta;
        }
        auto t = f.offset + f.period;
        while (t < delta) {
            t += f.period;
        }
        return t;
    }
    return aligned(f, g + std::max(delta, f.period));
}

static std::string tm(ns t) { return t == never ? "end" : std::to_string(t); }
static std::string show(const Act& a)
{
    return a.kind == 0 ? pbt::cat("p", a.idx) : pbt::cat("m", a.idx, a.dest.empty() ? "" : ">" + a.dest, a.at >= 0 ? pbt::cat("+", a.at) : "");
}
std::string show(const Spec& s)
{
    std::ostringstream o;
    o << s.core << " brokers";
    for (auto b : s.brokers) {
        o << " " << b;
    }
    o << " cores";
    for (auto c : s.cores) {
        o << " " << c;
    }
    o << (s.noise != 0 ? pbt::cat(" noise ", s.noise) : "") << "\n";
    for (auto& f : s.feds) {
        o << f.name << "@" << f.core;
        auto p = [&](const char* n, ns v) {
            if (v != 0) {
                o << " " << n << "=" << v;
            }
        };
        p("period", f.period);
        p("offset", f.offset);
        p("delta", f.delta);
        p("indelay", f.inDelay);
        p("outdelay", f.outDelay);
        p("uninterruptible", f.uninterruptible);
        p("wait", f.wait);
        p("event_triggered", f.eventTriggered);
        p("restrictive", f.restrictive);
        p("async", f.async);
        for (auto& x : f.pubs) {
            o << " pub(" << x.key << ")";
        }
        for (auto& x : f.ins) {
            o << " in(" << x.name;
            for (std::size_t i = 0; i < x.targets.size(); ++i) {
                o << " <" << x.link[i] << "- " << x.targets[i];
            }
            o << ")";
        }
        for (auto& x : f.eps) {
            o << " ep(" << x.key << (x.dest.empty() ? "" : ">" + x.dest) << ")";
        }
        o << " init[";
        for (auto& a : f.init) {
            o << show(a) << " ";
        }
        o << "] stop " << f.stop << "/" << f.maxGrants << " :";
        for (auto& st : f.script) {
            o << " [";
            for (auto& a : st.acts) {
                o << show(a) << " ";
            }
            o << "+" << tm(st.dt) << (st.iter != 0 ? pbt::cat(" iter", st.iter) : "") << "]";
        }
        o << "\n";
    }
    return o.str();
}
std::string show(const Trace& t, const Spec& s)
{
    std::ostringstream o;
    for (std::size_t i = 0; i < t.feds.size(); ++i) {
        auto& f = t.feds[i];
        o << s.feds[i].name << ":";
        int n = 0;
        for (auto& g : f.grants) {
            o << " " << tm(g.granted) << (g.granted == g.requested ? "" : "(" + tm(g.requested) + ")") << (g.result != 0 ? pbt::cat("r", g.result) : "") << "{";
            for (auto& x : g.ins) {
                o << x.value << (x.updated ? "! " : " ");
            }
            for (auto& m : g.msgs) {
                o << m.data << "@" << m.time << " ";
            }
            o << "}";
            for (auto& x : f.sent) {
                if (x.grant == n) {
                    o << (x.message ? "=>" : "->") << x.data;
                }
            }
            ++n;
        }
        o << (f.error.empty() ? "" : " error: " + f.error) << "\n";
    }
    return o.str();
}

namespace {
    struct Names {
        std::string base;
        std::string broker(int i) const { return pbt::cat(base, "b", i); }
        std::string core(int i) const { return pbt::cat(base, "c", i); }
    };

    helics::IterationRequest iterOf(int i) { return i == 0 ? helics::IterationRequest::NO_ITERATIONS : i == 1 ? helics::IterationRequest::ITERATE_IF_NEEDED : helics::IterationRequest::FORCE_ITERATION; }

    class Runner {
      public:
        const Spec& s;
        Trace t;
        Names names;
        helics::CoreType type;
        std::vector<std::shared_ptr<helics::Broker>> brokers;
        std::vector<std::shared_ptr<helics::Core>> cores;
        explicit Runner(const Spec& spec): s(spec)
        {
            static std::atomic<int> serial{0};
            names.base = pbt::cat("n", getpid(), "_", serial++, "_");
            type = helics::core::coreTypeFromString(s.core);
            t.feds.resize(s.feds.size());
        }
        int fedsBelow(int b) const
        {
            int n = 0;
            for (std::size_t i = 0; i < s.feds.size(); ++i) {
                int x = s.cores[static_cast<std::size_t>(s.feds[i].core)];
                while (x >= 0 && x != b) {
                    x = s.brokers[static_cast<std::size_t>(x)];
                }
                n += x == b ? 1 : 0;
            }
            return n;
        }
        int fedsOn(int c) const
        {
            int n = 0;
            for (auto& f : s.feds) {
                n += f.core == c ? 1 : 0;
            }
            return n;
        }
        void start()
        {
            for (std::size_t b = 0; b < s.brokers.size(); ++b) {
                auto below = fedsBelow(static_cast<int>(b));
                auto args = pbt::cat("-f ", below, " --loglevel=no_print ", s.brokerFlags);
                if (s.brokers[b] >= 0) {
                    args += " --broker=" + names.broker(s.brokers[b]);
                }
                brokers.push_back(below == 0 ? nullptr : helics::BrokerFactory::create(type, names.broker(static_cast<int>(b)), args));
            }
            for (std::size_t c = 0; c < s.cores.size(); ++c) {
                auto on = fedsOn(static_cast<int>(c));
                auto args = pbt::cat("-f ", on, " --loglevel=no_print ", s.coreFlags, " --broker=", names.broker(s.cores[c]));
                cores.push_back(on == 0 ? nullptr : helics::CoreFactory::create(type, names.core(static_cast<int>(c)), args));
            }
            // only saves time: a federate polls slowly for a core that is not registered yet
            for (auto& c : cores) {
                auto b = std::dynamic_pointer_cast<helics::BrokerBase>(c);
                if (c) {
                    c->connect();
                }
                for (int i = 0; b && i < 100 && (b->getGlobalId() == helics::parent_broker_id || !b->getGlobalId().isValid()); ++i) {
                    std::this_thread::sleep_for(std::chrono::microseconds(200));
                }
            }
        }
        struct Live {
            std::unique_ptr<helics::CombinationFederate> fed;
            std::vector<helics::Publication*> pubs;
            std::vector<helics::Input*> ins;
            std::vector<helics::Endpoint*> eps;
            std::vector<int> inType;
            std::vector<int> count;
            int msgCount{0};
        };
        int pubType(const std::string& key) const
        {
            for (auto& f : s.feds) {
                for (auto& p : f.pubs) {
                    if (p.key == key) {
                        return p.type;
                    }
                }
            }
            return 0;
        }
        void act(int i, Live& l, const Act& a, ns granted, int grant)
        {
            auto& f = s.feds[static_cast<std::size_t>(i)];
            Sent x;
            x.fed = i;
            x.granted = granted;
            x.grant = grant;
            x.idx = a.idx;
            if (a.kind == 0) {
                auto type = f.pubs[static_cast<std::size_t>(a.idx)].type;
                auto n = l.count[static_cast<std::size_t>(a.idx)]++;
                x.data = valueText(i, a.idx, n, type);
                if (type == 2) {
                    l.pubs[static_cast<std::size_t>(a.idx)]->publish(x.data);
                } else if (type == 1) {
                    l.pubs[static_cast<std::size_t>(a.idx)]->publish(static_cast<std::int64_t>(std::stoll(x.data)));
                } else {
                    l.pubs[static_cast<std::size_t>(a.idx)]->publish(std::stod(x.data));
                }
            } else {
                x.message = true;
                x.data = pbt::cat("m", i, ".", a.idx, ".", l.msgCount++);
                auto* e = l.eps[static_cast<std::size_t>(a.idx)];
                x.dest = a.dest.empty() ? f.eps[static_cast<std::size_t>(a.idx)].dest : a.dest;
                if (a.at >= 0) {
                    x.stated = std::max<ns>(granted, 0) + a.at;
                }
                if (a.dest.empty()) {
                    if (a.at >= 0) {
                        e->sendAt(x.data, T(x.stated));
                    } else {
                        e->send(x.data);
                    }
                } else if (a.at >= 0) {
                    e->sendToAt(x.data, a.dest, T(x.stated));
                } else {
                    e->sendTo(x.data, a.dest);
                }
            }
            t.feds[static_cast<std::size_t>(i)].sent.push_back(x);
        }
        void observe(int i, Live& l, Grant& g)
        {
            (void)i;
            for (std::size_t k = 0; k < l.ins.size(); ++k) {
                InSeen x;
                x.updated = l.ins[k]->isUpdated();
                x.last = N(l.ins[k]->getLastUpdate());
                if (l.inType[k] == 2) {
                    x.value = l.ins[k]->getValue<std::string>();
                    if (x.value.empty() || x.value == "#invalid" || x.value.rfind("-9999999999999999", 0) == 0) {
                        x.value = defaultText();
                    }
                } else {
                    auto v = l.ins[k]->getValue<double>();
                    x.value = (v < -1e48) ? defaultText() : pbt::cat(v);
                }
                g.ins.push_back(x);
            }
            for (std::size_t k = 0; k < l.eps.size(); ++k) {
                while (auto m = l.eps[k]->getMessage()) {
                    MsgSeen x;
                    x.ep = static_cast<int>(k);
                    x.time = N(m->time);
                    x.source = m->source;
                    x.original = m->original_source;
                    x.dest = m->dest;
                    x.data = std::string(m->data.to_string());
                    g.msgs.push_back(x);
                }
            }
        }
        void federate(int i)
        {
            auto& f = s.feds[static_cast<std::size_t>(i)];
            auto& tr = t.feds[static_cast<std::size_t>(i)];
            Live l;
            try {
                helics::FederateInfo fi(type);
                fi.coreName = names.core(f.core);
                fi.forceNewCore = false;
                fi.setProperty(HELICS_PROPERTY_INT_LOG_LEVEL, HELICS_LOG_LEVEL_NO_PRINT);
                auto tp = [&](int p, ns v) {
                    if (v != 0) {
                        fi.setProperty(p, T(v));
                    }
                };
                tp(HELICS_PROPERTY_TIME_PERIOD, f.period);
                tp(HELICS_PROPERTY_TIME_OFFSET, f.offset);
                tp(HELICS_PROPERTY_TIME_DELTA, f.delta);
                tp(HELICS_PROPERTY_TIME_INPUT_DELAY, f.inDelay);
                tp(HELICS_PROPERTY_TIME_OUTPUT_DELAY, f.outDelay);
                auto fl = [&](int p, bool v) {
                    if (v) {
                        fi.setFlagOption(p, true);
                    }
                };
                fl(HELICS_FLAG_UNINTERRUPTIBLE, f.uninterruptible);
                fl(HELICS_FLAG_WAIT_FOR_CURRENT_TIME_UPDATE, f.wait);
                fl(HELICS_FLAG_EVENT_TRIGGERED, f.eventTriggered);
                fl(HELICS_FLAG_RESTRICTIVE_TIME_POLICY, f.restrictive);
                l.fed = std::make_unique<helics::CombinationFederate>(f.name, fi);
                auto& fed = *l.fed;
                const char* types[] = {"double", "int", "string"};
                for (auto& p : f.pubs) {
                    l.pubs.push_back(&(p.global ? fed.registerGlobalPublication(p.key, types[p.type]) : fed.registerPublication(p.key.substr(f.name.size() + 1), types[p.type])));
                    l.count.push_back(0);
                }
                for (auto& e : f.eps) {
                    l.eps.push_back(&(e.global ? fed.registerGlobalEndpoint(e.key) : fed.registerEndpoint(e.key.substr(f.name.size() + 1))));
                    if (!e.dest.empty()) {
                        l.eps.back()->setDefaultDestination(e.dest);
                    }
                }
                for (auto& in : f.ins) {
                    auto type = pubType(in.targets.empty() ? "" : in.targets[0]);
                    l.inType.push_back(type);
                    l.ins.push_back(&(in.link.size() == 1 && in.link[0] == 4 ? fed.registerSubscription(in.targets[0]) : fed.registerGlobalInput(in.name, types[type])));
                    for (std::size_t k = 0; k < in.targets.size(); ++k) {
                        switch (in.link[k]) {
                            case 0:
                                l.ins.back()->addTarget(in.targets[k]);
                                break;
                            case 2:
                                cores[static_cast<std::size_t>(f.core)]->dataLink(in.targets[k], in.name);
                                break;
                            case 3:
                                brokers[0]->dataLink(in.targets[k], in.name);
                                break;
                            default:
                                break;
                        }
                    }
                }
                for (auto& g : s.feds) {
                    for (auto& in : g.ins) {
                        for (std::size_t k = 0; k < in.targets.size(); ++k) {
                            for (std::size_t p = 0; p < f.pubs.size(); ++p) {
                                if (in.link[k] == 1 && in.targets[k] == f.pubs[p].key) {
                                    l.pubs[p]->addDestinationTarget(in.name);
                                }
                            }
                        }
                    }
                }
                if (f.async) {
                    fed.enterInitializingModeAsync();
                    fed.enterInitializingModeComplete();
                } else {
                    fed.enterInitializingMode();
                }
                for (auto& a : f.init) {
                    act(i, l, a, -1, -1);
                }
                if (f.async) {
                    fed.enterExecutingModeAsync();
                    fed.enterExecutingModeComplete();
                } else {
                    fed.enterExecutingMode();
                }
                Grant g;
                g.granted = N(fed.getCurrentTime());
                observe(i, l, g);
                tr.grants.push_back(g);
                for (int n = 0; n < f.maxGrants; ++n) {
                    if (g.granted >= f.stop) {
                        break;
                    }
                    auto dt = never;
                    auto iter = 0;
                    if (!f.script.empty()) {
                        auto& st = f.script[static_cast<std::size_t>(n) % f.script.size()];
                        for (auto& a : st.acts) {
                            act(i, l, a, g.granted, n);
                        }
                        dt = st.dt;
                        iter = st.iter;
                    }
                    auto before = g.granted;
                    g = Grant();
                    g.requested = dt == never ? never : before + dt;
                    g.iter = iter;
                    auto req = g.requested == never ? helics::Time::maxVal() : T(g.requested);
                    if (iter == 0) {
                        if (f.async) {
                            fed.requestTimeAsync(req);
                            g.granted = N(fed.requestTimeComplete());
                        } else {
                            g.granted = N(fed.requestTime(req));
                        }
                    } else {
                        helics::iteration_time r;
                        if (f.async) {
                            fed.requestTimeIterativeAsync(req, iterOf(iter));
                            r = fed.requestTimeIterativeComplete();
                        } else {
                            r = fed.requestTimeIterative(req, iterOf(iter));
                        }
                        g.granted = N(r.grantedTime);
                        g.result = r.state == helics::IterationResult::NEXT_STEP ? 0 : r.state == helics::IterationResult::ITERATING ? 3 : r.state == helics::IterationResult::HALTED ? 2 : 1;
                    }
                    if (g.granted >= N(helics::Time::maxVal())) {
                        g.granted = never;
                        g.result = 2;
                    }
                    observe(i, l, g);
                    tr.grants.push_back(g);
                }
                fed.finalize();
            }
            catch (const std::exception& e) {
                tr.error = e.what();
                try {
                    if (l.fed) {
                        l.fed->finalize();
                    }
                }
                catch (...) {
                }
            }
            l.fed.reset();
        }
        void go()
        {
            verif::noiseSeed = s.noiseSeed;
            verif::noiseLevel = s.noise;
            try {
                start();
                std::vector<std::thread> th;
                for (std::size_t k = 0; k < s.feds.size(); ++k) {
                    auto i = static_cast<int>(s.reverseStart ? s.feds.size() - 1 - k : k);
                    th.emplace_back([this, i] { federate(i); });
                }
                for (auto& x : th) {
                    x.join();
                }
                for (auto& b : brokers) {
                    if (b && !b->waitForDisconnect(std::chrono::milliseconds(20000))) {
                        t.brokersEnded = false;
                        b->disconnect();
                    }
                }
            }
            catch (const std::exception& e) {
                t.error = e.what();
            }
            verif::noiseLevel = 0;
            cores.clear();
            brokers.clear();
            helics::cleanupHelicsLibrary();
        }
    };
}  // namespace
Trace run(const Spec& s)
{
    if (getenv("PBT_SHOW") != nullptr) {
        std::fprintf(stderr, "%s", show(s).c_str());
    }
    Runner r(s);
    r.go();
    return std::move(r.t);
}
}  // namespace cosim
