#include "cosim.hpp"

#include <fcntl.h>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

namespace cosim {
Spec generate(pbt::Src& s, const Gen& o)
{
    Spec sp;
    auto n = static_cast<int>(1 + s.weighted({1, 6, 6, 3, 1}));
    n = std::min(n, o.maxFeds);
    ns u = s.pick<ns>({1000000, 1000000000, 1, 7, 250000000});
    sp.core = s.chance(1, 3) ? "inproc" : "test";
    // (messages across more than one broker can hang: a known finding)
    auto nb = o.messages ? 1 : 1 + static_cast<int>(s.weighted({6, 2, 2}));
    for (int b = 1; b < nb; ++b) {
        sp.brokers.push_back(static_cast<int>(s.draw(static_cast<std::uint64_t>(b))));
    }
    auto nc = 1 + static_cast<int>(s.draw(static_cast<std::uint64_t>(n)));
    sp.cores.clear();
    for (int c = 0; c < nc; ++c) {
        sp.cores.push_back(static_cast<int>(s.draw(static_cast<std::uint64_t>(nb))));
    }
    sp.reverseStart = s.boolean();
    if (s.chance(1, 2)) {
        sp.noise = static_cast<unsigned>(1 + s.draw(60));
        sp.noiseSeed = s.bits();
    }
    std::vector<std::string> pubKeys;
    std::vector<std::string> epKeys;
    for (int i = 0; i < n; ++i) {
        Fed f;
        f.name = pbt::cat("f", i);
        f.core = static_cast<int>(s.draw(static_cast<std::uint64_t>(nc)));
        if (o.tieFree) {
            // times of the federate i are i+1 modulo 8 units
            f.period = u * 8 * s.range<ns>(1, 3);
            f.offset = u * (8 * s.range<ns>(0, 2) + i + 1);
            if (s.chance(1, 6)) {
                f.delta = u * 8 * s.range<ns>(1, 4);
            }
            if (o.delays && s.chance(1, 4)) {
                f.outDelay = u * 8 * s.range<ns>(1, 3);
            }
        } else {
            if (s.boolean()) {
                f.period = u * s.range<ns>(1, 4);
            }
            if (s.chance(1, 3)) {
                f.offset = u * s.range<ns>(1, 5);
            }
            if (s.chance(1, 3)) {
                f.delta = u * s.range<ns>(1, 3);
            }
            if (o.delays && s.chance(1, 4)) {
                f.outDelay = u * s.range<ns>(1, 3);
            }
            if (o.delays && s.chance(1, 6)) {
                f.inDelay = u * s.range<ns>(1, 3);
            }
        }
        f.uninterruptible = s.chance(1, 4);
        f.wait = o.wait && s.chance(1, 8);
        f.async = s.chance(1, 6);
        if (o.values) {
            auto np = s.weighted({2, 5, 2});
            for (std::size_t p = 0; p < np; ++p) {
                Pub x;
                x.global = s.boolean();
                x.key = x.global ? pbt::cat("pub", i, "_", p) : pbt::cat(f.name, "/pub", p);
                x.type = static_cast<int>(s.draw(3));
                f.pubs.push_back(x);
                pubKeys.push_back(x.key);
            }
        }
        if (o.messages) {
            auto ne = s.weighted({3, 4, 1});
            for (std::size_t p = 0; p < ne; ++p) {
                Ep x;
                x.global = s.boolean();
                x.key = x.global ? pbt::cat("ep", i, "_", p) : pbt::cat(f.name, "/ep", p);
                f.eps.push_back(x);
                epKeys.push_back(x.key);
            }
        }
        sp.feds.push_back(f);
    }
    for (int i = 0; i < n; ++i) {
        auto& f = sp.feds[static_cast<std::size_t>(i)];
        auto own = [&](const std::string& k) {
            for (auto& p : f.pubs) {
                if (p.key == k) {
                    return true;
                }
            }
            return false;
        };
        auto ni = pubKeys.empty() ? 0 : s.weighted({1, 3, 2});
        for (std::size_t k = 0; k < ni; ++k) {
            In in;
            in.name = pbt::cat("in", i, "_", k);
            auto nt = o.multiTarget ? 1 + s.weighted({3, 2, 1}) : 1;
            for (std::size_t x = 0; x < nt; ++x) {
                auto key = s.pick(pubKeys);
                if ((own(key) && (o.tieFree || !s.chance(1, 4))) || std::find(in.targets.begin(), in.targets.end(), key) != in.targets.end()) {
                    continue;
                }
                in.targets.push_back(key);
                in.link.push_back(static_cast<int>(s.draw(nt == 1 ? 5 : 4)));
            }
            if (!in.targets.empty()) {
                f.ins.push_back(in);
            }
        }
        std::vector<std::string> others;  // (what goes to itself is a tie)
        for (auto& k : epKeys) {
            bool mine = false;
            for (auto& e : f.eps) {
                mine = mine || e.key == k;
            }
            if (!mine || !o.tieFree) {
                others.push_back(k);
            }
        }
        if (o.tieFree && others.empty()) {
            f.eps.clear();
        }
        for (auto& e : f.eps) {
            if (s.chance(1, 3)) {
                e.dest = s.pick(others);
            }
        }
        auto act = [&](bool init) {
            Act a;
            a.kind = f.eps.empty() ? 0 : f.pubs.empty() ? 1 : static_cast<int>(s.draw(2));
            if (a.kind == 0) {
                a.idx = static_cast<int>(s.draw(f.pubs.size()));
            } else {
                a.idx = static_cast<int>(s.draw(f.eps.size()));
                if (f.eps[static_cast<std::size_t>(a.idx)].dest.empty() || s.boolean()) {
                    a.dest = s.pick(others.empty() ? epKeys : others);
                }
                if (o.delays && !init && s.chance(1, 3)) {
                    a.at = o.tieFree ? u * 8 * s.range<ns>(0, 4) : u * s.range<ns>(0, 6);
                }
            }
            return a;
        };
        auto can = !f.pubs.empty() || !f.eps.empty();
        if (can && s.chance(1, 4)) {
            auto k = 1 + s.draw(2);
            for (std::uint64_t x = 0; x < k; ++x) {
                f.init.push_back(act(true));
            }
        }
        auto ns_ = 1 + s.draw(4);
        for (std::uint64_t k = 0; k < ns_; ++k) {
            Step st;
            // (one that is uninterruptible and waits for the end of time can deadlock with others: a known finding)
            switch (s.weighted({6, 2, 1, f.uninterruptible ? 0U : 1U})) {
                case 0:
                    st.dt = u * s.range<ns>(1, 6) * (o.tieFree ? 8 : 1);
                    break;
                case 1:
                    st.dt = u * s.range<ns>(1, 40);
                    break;
                case 2:
                    st.dt = 0;
                    break;
                default:
                    st.dt = never;
            }
            if (can) {
                auto na = s.weighted({2, 4, 2, 1});
                for (std::size_t x = 0; x < na; ++x) {
                    st.acts.push_back(act(false));
                }
            }
            f.script.push_back(st);
        }
        f.stop = u * s.range<ns>(4, 24) * (o.tieFree ? 8 : 1);
        f.maxGrants = 30;
    }
    // two that wait for each other until the end of time: a known finding
    bool ends = false;
    for (auto& f : sp.feds) {
        bool mine = false;
        for (auto& st : f.script) {
            if (st.dt == never) {
                if (ends) {
                    st.dt = f.stop;
                } else {
                    mine = true;
                }
            }
        }
        ends = ends || mine;
    }
    if (o.restrictive) {
        for (auto& f : sp.feds) {
            f.restrictive = true;
        }
        sp.brokerFlags = "--restrictive_time_policy";
        sp.coreFlags = "--restrictive_time_policy";
    } else {
        limitChains(sp);
    }
    return sp;
}
void limitChains(Spec& s)
{
    auto n = s.feds.size();
    auto anyEp = [&](std::size_t i) { return !s.feds[i].eps.empty(); };
    auto sends = [&](std::size_t i) {
        return anyEp(i) && std::any_of(s.feds[i].script.begin(), s.feds[i].script.end(), [](auto& st) { return !st.acts.empty(); });
    };
    int turn = 0;
    for (auto& f : s.feds) {
        if (f.eps.empty()) {
            continue;
        }
        // known findings: one with endpoints that asks for the end of time, and one that a message wakes and that then
        // sends or publishes something
        bool acts = false;
        for (auto& st : f.script) {
            st.dt = st.dt == never ? f.stop : st.dt;
            acts = acts || !st.acts.empty();
        }
        if (acts || !f.pubs.empty() || !f.ins.empty()) {
            if (f.uninterruptible || !f.pubs.empty() || !f.ins.empty() || (++turn % 2) != 0) {
                f.uninterruptible = true;
            } else {
                for (auto& st : f.script) {
                    st.acts.clear();
                }
            }
        }
    }
    std::vector<std::set<std::size_t>> from(n);
    for (std::size_t i = 0; i < n; ++i) {
        for (std::size_t j = 0; j < n; ++j) {
            if (i == j) {
                continue;
            }
            for (auto& in : s.feds[i].ins) {
                for (auto& t : in.targets) {
                    for (auto& p : s.feds[j].pubs) {
                        if (p.key == t) {
                            from[i].insert(j);
                        }
                    }
                }
            }
            if (anyEp(i) && sends(j)) {
                from[i].insert(j);
            }
        }
    }
    auto wakeable = [&](std::size_t i) { return !s.feds[i].uninterruptible && !from[i].empty(); };
    for (bool again = true; again;) {
        again = false;
        for (std::size_t f = 0; f < n; ++f) {
            for (auto p : from[f]) {
                if (!wakeable(p)) {
                    continue;
                }
                for (auto q : from[p]) {
                    if (q != f && wakeable(q)) {
                        s.feds[q].uninterruptible = true;
                        for (auto& st : s.feds[q].script) {
                            st.dt = st.dt == never ? s.feds[q].stop : st.dt;
                        }
                        again = true;
                    }
                }
            }
        }
    }
}

std::vector<Event> eventsFor(const Spec& s, const Trace& t, int fed)
{
    std::vector<Event> r;
    auto& f = s.feds[static_cast<std::size_t>(fed)];
    for (std::size_t a = 0; a < t.feds.size(); ++a) {
        auto out = s.feds[a].outDelay;
        for (auto& x : t.feds[a].sent) {
            Event e;
            e.sent = &x;
            e.e = x.granted < 0 ? -1 : x.granted + out;
            if (x.message) {
                e.e = std::max(e.e, x.stated);
                for (std::size_t k = 0; k < f.eps.size(); ++k) {
                    if (f.eps[k].key == x.dest) {
                        e.ep = static_cast<int>(k);
                        r.push_back(e);
                    }
                }
            } else {
                auto& key = s.feds[a].pubs[static_cast<std::size_t>(x.idx)].key;
                for (std::size_t k = 0; k < f.ins.size(); ++k) {
                    for (std::size_t m = 0; m < f.ins[k].targets.size(); ++m) {
                        if (f.ins[k].targets[m] == key) {
                            e.in = static_cast<int>(k);
                            e.target = static_cast<int>(m);
                            r.push_back(e);
                        }
                    }
                }
            }
        }
    }
    std::stable_sort(r.begin(), r.end(), [](const Event& a, const Event& b) { return a.e < b.e; });
    return r;
}
void checkRan(const Spec& s, const Trace& t)
{
    REQUIRE("error", t.error.empty(), t.error);
    for (std::size_t i = 0; i < t.feds.size(); ++i) {
        REQUIRE("error", t.feds[i].error.empty(), s.feds[i].name, ": ", t.feds[i].error);
    }
    REQUIRE("ended", t.brokersEnded, "a broker is still running after all federates have finished");
}
static ns plus(ns a, ns b) { return a == never ? never : a + b; }
/// the grant shows what happens at its own time too
static bool inclusive(const Fed& f, const Grant& g) { return f.wait || (g.granted < g.requested); }

void checkGrants(const Spec& s, const Trace& t)
{
    for (std::size_t i = 0; i < t.feds.size(); ++i) {
        auto& f = s.feds[i];
        auto& tr = t.feds[i];
        auto ev = eventsFor(s, t, static_cast<int>(i));
        for (std::size_t k = 0; k < tr.grants.size(); ++k) {
            auto& g = tr.grants[k];
            if (k == 0) {
                REQUIRE("start", g.granted == 0, f.name, " starts at ", g.granted);
                continue;
            }
            auto& p = tr.grants[k - 1];
            auto next = nextPossible(f, p.granted);
            auto req = aligned(f, std::max(g.requested, next));
            auto what = pbt::cat(f.name, " at ", p.granted, " requested ", g.requested, " and was granted ", g.granted);
            REQUIRE("forward", g.granted > p.granted, what);
            REQUIRE("next", g.granted >= next, what, " before the next possible time ", next);
            REQUIRE("late", g.granted <= req, what, " later than ", req);
            REQUIRE("period", aligned(f, g.granted) == g.granted, what, " which is not on its grid");
            if (f.uninterruptible) {
                REQUIRE("uninterruptible", g.granted == req, what, " and not ", req);
                continue;
            }
            auto incl = inclusive(f, p);
            bool why = g.granted == req;
            for (auto& e : ev) {
                auto at = aligned(f, plus(std::max(e.e, next), e.e < never ? f.inDelay : 0));
                why = why || (plus(e.e, f.inDelay) >= p.granted && at == g.granted);
                if (e.e > p.granted || (!incl && e.e == p.granted)) {
                    REQUIRE("skipped", at >= g.granted, what, " but ", e.sent->data, " of time ", e.e, " comes at ", at);
                }
            }
            REQUIRE("unjustified", why, what, " although nothing happens then");
            if (g.granted < req) {
                bool news = !g.msgs.empty();
                for (auto& x : g.ins) {
                    news = news || x.updated;
                }
                REQUIRE("nothing", news, what, " early but shows nothing new");
            }
        }
    }
}
void checkValues(const Spec& s, const Trace& t)
{
    for (std::size_t i = 0; i < t.feds.size(); ++i) {
        auto& f = s.feds[i];
        auto& tr = t.feds[i];
        auto all = eventsFor(s, t, static_cast<int>(i));
        for (std::size_t x = 0; x < f.ins.size(); ++x) {
            if (f.ins[x].targets.size() != 1) {
                continue;
            }
            std::vector<Event> ev;
            for (auto& e : all) {
                if (e.in == static_cast<int>(x)) {
                    ev.push_back(e);
                }
            }
            int shown = -1;
            ns last = 0;
            for (std::size_t k = 0; k < tr.grants.size(); ++k) {
                auto& g = tr.grants[k];
                auto& seen = g.ins[x];
                int must = -1;
                int may = -1;
                for (int j = 0; j < static_cast<int>(ev.size()); ++j) {
                    auto e = ev[static_cast<std::size_t>(j)].e;
                    if (e < 0 || (e + f.inDelay < g.granted)) {
                        must = j;
                    }
                    if (e < 0 || e < g.granted || (e == g.granted && inclusive(f, g))) {
                        may = j;
                    }
                }
                int got = -2;
                if (seen.value == defaultText()) {
                    got = -1;
                }
                for (int j = 0; j < static_cast<int>(ev.size()); ++j) {
                    if (ev[static_cast<std::size_t>(j)].sent->data == seen.value) {
                        got = j;
                    }
                }
                auto what = pbt::cat(f.name, " input ", f.ins[x].name, " at ", g.granted, " (requested ", g.requested, ") shows ", seen.value);
                REQUIRE("invented", got != -2, what, " which was never published to it");
                REQUIRE("future", got <= may, what, " of time ", ev[static_cast<std::size_t>(std::max(got, 0))].e);
                REQUIRE("stale", got >= must, what, " and not ", ev[static_cast<std::size_t>(std::max(must, 0))].sent->data, " of time ", ev[static_cast<std::size_t>(std::max(must, 0))].e);
                REQUIRE("back", got >= shown, what, " after a later value");
                REQUIRE("updated", seen.updated == (got > shown), what, seen.updated ? " as updated" : " as not updated");
                if (seen.updated) {
                    last = g.granted;
                }
                REQUIRE("lastupdate", shown < 0 || seen.last == last, what, " updated at ", seen.last, " and not ", last);
                shown = got;
            }
        }
    }
}
void checkMessages(const Spec& s, const Trace& t)
{
    for (std::size_t i = 0; i < t.feds.size(); ++i) {
        auto& f = s.feds[i];
        auto& tr = t.feds[i];
        auto all = eventsFor(s, t, static_cast<int>(i));
        for (std::size_t x = 0; x < f.eps.size(); ++x) {
            std::map<std::string, const Event*> due;
            for (auto& e : all) {
                if (e.ep == static_cast<int>(x)) {
                    due[e.sent->data] = &e;
                }
            }
            std::set<std::string> had;
            for (std::size_t k = 0; k < tr.grants.size(); ++k) {
                auto& g = tr.grants[k];
                ns lastTime = -1;
                std::map<std::string, int> lastOf;
                std::map<std::string, ns> lastOfTime;
                for (auto& m : g.msgs) {
                    if (m.ep != static_cast<int>(x)) {
                        continue;
                    }
                    auto what = pbt::cat(f.name, " endpoint ", f.eps[x].key, " at ", g.granted, " (requested ", g.requested, ") gets ", m.data, " of time ", m.time);
                    REQUIRE("invented", due.count(m.data) != 0, what, " which was not sent to it");
                    auto& e = *due[m.data];
                    REQUIRE("twice", had.insert(m.data).second, what, " again");
                    auto& from = s.feds[static_cast<std::size_t>(e.sent->fed)].eps[static_cast<std::size_t>(e.sent->idx)].key;
                    REQUIRE("source", m.source == from && m.original == from, what, " from ", m.source, " / ", m.original, " and not ", from);
                    REQUIRE("destination", m.dest == f.eps[x].key, what, " for ", m.dest);
                    REQUIRE("time", e.e < 0 ? m.time <= 0 : m.time == e.e, what, " and not ", e.e);
                    REQUIRE("early", e.e < g.granted || (e.e == g.granted && inclusive(f, g)), what);
                    REQUIRE("order", e.e < 0 || m.time >= lastTime, what, " after one of time ", lastTime);
                    lastTime = m.time;
                    // messages of one source with one time come in the order they were sent
                    auto num = std::stoi(m.data.substr(m.data.rfind('.') + 1));
                    if (lastOf.count(from) != 0 && lastOfTime[from] == m.time) {
                        REQUIRE("order", num > lastOf[from], what, " after a later one from there");
                    }
                    lastOf[from] = num;
                    lastOfTime[from] = m.time;
                }
                for (auto& [d, e] : due) {
                    if (had.count(d) == 0) {
                        REQUIRE("lost", !(e->e < 0 || e->e + f.inDelay < g.granted), f.name, " endpoint ", f.eps[x].key, " at ", g.granted, " has not got ", d, " of time ", e->e);
                    }
                }
            }
        }
    }
}

Trace simulate(const Spec& s)
{
    struct Live {
        std::vector<int> count;
        int msgs{0};
        ns granted{0};
        ns req{0};
        bool done{false};
        std::size_t seenSent{0};
        std::set<std::string> had;
        std::vector<int> shown;
        std::vector<ns> last;
    };
    Trace t;
    t.feds.resize(s.feds.size());
    std::vector<Live> live(s.feds.size());
    auto act = [&](std::size_t i, const Act& a, ns granted, int grant) {
        auto& f = s.feds[i];
        auto& l = live[i];
        Sent x;
        x.fed = static_cast<int>(i);
        x.granted = granted;
        x.grant = grant;
        x.idx = a.idx;
        if (a.kind == 0) {
            x.data = valueText(x.fed, a.idx, l.count[static_cast<std::size_t>(a.idx)]++, f.pubs[static_cast<std::size_t>(a.idx)].type);
        } else {
            x.message = true;
            x.data = pbt::cat("m", i, ".", a.idx, ".", l.msgs++);
            x.dest = a.dest.empty() ? f.eps[static_cast<std::size_t>(a.idx)].dest : a.dest;
            x.stated = a.at >= 0 ? std::max<ns>(granted, 0) + a.at : -1;
        }
        t.feds[i].sent.push_back(x);
    };
    auto observe = [&](std::size_t i, Grant& g, bool first) {
        auto& f = s.feds[i];
        auto& l = live[i];
        auto ev = eventsFor(s, t, static_cast<int>(i));
        std::vector<std::string> val(f.ins.size());
        std::vector<const Event*> newest(f.ins.size(), nullptr);
        for (auto& e : ev) {
            if (!(e.e < 0 || (!first && (e.e < g.granted || (e.e == g.granted && inclusive(f, g)))))) {
                continue;
            }
            if (e.in >= 0) {
                newest[static_cast<std::size_t>(e.in)] = &e;
            } else if (l.had.insert(pbt::cat(e.ep, ":", e.sent->data)).second) {
                MsgSeen m;
                m.ep = e.ep;
                m.data = e.sent->data;
                m.time = e.e;
                g.msgs.push_back(m);
            }
        }
        for (std::size_t x = 0; x < f.ins.size(); ++x) {
            InSeen in;
            in.value = newest[x] != nullptr ? newest[x]->sent->data : defaultText();
            auto& prev = t.feds[i].grants;
            in.updated = newest[x] != nullptr && (prev.empty() || prev.back().ins[x].value != in.value);
            g.ins.push_back(in);
        }
        t.feds[i].grants.push_back(g);
    };
    auto go = [&](std::size_t i) {  // what it does after a grant
        auto& f = s.feds[i];
        auto& l = live[i];
        auto n = static_cast<int>(t.feds[i].grants.size()) - 1;
        if (n >= f.maxGrants || l.granted >= f.stop) {
            l.done = true;
            return;
        }
        auto& st = f.script[static_cast<std::size_t>(n) % f.script.size()];
        for (auto& a : st.acts) {
            act(i, a, l.granted, n);
        }
        l.req = st.dt == never ? never : l.granted + st.dt;
    };
    for (std::size_t i = 0; i < s.feds.size(); ++i) {
        live[i].count.resize(s.feds[i].pubs.size());
        for (auto& a : s.feds[i].init) {
            act(i, a, -1, -1);
        }
    }
    for (std::size_t i = 0; i < s.feds.size(); ++i) {
        Grant g;
        observe(i, g, true);
    }
    for (std::size_t i = 0; i < s.feds.size(); ++i) {
        go(i);
    }
    while (true) {
        std::size_t best = s.feds.size();
        ns bestAt = 0;
        for (std::size_t i = 0; i < s.feds.size(); ++i) {
            auto& f = s.feds[i];
            auto& l = live[i];
            if (l.done) {
                continue;
            }
            auto next = nextPossible(f, l.granted);
            auto at = aligned(f, std::max(l.req, next));
            if (!f.uninterruptible) {
                auto& p = t.feds[i].grants.back();
                for (auto& e : eventsFor(s, t, static_cast<int>(i))) {
                    if (e.e > p.granted || (e.e == p.granted && (t.feds[i].grants.size() == 1 || !inclusive(f, p)))) {
                        at = std::min(at, aligned(f, std::max(e.e, next)));
                    }
                }
            }
            if (best == s.feds.size() || at < bestAt) {
                best = i;
                bestAt = at;
            }
        }
        if (best == s.feds.size()) {
            return t;
        }
        Grant g;
        g.requested = live[best].req;
        g.granted = bestAt;
        g.result = bestAt == never ? 2 : 0;
        live[best].granted = bestAt;
        observe(best, g, false);
        go(best);
    }
}
void checkSame(const Spec& s, const Trace& want, const Trace& got)
{
    for (std::size_t i = 0; i < s.feds.size(); ++i) {
        auto& f = s.feds[i];
        auto& a = want.feds[i].grants;
        auto& b = got.feds[i].grants;
        for (std::size_t k = 0; k < std::min(a.size(), b.size()); ++k) {
            auto what = pbt::cat(f.name, " grant ", k, " (requested ", a[k].requested, ")");
            REQUIRE("grant", a[k].granted == b[k].granted, what, " is ", b[k].granted, " and not ", a[k].granted);
            for (std::size_t x = 0; x < f.ins.size(); ++x) {
                REQUIRE("value", a[k].ins[x].value == b[k].ins[x].value, what, " at ", a[k].granted, " shows ", b[k].ins[x].value, " and not ", a[k].ins[x].value, " at ", f.ins[x].name);
                REQUIRE("updated", a[k].ins[x].updated == b[k].ins[x].updated, what, " at ", a[k].granted, b[k].ins[x].updated ? " updates " : " does not update ", f.ins[x].name);
            }
            auto list = [](const Grant& g) {
                std::vector<std::string> r;
                for (auto& m : g.msgs) {
                    r.push_back(pbt::cat(m.ep, ":", m.data, " "));
                }
                std::sort(r.begin(), r.end());
                std::string o;
                for (auto& x : r) {
                    o += x;
                }
                return o;
            };
            REQUIRE("messages", list(a[k]) == list(b[k]), what, " at ", a[k].granted, " gets ", list(b[k]), " and not ", list(a[k]));
        }
        REQUIRE("count", a.size() == b.size(), f.name, " had ", b.size(), " grants and not ", a.size());
    }
}
static ns num(const std::string& s) { return s == "end" ? never : std::stoll(s); }
static Act actOf(std::string w)
{
    Act a;
    a.kind = w[0] == 'm';
    auto plus = w.find('+');
    if (plus != std::string::npos) {
        a.at = num(w.substr(plus + 1));
        w = w.substr(0, plus);
    }
    auto gt = w.find('>');
    if (gt != std::string::npos) {
        a.dest = w.substr(gt + 1);
        w = w.substr(0, gt);
    }
    a.idx = std::stoi(w.substr(1));
    return a;
}
Spec parseSpec(std::istream& in)
{
    Spec s;
    s.cores.clear();
    s.brokers.clear();
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string w;
        if (s.brokers.empty()) {
            is >> s.core >> w;
            int mode = 0;
            while (is >> w) {
                if (w == "cores" || w == "noise") {
                    mode = w == "cores" ? 1 : 2;
                } else if (mode == 2) {
                    s.noise = std::stoi(w);
                } else {
                    (mode == 0 ? s.brokers : s.cores).push_back(std::stoi(w));
                }
            }
            continue;
        }
        auto at = line.find('@');
        if (line.empty() || at == std::string::npos || line[0] != 'f') {
            break;
        }
        Fed f;
        is >> w;
        f.name = w.substr(0, w.find('@'));
        f.core = std::stoi(w.substr(w.find('@') + 1));
        while (is >> w) {
            auto eq = w.find('=');
            if (w.rfind("pub(", 0) == 0) {
                Pub p;
                p.key = w.substr(4, w.size() - 5);
                p.global = p.key.find('/') == std::string::npos;
                f.pubs.push_back(p);
            } else if (w.rfind("ep(", 0) == 0) {
                Ep e;
                e.key = w.substr(3, w.size() - 4);
                auto gt = e.key.find('>');
                if (gt != std::string::npos) {
                    e.dest = e.key.substr(gt + 1);
                    e.key = e.key.substr(0, gt);
                }
                e.global = e.key.find('/') == std::string::npos;
                f.eps.push_back(e);
            } else if (w.rfind("in(", 0) == 0) {
                In x;
                x.name = w.substr(3);
                bool more = true;
                while (more && is >> w) {
                    x.link.push_back(w[1] - '0');
                    is >> w;
                    more = w.back() != ')';
                    x.targets.push_back(more ? w : w.substr(0, w.size() - 1));
                }
                f.ins.push_back(x);
            } else if (w.rfind("init[", 0) == 0) {
                w = w.substr(5);
                while (w.empty() || w.back() != ']') {
                    if (!w.empty()) {
                        f.init.push_back(actOf(w));
                    }
                    is >> w;
                }
                is >> w >> w;
                f.stop = num(w.substr(0, w.find('/')));
                f.maxGrants = static_cast<int>(num(w.substr(w.find('/') + 1)));
                is >> w;
                std::string rest;
                std::getline(is, rest);
                Step st;
                std::istringstream r(rest);
                while (r >> w) {
                    if (w[0] == '[') {
                        st = Step();
                        w = w.substr(1);
                    }
                    bool last = w.back() == ']';
                    if (last) {
                        w.pop_back();
                    }
                    if (w[0] == '+') {
                        st.dt = num(w.substr(1));
                    } else if (w.rfind("iter", 0) == 0) {
                        st.iter = w[4] - '0';
                    } else if (!w.empty()) {
                        st.acts.push_back(actOf(w));
                    }
                    if (last) {
                        f.script.push_back(st);
                    }
                }
            } else if (eq != std::string::npos) {
                auto k = w.substr(0, eq);
                auto v = num(w.substr(eq + 1));
                (k == "period" ? f.period : k == "offset" ? f.offset : k == "delta" ? f.delta : k == "indelay" ? f.inDelay : f.outDelay) +=
                    (k == "period" || k == "offset" || k == "delta" || k == "indelay" || k == "outdelay") ? v : 0;
                f.uninterruptible = f.uninterruptible || k == "uninterruptible";
                f.wait = f.wait || k == "wait";
                f.eventTriggered = f.eventTriggered || k == "event_triggered";
                f.restrictive = f.restrictive || k == "restrictive";
                f.async = f.async || k == "async";
            }
        }
        s.feds.push_back(f);
    }
    for (auto& f : s.feds) {
        for (auto& p : f.pubs) {
            p.type = 2;
        }
    }
    return s;
}

bool failsInChild(const char* text, int times, int secs)
{
    auto pid = fork();
    if (pid == 0) {
        auto fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        dup2(fd, 2);
        alarm(static_cast<unsigned>(secs));
        std::istringstream is(text);
        auto s = parseSpec(is);
        for (int k = 0; k < times; ++k) {
            s.noiseSeed = static_cast<std::uint64_t>(k) * 7919 + 1;
            try {
                auto t = run(s);
                checkRan(s, t);
                checkGrants(s, t);
                checkValues(s, t);
                checkMessages(s, t);
            }
            catch (const pbt::Violation&) {
                _exit(1);
            }
        }
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
}  // namespace cosim
