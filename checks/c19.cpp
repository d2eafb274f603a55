// C19: ZMQ contexts are shared by name, usable, and socket type names map to the right socket.
#include "helics/network/zmq/ZmqContextManager.h"
#include "helics/network/zmq/ZmqHelper.h"

#include "cppzmq/zmq.hpp"

#include "pbt.hpp"

#include <thread>

namespace {
const std::vector<std::pair<std::string, zmq::socket_type>> names{
    {"req", zmq::socket_type::req},       {"request", zmq::socket_type::req}, {"rep", zmq::socket_type::rep},
    {"reply", zmq::socket_type::rep},     {"dealer", zmq::socket_type::dealer}, {"router", zmq::socket_type::router},
    {"pub", zmq::socket_type::pub},       {"publish", zmq::socket_type::pub}, {"sub", zmq::socket_type::sub},
    {"subscribe", zmq::socket_type::sub}, {"xpub", zmq::socket_type::xpub},   {"xsub", zmq::socket_type::xsub},
    {"push", zmq::socket_type::push},     {"pull", zmq::socket_type::pull},   {"pair", zmq::socket_type::pair},
    {"stream", zmq::socket_type::stream}};
int counter = 0;
}  // namespace

PROP(socketNames, 2)
{
    auto& p = s.pick(names);
    std::string n = p.first;
    auto m = s.draw(3);
    for (auto& c : n) {
        if (m == 1 || (m == 2 && s.boolean())) {
            c = static_cast<char>(std::toupper(c));
        }
    }
    s.note(n);
    REQUIRE("socket-type", socketTypeFromString(n) == p.second, "'", n, "' gives ", static_cast<int>(socketTypeFromString(n)));
    s.nontrivial();
}

PROP(contexts, 1)
{
    // model: name -> identity of the context, and every reference handed out stays usable while it is held
    std::map<std::string, std::shared_ptr<ZmqContextManager>> model;
    std::map<std::string, bool> leak;
    std::vector<std::shared_ptr<ZmqContextManager>> held;
    auto prefix = pbt::cat("c", ++counter, "_");
    std::vector<std::string> nm{prefix + "a", prefix + "b", prefix + "A"};
    auto steps = 1 + s.size(16);
    int closes = 0;
    int shares = 0;
    for (std::size_t st = 0; st < steps; ++st) {
        auto n = s.pick(nm);
        std::string op;
        switch (s.draw(6)) {
            case 0:
            case 1: {
                op = "get " + n.substr(prefix.size());
                auto p = ZmqContextManager::getContextPointer(n);
                REQUIRE("not-null", p != nullptr, op);
                REQUIRE("name", p->getName() == n, op, " has name ", p->getName());
                if (model.count(n) != 0) {
                    REQUIRE("shared", p == model[n], op, " returned another context");
                    ++shares;
                } else {
                    for (auto& h : held) {
                        REQUIRE("fresh", p != h, op, " returned a closed or foreign context");
                    }
                    model[n] = p;
                    leak[n] = true;
                }
                held.push_back(p);
                REQUIRE("base", &ZmqContextManager::getContext(n) == &p->getBaseContext(), op);
                break;
            }
            case 2: {
                op = "start " + n.substr(prefix.size());
                ZmqContextManager::startContext(n);
                auto p = ZmqContextManager::getContextPointer(n);
                if (model.count(n) != 0) {
                    REQUIRE("start-keeps", p == model[n], op, " replaced a running context");
                }
                model[n] = p;
                held.push_back(p);
                break;
            }
            case 3: {
                op = "close " + n.substr(prefix.size());
                ZmqContextManager::closeContext(n);
                closes += static_cast<int>(model.count(n));
                model.erase(n);
                leak.erase(n);
                break;
            }
            case 4: {
                bool on = s.boolean();
                op = pbt::cat("leak ", on, " ", n.substr(prefix.size()));
                bool r = on ? ZmqContextManager::setContextToLeakOnDelete(n) : ZmqContextManager::setContextToNotLeakOnDelete(n);
                REQUIRE("leak-result", r == (model.count(n) != 0), op, " returned ", r);
                break;
            }
            default: {
                if (held.empty()) {
                    break;
                }
                op = "use";
                // a held context still works even after it was closed by name
                auto& h = held[s.draw(held.size())];
                auto ep = pbt::cat("inproc://", prefix, st);
                zmq::socket_t a(h->getBaseContext(), socketTypeFromString("pair"));
                zmq::socket_t b(h->getBaseContext(), socketTypeFromString("PAIR"));
                a.setsockopt(ZMQ_LINGER, 0);
                b.setsockopt(ZMQ_LINGER, 0);
                a.bind(ep);
                b.connect(ep);
                auto text = s.bytes(40);
                b.send(text.data(), text.size());
                zmq::message_t msg;
                a.recv(msg);
                REQUIRE("transfer", std::string(static_cast<char*>(msg.data()), msg.size()) == text, op);
                s.tag("transfer");
                break;
            }
        }
        s.note(op);
        for (auto& [k, v] : model) {
            REQUIRE("stable", ZmqContextManager::getContextPointer(k) == v, "after ", op, " ", k);
        }
    }
    for (auto& k : nm) {
        ZmqContextManager::startContext(k);
        ZmqContextManager::setContextToNotLeakOnDelete(k);
        ZmqContextManager::closeContext(k);
    }
    if (shares > 0 && closes > 0) {
        s.nontrivial();
    }
}

PROP(concurrent, 1)
{
    // many threads asking for one name get one context
    auto n = pbt::cat("t", ++counter);
    auto k = 2 + s.draw(5);
    std::vector<std::shared_ptr<ZmqContextManager>> got(k);
    std::vector<std::thread> ts;
    auto how = s.bits();
    s.note(k, " threads");
    for (std::uint64_t i = 0; i < k; ++i) {
        ts.emplace_back([&, i] {
            if (((how >> i) & 1U) != 0) {
                ZmqContextManager::startContext(n);
            }
            got[i] = ZmqContextManager::getContextPointer(n);
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    for (auto& g : got) {
        REQUIRE("one-context", g == got[0], "threads got different contexts for one name");
    }
    ZmqContextManager::setContextToNotLeakOnDelete(n);
    got.clear();
    ZmqContextManager::closeContext(n);
    s.nontrivial();
}
PBT_MAIN("Socket type names in any letter case against the documented table; histories of get/start/close/leak/use operations over three "
         "context names against a name-to-context model, with data sent through held contexts; 2-6 threads racing for one name. "
         "Non-trivial: a context was shared and one was closed; always for names and threads.",
         30.0)
