// C30: log messages reach exactly the sinks whose level admits them, unchanged and in order.
#include "helics/common/LogBuffer.hpp"
#include "helics/common/logging.hpp"
#include "helics/core/ActionMessage.hpp"
#include "helics/core/LogManager.hpp"

#include "minijson.hpp"
#include "names.hpp"
#include "pbt.hpp"

#include <deque>
#include <filesystem>
#include <fstream>
#include <nlohmann/json.hpp>
#include <thread>
#include <unistd.h>

using namespace helics;
using pbt::Src;

namespace {
struct Rec {
    int level;
    std::string header;
    std::string message;
    bool operator==(const Rec& o) const = default;
};
std::ostream& operator<<(std::ostream& o, const Rec& r) { return o << "(" << r.level << "," << r.header << "," << r.message << ")"; }
std::string show(const std::deque<Rec>& d)
{
    std::ostringstream o;
    for (auto& r : d) {
        o << r << " ";
    }
    return o.str();
}
std::string text(Src& s) { return s.str(8, "ab \"{}%\\:["); }
int level(Src& s)
{
    if (s.chance(1, 8)) {
        return s.range(-20, 40);
    }
    return s.pick({static_cast<int>(HELICS_LOG_LEVEL_NO_PRINT), static_cast<int>(HELICS_LOG_LEVEL_ERROR), static_cast<int>(HELICS_LOG_LEVEL_PROFILING),
                   static_cast<int>(HELICS_LOG_LEVEL_WARNING), static_cast<int>(HELICS_LOG_LEVEL_SUMMARY), static_cast<int>(HELICS_LOG_LEVEL_CONNECTIONS),
                   static_cast<int>(HELICS_LOG_LEVEL_INTERFACES), static_cast<int>(HELICS_LOG_LEVEL_TIMING), static_cast<int>(HELICS_LOG_LEVEL_DATA),
                   static_cast<int>(HELICS_LOG_LEVEL_DEBUG), static_cast<int>(HELICS_LOG_LEVEL_TRACE)});
}
}  // namespace

PROP(levelNames, 2)
{
    // every level and every number has a name, and the name stands for it
    auto l = s.boolean() ? level(s) : static_cast<int>(s.int32());
    if (l == -999999) {
        throw pbt::Discard{};
    }
    s.note("level ", l);
    s.nontrivial();
    auto n = logLevelToString(static_cast<LogLevels>(l));
    REQUIRE("name-back", static_cast<int>(logLevelFromString(n)) == l, "level ", l, " is called ", n, " which is level ", static_cast<int>(logLevelFromString(n)));
    auto& e = names::logNames[s.draw(names::logNames.size())];
    auto spelling = e.first;
    auto style = s.draw(3);
    for (std::size_t i = 0; i < spelling.size(); ++i) {
        if (style == 1 || (style == 2 && i == 0)) {
            spelling[i] = static_cast<char>(std::toupper(spelling[i]));
        }
    }
    REQUIRE("name-level", static_cast<int>(logLevelFromString(spelling)) == e.second, spelling, " is ", static_cast<int>(logLevelFromString(spelling)));
    std::string odd = s.str(7, "wxyz_9");
    REQUIRE("name-unknown", static_cast<int>(logLevelFromString("q" + odd)) == -999999, odd);
}

PROP(buffer, 4)
{
    LogBuffer b;
    std::deque<Rec> m;
    std::size_t cap = 0;
    if (s.boolean()) {
        cap = s.range<std::size_t>(0, 5);
        LogBuffer other(cap);
        REQUIRE("buffer-start", other.capacity() == cap && other.size() == 0, "");
        b.resize(cap);
    }
    auto n = s.range(1, 40);
    for (int k = 0; k < n; ++k) {
        switch (s.weighted({6, 2, 1, 1})) {
            case 0: {
                Rec r{level(s), text(s), pbt::cat(text(s), k)};
                b.push(r.level, r.header, r.message);
                s.note("push ", r.level);
                if (cap > 0) {
                    if (m.size() == cap) {
                        m.pop_front();
                        s.nontrivial();
                    }
                    m.push_back(r);
                }
                break;
            }
            case 1:
                cap = s.range<std::size_t>(0, 7);
                s.note("resize ", cap);
                b.resize(cap);
                while (m.size() > cap) {
                    m.pop_front();
                }
                break;
            case 2:
                s.note("enable");
                b.enable(true);
                cap = cap == 0 ? LogBuffer::cDefaultBufferSize : cap;
                break;
            default:
                s.note("disable");
                b.enable(false);
                cap = 0;
                m.clear();
        }
        REQUIRE("buffer-capacity", b.capacity() == cap, b.capacity(), " instead of ", cap);
        REQUIRE("buffer-size", b.size() == m.size(), b.size(), " instead of ", m.size());
        std::deque<Rec> got;
        b.process([&](int l, std::string_view h, std::string_view t) { got.push_back(Rec{l, std::string(h), std::string(t)}); });
        REQUIRE("buffer-content", got == m, "holds ", show(got), " instead of ", show(m));
    }
    nlohmann::json j;
    j["name"] = "x";
    bufferToJson(b, j);
    auto v = mj::parse(j.dump());
    const auto* logs = v ? v->get("logs") : nullptr;
    REQUIRE("buffer-json", logs != nullptr && logs->kind == mj::Value::Arr && logs->a.size() == m.size() && v->get("name") != nullptr, j.dump());
    for (std::size_t i = 0; i < m.size(); ++i) {
        auto& e = logs->a[i];
        REQUIRE("buffer-json", e.get("level") && e.get("level")->i == m[i].level && e.get("header") && e.get("header")->s == m[i].header && e.get("message") &&
                    e.get("message")->s == m[i].message, j.dump());
    }
}

PROP(bufferThreads, 1)
{
    // writers, a reader and resizes at the same time: the buffer never holds more than its capacity, and what it
    // holds is what each writer wrote last, in order
    LogBuffer b(s.range<std::size_t>(1, 8));
    auto writers = s.range(1, 3);
    auto each = s.range(200, 1200);
    auto resizes = s.range(0, 3000);
    std::vector<std::size_t> sizes;
    for (int i = 0; i < resizes; ++i) {
        sizes.push_back(s.range<std::size_t>(1, 9));
    }
    s.nontrivial();
    std::atomic<bool> go{false};
    std::atomic<bool> stop{false};
    std::atomic<int> broken{0};
    std::vector<std::thread> th;
    for (int w = 0; w < writers; ++w) {
        th.emplace_back([&, w] {
            while (!go) {
            }
            for (int i = 0; i < each; ++i) {
                b.push(i, std::to_string(w), "m");
            }
        });
    }
    std::thread reader([&] {
        while (!stop) {
            std::map<std::string, int> last;
            b.process([&](int l, std::string_view h, std::string_view) {
                auto [it, first] = last.emplace(std::string(h), l);
                if (!first) {
                    if (it->second != l - 1) {
                        ++broken;
                    }
                    it->second = l;
                }
            });
        }
    });
    go = true;
    for (auto z : sizes) {
        b.resize(z);
    }
    for (auto& t : th) {
        t.join();
    }
    stop = true;
    reader.join();
    REQUIRE("threads-order", broken == 0, "messages of a writer out of order");
    REQUIRE("threads-capacity", b.size() <= b.capacity(), "holds ", b.size(), " with a capacity of ", b.capacity());
    for (int i = 0; i < 20; ++i) {
        b.push(1, "x", "y");
    }
    REQUIRE("threads-capacity", b.size() <= b.capacity(), "holds ", b.size(), " with a capacity of ", b.capacity());
}

PROP(manager, 5)
{
    LogManager m;
    int console = HELICS_LOG_LEVEL_WARNING;
    int file = HELICS_LOG_LEVEL_WARNING;
    std::map<int, int> remote;  // level per destination
    std::deque<Rec> got;
    std::deque<std::pair<int, Rec>> sent;
    bool callback = false;
    bool transmit = false;
    std::size_t cap = 0;
    std::deque<Rec> buf;
    auto n = s.range(1, 30);
    auto maxLevel = [&]() {
        auto x = std::max(console, file);
        for (auto& r : remote) {
            x = std::max(x, r.second);
        }
        return x;
    };
    int filtered = 0;
    int passed = 0;
    for (int k = 0; k < n; ++k) {
        switch (s.weighted({9, 2, 2, 2, 1, 1})) {
            case 0: {
                Rec r{level(s), text(s), pbt::cat(text(s), k)};
                bool always = false;
                int given = r.level;
                bool fromRemote = s.chance(1, 6);
                if (s.chance(1, 6)) {
                    given = LogLevels::FED + r.level;
                    always = true;
                }
                got.clear();
                sent.clear();
                s.note("log ", given, fromRemote ? " from remote" : "");
                m.sendToLogger(given, r.header, r.message, fromRemote);
                always = always || fromRemote;
                std::deque<Rec> want;
                std::map<int, Rec> wantSent;
                if (always || r.level <= maxLevel()) {
                    if (callback && (always || r.level <= std::max(console, file))) {
                        want.push_back(r);
                        ++passed;
                    }
                    if (cap > 0) {
                        if (buf.size() == cap) {
                            buf.pop_front();
                        }
                        buf.push_back(r);
                    }
                    if (!fromRemote && transmit) {
                        for (auto& e : remote) {
                            if (e.second >= r.level) {
                                wantSent[e.first] = r;
                            }
                        }
                    }
                } else {
                    ++filtered;
                }
                REQUIRE("callback", got == want, "level ", r.level, " console ", console, " file ", file, ": the callback got ", show(got), " instead of ", show(want));
                REQUIRE("remote-count", sent.size() == wantSent.size(), sent.size(), " remote copies instead of ", wantSent.size());
                for (auto& x : sent) {
                    auto it = wantSent.find(x.first);
                    REQUIRE("remote-target", it != wantSent.end(), "sent to ", x.first);
                    REQUIRE("remote-text", it->second.header == x.second.header && it->second.message == x.second.message, "sent ", x.second, " for ", it->second);
                    REQUIRE("remote-level", it->second.level == x.second.level, "sent ", x.second, " for ", it->second);
                }
                break;
            }
            case 1: {
                console = level(s);
                file = s.boolean() ? console : level(s);
                s.note("levels ", console, " ", file);
                if (console == file && s.boolean()) {
                    m.setLogLevel(console);
                } else {
                    m.setLogLevels(console, file);
                }
                break;
            }
            case 2: {
                auto id = s.range(1, 3);
                auto l = level(s);
                s.note("remote ", id, " level ", l);
                remote[id] = l;
                m.updateRemote(GlobalFederateId(gGlobalFederateIdShift + id), l);
                break;
            }
            case 3:
                callback = !s.chance(1, 5);
                s.note("callback ", callback);
                m.setLoggerFunction(callback ? [&](int l, std::string_view h, std::string_view t) { got.push_back(Rec{l, std::string(h), std::string(t)}); } :
                                               std::function<void(int, std::string_view, std::string_view)>{});
                break;
            case 4:
                transmit = true;
                m.setTransmitCallback([&](ActionMessage&& c) {
                    sent.emplace_back(c.dest_id.baseValue() - gGlobalFederateIdShift,
                                      Rec{c.messageID, std::string(c.getString(0)), std::string(c.payload.to_string())});
                });
                break;
            default:
                cap = s.range<std::size_t>(0, 4);
                m.getLogBuffer().resize(cap);
                while (buf.size() > cap) {
                    buf.pop_front();
                }
        }
        REQUIRE("levels", m.getConsoleLevel() == console && m.getFileLevel() == file, m.getConsoleLevel(), " ", m.getFileLevel());
        REQUIRE("max-level", m.getMaxLevel() == maxLevel(), "the highest level is ", m.getMaxLevel(), " not ", maxLevel());
        std::deque<Rec> held;
        m.getLogBuffer().process([&](int l, std::string_view h, std::string_view t) { held.push_back(Rec{l, std::string(h), std::string(t)}); });
        REQUIRE("manager-buffer", held == buf, "buffer ", show(held), " instead of ", show(buf));
    }
    if (filtered > 0 && passed > 0) {
        s.nontrivial();
    }
}

PROP(logFile, 1)
{
    // what a log file holds: every message its level admits, in order, and nothing else
    char dir[] = "/tmp/hxlogXXXXXX";
    if (mkdtemp(dir) == nullptr) {
        throw pbt::Discard{};
    }
    struct Clean {
        std::filesystem::path p;
        ~Clean()
        {
            std::error_code e;
            std::filesystem::remove_all(p, e);
        }
    } clean{dir};
    std::map<int, std::vector<std::string>> want;
    int files = 0;
    int current = -1;
    static int serial = 0;
    auto ident = pbt::cat("log", getpid(), "_", serial++);
    {
        LogManager m;
        int fileLevel = HELICS_LOG_LEVEL_WARNING;
        m.setLogLevels(HELICS_LOG_LEVEL_NO_PRINT, fileLevel);
        bool early = s.boolean();
        auto change = [&]() {
            current = files++;
            s.note("file ", current);
            try {
                m.setLoggingFile(pbt::cat(dir, "/f", current, ".txt"), ident);
            }
            catch (const std::exception& e) {
                FAIL("file-change", "setting log file number ", current + 1, " threw ", e.what());
            }
        };
        if (early) {
            change();
            m.initializeLogging(ident);
        } else {
            m.initializeLogging(ident);
            change();
        }
        m.forceLoggingFlush = s.boolean();
        auto n = s.range(1, 20);
        for (int k = 0; k < n; ++k) {
            switch (s.weighted({10, 2, 1})) {
                case 0: {
                    auto l = level(s);
                    if (l <= HELICS_LOG_LEVEL_NO_PRINT) {
                        l = HELICS_LOG_LEVEL_ERROR;
                    }
                    auto h = text(s);
                    auto t = pbt::cat(text(s), "#", k, "#");
                    s.note("log ", l);
                    m.sendToLogger(l, h, t);
                    if (l <= fileLevel) {
                        want[current].push_back(h + "::" + t);
                        s.nontrivial();
                    }
                    break;
                }
                case 1:
                    fileLevel = level(s);
                    s.note("level ", fileLevel);
                    m.setLogLevels(HELICS_LOG_LEVEL_NO_PRINT, fileLevel);
                    break;
                default: change();
            }
        }
        m.logFlush();
    }
    for (int f = 0; f < files; ++f) {
        std::ifstream in(pbt::cat(dir, "/f", f, ".txt"));
        std::vector<std::string> lines;
        std::string line;
        while (std::getline(in, line)) {
            lines.push_back(line);
        }
        REQUIRE("file-count", lines.size() == want[f].size(), "file ", f, " has ", lines.size(), " lines instead of ", want[f].size());
        for (std::size_t i = 0; i < lines.size(); ++i) {
            auto& w = want[f][i];
            REQUIRE("file-text", lines[i].size() >= w.size() && lines[i].compare(lines[i].size() - w.size(), w.size(), w) == 0, "line ", lines[i], " instead of ", w);
        }
    }
}

PBT_MAIN("a message is filtered and another is not, the buffer wraps, or several threads run", 30)
