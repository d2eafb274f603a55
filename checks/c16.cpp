// C16: profiling records: every record reaches the output file exactly once and in order.
#include "helics/core/ProfilerBuffer.hpp"

#include "pbt.hpp"

#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <unistd.h>

using helics::ProfilerBuffer;
namespace fs = std::filesystem;
static fs::path dir;
static std::string slurp(const fs::path& p)
{
    std::ifstream in(p, std::ios::binary);
    std::ostringstream o;
    o << in.rdbuf();
    return o.str();
}

PROP(model, 1)
{
    for (auto& e : fs::directory_iterator(dir)) {
        fs::remove_all(e.path());
    }
    fs::create_directory(dir / "sub");
    std::vector<std::string> files{(dir / "a.txt").string(), (dir / "b.txt").string(), (dir / "sub" / "c").string()};
    const std::string bad = (dir / "missing" / "x.txt").string();
    std::map<std::string, std::string> disk;  // expected content
    // several buffers may append to one file, as the cores and brokers of one process do
    std::vector<std::unique_ptr<ProfilerBuffer>> bufs;
    struct M {
        std::vector<std::string> pending;
        std::string file;
    };
    std::vector<M> ms;
    auto nb = 1 + s.draw(2);
    for (std::uint64_t i = 0; i < nb; ++i) {
        bufs.push_back(std::make_unique<ProfilerBuffer>());
        ms.emplace_back();
    }
    if (s.chance(1, 3)) {
        disk[files[0]] = "earlier\n";
        std::ofstream(files[0]) << "earlier\n";
    }
    auto flush = [&](M& m) {
        for (auto& x : m.pending) {
            if (!x.empty()) {
                disk[m.file] += x + "\n";
            }
        }
        if (disk.count(m.file) == 0) {
            disk[m.file] = "";
        }
        m.pending.clear();
    };
    auto agree = [&](const std::string& op) {
        for (auto& f : files) {
            bool exists = fs::exists(f);
            REQUIRE("file-exists", exists == (disk.count(f) != 0), op, " ", f);
            if (exists) {
                auto got = slurp(f);
                REQUIRE("file-content", got == disk[f], op, " ", f, " has ", got.size(), " bytes, expected ", disk[f].size(), ": '",
                        got.substr(0, 200), "' vs '", disk[f].substr(0, 200), "'");
            }
        }
    };
    int records = 0;
    int writes = 0;
    int fails = 0;
    auto steps = 1 + s.size(30);
    for (std::size_t st = 0; st < steps; ++st) {
        auto i = s.draw(bufs.size());
        auto& b = *bufs[i];
        auto& m = ms[i];
        std::string op;
        switch (s.draw(9)) {
            case 0:
            case 1:
            case 2:
            case 3: {
                std::size_t len = s.chance(1, 10) ? (s.chance(1, 4) ? 20000 : 300) : 12;
                auto text = s.chance(1, 8) ? std::string() :
                                             "<PROFILING>" + (s.chance(1, 3) ? s.bytes(len) : s.str(len, "abcXYZ 0123[]|{}:;,<>"));
                // a record may have any content: a NUL, line ends, bytes that are not text
                if (s.chance(1, 8)) {
                    text.insert(s.draw(text.size() + 1), 1, s.boolean() ? '\0' : '\n');
                }
                op = pbt::cat(i, " add ", text.size());
                if (s.boolean()) {
                    b.addMessage(text);
                } else {
                    std::string t2 = text;
                    b.addMessage(std::move(t2));
                }
                m.pending.push_back(text);
                ++records;
                break;
            }
            case 4:
            case 5: {
                op = pbt::cat(i, " write");
                bool threw = false;
                try {
                    b.writeFile();
                }
                catch (const std::ios_base::failure&) {
                    threw = true;
                }
                bool expect = m.file.empty() || m.file == bad;
                REQUIRE("write-fails", threw == expect, op, " to '", m.file, "' threw ", threw);
                if (!threw) {
                    flush(m);
                    ++writes;
                } else {
                    ++fails;  // the records stay pending
                }
                break;
            }
            case 6: {
                auto f = s.pick(files);
                bool app = s.boolean();
                op = pbt::cat(i, " file ", fs::path(f).filename().string(), app ? " append" : " truncate");
                b.setOutputFile(f, app);
                m.file = f;
                if (!app) {
                    disk[f] = "";
                }
                break;
            }
            case 7: {
                if (s.boolean()) {
                    op = pbt::cat(i, " file ''");
                    b.setOutputFile("", s.boolean());
                    m.file.clear();
                } else {
                    op = pbt::cat(i, " unwritable file");
                    bool threw = false;
                    bool app = s.boolean();
                    try {
                        b.setOutputFile(bad, app);
                    }
                    catch (const std::ios_base::failure&) {
                        threw = true;
                    }
                    REQUIRE("open-fails", threw == !app, op);
                    m.file = bad;
                }
                break;
            }
            default: {
                op = pbt::cat(i, " destroy");
                bufs[i] = std::make_unique<ProfilerBuffer>();
                if (!m.pending.empty() && !m.file.empty() && m.file != bad) {
                    flush(m);
                    ++writes;
                }
                m = M{};
                break;
            }
        }
        s.note(op);
        agree(op);
    }
    for (std::size_t i = 0; i < bufs.size(); ++i) {
        bufs[i].reset();
        if (!ms[i].pending.empty() && !ms[i].file.empty() && ms[i].file != bad) {
            flush(ms[i]);
            ++writes;
        }
    }
    agree("end");
    if (records > 1 && writes > 0) {
        s.nontrivial();
    }
    if (fails > 0) {
        s.tag("failed-write");
    }
    if (writes > 1) {
        s.tag("several-writes");
    }
}
static void init()
{
    dir = fs::temp_directory_path() / ("c16-" + std::to_string(getpid()));
    fs::create_directories(dir);
    fs::current_path(dir);
}
PBT_MAIN("Histories of up to 30 operations (add, write, choose file with or without append, unwritable file, destroy) over one or two "
         "buffers and three files; after every step the bytes on disk are compared with a model. Non-trivial: at least two records and "
         "one successful write.",
         20.0, init)
