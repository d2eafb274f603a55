#include "pbt.hpp"

#include <chrono>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <mutex>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>
#include <unordered_set>

namespace pbt {
static std::string jsonEsc(const std::string& v)
{
    std::string o = "\"";
    for (unsigned char c : v) {
        if (c == '"' || c == '\\') {
            o.push_back('\\');
            o.push_back(static_cast<char>(c));
        } else if (c < 32 || c > 126) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else {
            o.push_back(static_cast<char>(c));
        }
    }
    return o + "\"";
}

static std::atomic<std::int64_t> caseStart{0};
static std::int64_t now()
{
    return std::chrono::duration_cast<std::chrono::milliseconds>(
               std::chrono::steady_clock::now().time_since_epoch())
        .count();
}

struct Outcome {
    int kind{0};  // 0 ok, 1 violation, 2 discard
    std::string sig, msg;
};

static Outcome runCase(const Prop& p, Src& s)
{
    Outcome r;
    try {
        p.fn(s);
    }
    catch (const Violation& v) {
        r = {1, v.sig, v.msg};
    }
    catch (const Discard&) {
        r.kind = 2;
    }
    catch (const std::exception& e) {
        r = {1, "exception", std::string("[exception] unexpected exception: ") + e.what()};
    }
    catch (...) {
        r = {1, "exception", "[exception] unexpected exception of unknown type"};
    }
    return r;
}

int main(int argc, char** argv, const Options& opt)
{
    std::map<std::string, std::string> a;
    for (int i = 1; i < argc; ++i) {
        std::string v = argv[i];
        auto e = v.find('=');
        if (e != std::string::npos) {
            a[v.substr(0, e)] = v.substr(e + 1);
        }
    }
    Shared* sh = nullptr;
    if (a.count("cur") != 0) {
        int fd = open(a["cur"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) {
            return 2;
        }
        sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        close(fd);
    }
    double hang = opt.hangSeconds;
    if (a.count("hang") != 0) {
        hang = std::stod(a["hang"]);
    }
    std::thread([hang] {
        while (true) {
            std::this_thread::sleep_for(std::chrono::milliseconds(200));
            auto st = caseStart.load();
            if (st != 0 && static_cast<double>(now() - st) > hang * 1000.0) {
                std::fprintf(stderr, "\nPBT-HANG: the case did not finish in %.0f s\n", hang);
                if (getenv("PBT_HANG_STOP") != nullptr) {
                    pause();
                }
                _exit(5);
            }
        }
    }).detach();
    if (opt.init) {
        opt.init();
    }
    auto& ps = props();
    if (a.count("replay") != 0) {
        std::ifstream in(a["replay"]);
        std::string line;
        std::string prop;
        std::vector<std::uint64_t> v;
        while (std::getline(in, line)) {
            if (line.rfind("prop ", 0) == 0) {
                prop = line.substr(5);
            } else if (!line.empty() && line[0] != '#') {
                std::istringstream is(line);
                std::uint64_t x = 0;
                while (is >> x) {
                    v.push_back(x);
                }
            }
        }
        for (auto& p : ps) {
            if (p.name == prop) {
                int times = a.count("times") != 0 ? std::stoi(a["times"]) : 1;
                for (int i = 0; i < times; ++i) {
                    if (sh != nullptr) {
                        sh->n = 0;
                        std::snprintf(sh->prop, sizeof sh->prop, "%s", prop.c_str());
                    }
                    Src s(v, sh);
                    caseStart = now();
                    auto r = runCase(p, s);
                    caseStart = 0;
                    if (a.count("show") != 0) {
                        std::fprintf(stderr, "CASE %s\n", s.notes_.c_str());
                    }
                    if (r.kind == 1) {
                        std::fprintf(stderr, "PBT-VIOLATION sig=%s %s\nCASE: %s\n", r.sig.c_str(), r.msg.c_str(), s.notes_.c_str());
                        std::fflush(stderr);
                        _exit(3);
                    }
                }
                _exit(0);
            }
        }
        std::fprintf(stderr, "no such prop '%s'\n", prop.c_str());
        _exit(2);
    }
    std::uint64_t seed = a.count("seed") != 0 ? std::stoull(a["seed"]) : 1;
    std::uint64_t cases = a.count("cases") != 0 ? std::stoull(a["cases"]) : 1000;
    double secs = a.count("secs") != 0 ? std::stod(a["secs"]) : 1e9;
    std::string only = a.count("only") != 0 ? a["only"] : "";
    std::set<std::string> known;
    {
        std::istringstream is(a.count("known") != 0 ? a["known"] : "");
        std::string k;
        while (std::getline(is, k, ',')) {
            known.insert(k);
        }
    }
    std::vector<std::size_t> wheel;  // interleaves the properties by weight
    {
        std::vector<double> next(ps.size(), 0);
        unsigned total = 0;
        for (auto& p : ps) {
            total += (only.empty() || only == p.name) ? p.weight : 0;
        }
        for (unsigned k = 0; k < total; ++k) {
            std::size_t best = ps.size();
            for (std::size_t i = 0; i < ps.size(); ++i) {
                if ((!only.empty() && only != ps[i].name) || ps[i].weight == 0) {
                    continue;
                }
                if (best == ps.size() || next[i] < next[best]) {
                    best = i;
                }
            }
            next[best] += 1.0 / ps[best].weight;
            wheel.push_back(best);
        }
    }
    if (wheel.empty()) {
        return 2;
    }
    std::map<std::string, std::uint64_t> tags;
    std::map<std::string, std::uint64_t> perProp;
    std::map<std::string, std::uint64_t> knownHits;
    std::unordered_set<std::uint64_t> seen;
    std::vector<std::string> samples;
    std::uint64_t ran = 0;
    std::uint64_t discarded = 0;
    std::uint64_t nontriv = 0;
    auto t0 = now();
    int rc = 0;
    std::string failMsg;
    std::string failSig;
    std::string failProp;
    for (std::uint64_t i = 0; i < cases; ++i) {
        if (static_cast<double>(now() - t0) > secs * 1000.0) {
            break;
        }
        auto& p = ps[wheel[i % wheel.size()]];
        if (sh != nullptr) {
            sh->n = 0;
            std::snprintf(sh->prop, sizeof sh->prop, "%s", p.name.c_str());
        }
        Src s(mix(seed * 0x9E3779B97F4A7C15ULL + i), sh);
        caseStart = now();
        auto r = runCase(p, s);
        caseStart = 0;
        ++ran;
        ++perProp[p.name];
        for (auto& t : s.tags_) {
            ++tags[p.name + "/" + t];
        }
        if (r.kind == 2) {
            ++discarded;
            continue;
        }
        if (s.nontrivial_) {
            ++nontriv;
            if (seen.insert(s.hash_ ^ mix(wheel[i % wheel.size()])).second && samples.size() < 3 + ps.size() &&
                (samples.size() < ps.size() || ran % 97 == 0)) {
                samples.push_back(p.name + ": " + s.notes_.substr(0, 700));
            }
        }
        if (r.kind == 1) {
            if (known.count(r.sig) != 0) {
                ++knownHits[r.sig];
                continue;
            }
            failMsg = r.msg + "\nCASE: " + s.notes_;
            failSig = r.sig;
            failProp = p.name;
            rc = 3;
            break;
        }
    }
    if (a.count("out") != 0) {
        std::ofstream o(a["out"]);
        o << "{\"ran\":" << ran << ",\"discarded\":" << discarded << ",\"nontrivial\":" << nontriv
          << ",\"rule\":" << jsonEsc(opt.rule) << ",\"props\":{";
        const char* sep = "";
        for (auto& [k, v] : perProp) {
            o << sep << jsonEsc(k) << ":" << v;
            sep = ",";
        }
        o << "},\"tags\":{";
        sep = "";
        for (auto& [k, v] : tags) {
            o << sep << jsonEsc(k) << ":" << v;
            sep = ",";
        }
        o << "},\"known\":{";
        sep = "";
        for (auto& [k, v] : knownHits) {
            o << sep << jsonEsc(k) << ":" << v;
            sep = ",";
        }
        o << "},\"samples\":[";
        sep = "";
        for (auto& v : samples) {
            o << sep << jsonEsc(v);
            sep = ",";
        }
        o << "],\"secs\":" << static_cast<double>(now() - t0) / 1000.0 << ",\"fail\":" << (rc != 0 ? jsonEsc(failMsg) : "null")
          << ",\"sig\":" << jsonEsc(failSig) << ",\"prop\":" << jsonEsc(failProp) << "}\n";
        o.close();
        std::ofstream h(a["out"] + ".hash", std::ios::binary);
        for (auto v : seen) {
            h.write(reinterpret_cast<const char*>(&v), 8);
        }
    }
    if (rc != 0) {
        std::fprintf(stderr, "PBT-VIOLATION sig=%s %s\n", failSig.c_str(), failMsg.c_str());
    }
    std::fflush(stderr);
    _exit(rc);
}
}  // namespace pbt
