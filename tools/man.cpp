// runs a co-simulation given in the form the checks show it: man FILE [times]
// env DBG: prints the time coordination state after 2 s; NOISE: schedule noise
#include "cosim.hpp"
#include <fstream>
#include <thread>
#include <unistd.h>
using namespace cosim;
int main(int c, char** v)
{
    std::ifstream in(v[1]);
    auto s = parseSpec(in);
    if (getenv("NOISE")) {
        s.noise = atoi(getenv("NOISE"));
    }
    int bad = 0;
    int n = c > 2 ? atoi(v[2]) : 1;
    std::string keep;
    std::atomic<int> runs{0};
    std::thread([&] {
        int last = -1;
        while (true) {
            std::this_thread::sleep_for(std::chrono::seconds(2));
            if (runs == last) {
                std::printf("HANG in run %d\n", last);
                auto b = helics::BrokerFactory::findBroker(pbt::cat("n", getpid(), "_", last, "_b0"));
                if (b && getenv("DBG")) {
                    std::printf("%s\n", b->query("root", "global_time_debugging").c_str());
                }
                std::fflush(stdout);
                _exit(3);
            }
            last = runs;
        }
    }).detach();
    for (int k = 0; k < n; ++k, ++runs) {
        s.noiseSeed = static_cast<std::uint64_t>(k + 1);
        auto t = run(s);
        try {
            checkRan(s, t);
            checkGrants(s, t);
            checkValues(s, t);
            checkMessages(s, t);
        }
        catch (pbt::Violation& e) {
            ++bad;
            keep = e.msg + "\n" + show(t, s);
        }
        if (k == n - 1) {
            std::printf("%s%s", k == 0 ? show(s).c_str() : "", show(t, s).c_str());
        }
    }
    std::printf("bad %d\n%s", bad, keep.c_str());
}
