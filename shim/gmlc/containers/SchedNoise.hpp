// Not part of GMLC-TDC/containers: an optional, seeded source of scheduling noise for the queues
// below, used by the checks to vary the interleaving of the threads that exchange messages.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdint>
#include <thread>
namespace verif {
inline std::atomic<std::uint64_t> noiseSeed{0};
inline std::atomic<std::uint64_t> noiseThread{0};
inline std::atomic<unsigned> noiseLevel{0};  // 0: off; n: about n of 256 queue operations stall
inline void schedNoise() noexcept
{
    auto level = noiseLevel.load(std::memory_order_relaxed);
    if (level == 0) {
        return;
    }
    thread_local std::uint64_t state = 0;
    thread_local std::uint64_t epoch = 0;
    auto seed = noiseSeed.load(std::memory_order_relaxed);
    if (state == 0 || epoch != seed) {
        epoch = seed;
        state = (seed + 1) * 0x9E3779B97F4A7C15ULL +
            noiseThread.fetch_add(1, std::memory_order_relaxed) * 0xBF58476D1CE4E5B9ULL + 1;
    }
    state ^= state << 13U;
    state ^= state >> 7U;
    state ^= state << 17U;
    if (((state >> 20U) & 0xFFU) < level) {
        auto kind = (state >> 32U) & 7U;
        if (kind < 5) {
            std::this_thread::yield();
        } else {
            std::this_thread::sleep_for(std::chrono::microseconds((state >> 40U) % 300));
        }
    }
}
}  // namespace verif
