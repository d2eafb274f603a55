// Stand-in for GMLC-TDC/concurrency TripWire.hpp
#pragma once
#include <atomic>
#include <memory>
#include <vector>
namespace gmlc::concurrency {
using TriplineType = std::shared_ptr<std::atomic<bool>>;
class TripWire {
  public:
    static TriplineType getLine()
    {
        static TriplineType line = std::make_shared<std::atomic<bool>>(false);
        return line;
    }
};
class TripWireDetector {
  public:
    TripWireDetector(): line(TripWire::getLine()) {}
    explicit TripWireDetector(TriplineType l): line(std::move(l)) {}
    bool isTripped() const noexcept { return line->load(std::memory_order_acquire); }

  private:
    std::shared_ptr<const std::atomic<bool>> line;
};
class TripWireTrigger {
  public:
    TripWireTrigger(): line(TripWire::getLine()) {}
    explicit TripWireTrigger(TriplineType l): line(std::move(l)) {}
    ~TripWireTrigger()
    {
        if (line) {
            line->store(true, std::memory_order_release);
        }
    }
    TripWireTrigger(TripWireTrigger&&) = default;
    TripWireTrigger(const TripWireTrigger&) = delete;
    TripWireTrigger& operator=(TripWireTrigger&&) = default;
    TripWireTrigger& operator=(const TripWireTrigger&) = delete;

  private:
    TriplineType line;
};
}  // namespace gmlc::concurrency
#define DECLARE_TRIPLINE()                                                                         \
    static gmlc::concurrency::TripWireTrigger verifTripWireTrigger;
