// Stand-in for GMLC-TDC/concurrency TriggerVariable.hpp
#pragma once
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
namespace gmlc::concurrency {
class TriggerVariable {
  public:
    explicit TriggerVariable(bool active = false): activated(active) {}
    bool activate()
    {
        std::lock_guard<std::mutex> lk(m);
        if (activated) {
            return false;
        }
        activated = true;
        triggered = false;
        cv.notify_all();
        return true;
    }
    bool trigger()
    {
        std::lock_guard<std::mutex> lk(m);
        if (!activated) {
            return false;
        }
        triggered = true;
        cv.notify_all();
        return true;
    }
    bool isTriggered() const
    {
        std::lock_guard<std::mutex> lk(m);
        return triggered;
    }
    bool isActive() const
    {
        std::lock_guard<std::mutex> lk(m);
        return activated;
    }
    bool wait() const
    {
        std::unique_lock<std::mutex> lk(m);
        if (activated) {
            cv.wait(lk, [this] { return triggered; });
        }
        return true;
    }
    bool wait_for(const std::chrono::milliseconds& duration) const
    {
        std::unique_lock<std::mutex> lk(m);
        return activated ? cv.wait_for(lk, duration, [this] { return triggered; }) : true;
    }
    void waitActivation() const
    {
        std::unique_lock<std::mutex> lk(m);
        cv.wait(lk, [this] { return activated; });
    }
    bool wait_forActivation(const std::chrono::milliseconds& duration) const
    {
        std::unique_lock<std::mutex> lk(m);
        return cv.wait_for(lk, duration, [this] { return activated; });
    }
    void reset()
    {
        std::lock_guard<std::mutex> lk(m);
        if (activated) {
            triggered = true;
            cv.notify_all();
            activated = false;
        }
    }

  private:
    mutable std::mutex m;
    mutable std::condition_variable cv;
    bool triggered{false};
    bool activated{false};
};
}  // namespace gmlc::concurrency
