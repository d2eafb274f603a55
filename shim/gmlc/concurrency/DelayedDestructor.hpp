// Stand-in for GMLC-TDC/concurrency DelayedDestructor.hpp
#pragma once
#include "TripWire.hpp"

#include <chrono>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
namespace gmlc::concurrency {
template<class X>
class DelayedDestructor {
  public:
    DelayedDestructor() = default;
    explicit DelayedDestructor(std::function<void(std::shared_ptr<X>& ptr)> callFirst):
        callBefore(std::move(callFirst))
    {
    }
    ~DelayedDestructor()
    {
        int ii = 0;
        while (!destroyObjectsIn(0) && ii < 5) {
            ++ii;
            std::this_thread::sleep_for(std::chrono::milliseconds(100));
        }
    }
    DelayedDestructor(const DelayedDestructor&) = delete;
    DelayedDestructor& operator=(const DelayedDestructor&) = delete;
    std::size_t destroyObjects() noexcept
    {
        try {
            std::vector<std::shared_ptr<X>> dead;
            std::unique_lock<std::mutex> lk(m);
            for (auto it = objs.begin(); it != objs.end();) {
                if (it->use_count() == 1) {
                    dead.push_back(std::move(*it));
                    it = objs.erase(it);
                } else {
                    ++it;
                }
            }
            auto left = objs.size();
            lk.unlock();
            for (auto& d : dead) {
                if (callBefore) {
                    callBefore(d);
                }
            }
            dead.clear();
            return left;
        }
        catch (...) {
            return 0;
        }
    }
    std::size_t destroyObjects(std::chrono::milliseconds delay) noexcept
    {
        auto left = destroyObjects();
        auto until = std::chrono::steady_clock::now() + delay;
        while (left > 0 && std::chrono::steady_clock::now() < until) {
            std::this_thread::sleep_for(std::chrono::milliseconds(2));
            left = destroyObjects();
        }
        return left;
    }
    void addObjectsToBeDestroyed(std::shared_ptr<X> obj)
    {
        std::lock_guard<std::mutex> lk(m);
        objs.push_back(std::move(obj));
    }

  private:
    bool destroyObjectsIn(int) { return destroyObjects() == 0; }
    std::mutex m;
    std::vector<std::shared_ptr<X>> objs;
    std::function<void(std::shared_ptr<X>& ptr)> callBefore;
    TripWireDetector tripDetect;
};
}  // namespace gmlc::concurrency
