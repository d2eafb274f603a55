// Stand-in for GMLC-TDC/containers AirLock.hpp
#pragma once
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <optional>
#include <utility>
namespace gmlc::containers {
template<typename T, class MUTEX = std::mutex, class COND = std::condition_variable>
class AirLock {
  public:
    AirLock() = default;
    template<class Z>
    bool try_load(Z&& val)
    {
        std::lock_guard<MUTEX> lk(m);
        if (loaded) {
            return false;
        }
        data = std::forward<Z>(val);
        loaded = true;
        return true;
    }
    template<class Z>
    void load(Z&& val)
    {
        std::unique_lock<MUTEX> lk(m);
        cv.wait(lk, [this] { return !loaded; });
        data = std::forward<Z>(val);
        loaded = true;
    }
    std::optional<T> try_unload()
    {
        std::optional<T> val;
        {
            std::lock_guard<MUTEX> lk(m);
            if (!loaded) {
                return val;
            }
            val = std::move(data);
            loaded = false;
        }
        cv.notify_one();
        return val;
    }
    bool isLoaded() const
    {
        std::lock_guard<MUTEX> lk(m);
        return loaded;
    }

  private:
    mutable MUTEX m;
    COND cv;
    bool loaded{false};
    T data;
};
}  // namespace gmlc::containers
