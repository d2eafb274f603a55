// Stand-in for GMLC-TDC/containers BlockingQueue.hpp
#pragma once
#include "SchedNoise.hpp"

#include <chrono>
#include <condition_variable>
#include <deque>
#include <mutex>
#include <optional>
#include <utility>
namespace gmlc::containers {
template<typename T, class MUTEX = std::mutex, class COND = std::condition_variable>
class BlockingQueue {
  public:
    BlockingQueue() = default;
    template<class Z>
    void push(Z&& val)
    {
        verif::schedNoise();
        {
            std::lock_guard<MUTEX> lk(m);
            q.push_back(std::forward<Z>(val));
        }
        cv.notify_all();
    }
    template<class... Args>
    void emplace(Args&&... args)
    {
        verif::schedNoise();
        {
            std::lock_guard<MUTEX> lk(m);
            q.emplace_back(std::forward<Args>(args)...);
        }
        cv.notify_all();
    }
    template<class Z>
    void pushPriority(Z&& val)
    {
        {
            std::lock_guard<MUTEX> lk(m);
            q.push_front(std::forward<Z>(val));
        }
        cv.notify_all();
    }
    T pop()
    {
        verif::schedNoise();
        std::unique_lock<MUTEX> lk(m);
        cv.wait(lk, [this] { return !q.empty(); });
        T val(std::move(q.front()));
        q.pop_front();
        return val;
    }
    std::optional<T> pop(std::chrono::milliseconds timeout)
    {
        std::unique_lock<MUTEX> lk(m);
        if (!cv.wait_for(lk, timeout, [this] { return !q.empty(); })) {
            return {};
        }
        std::optional<T> val(std::move(q.front()));
        q.pop_front();
        return val;
    }
    std::optional<T> try_pop()
    {
        std::lock_guard<MUTEX> lk(m);
        if (q.empty()) {
            return {};
        }
        std::optional<T> val(std::move(q.front()));
        q.pop_front();
        return val;
    }
    std::optional<T> try_peek() const
    {
        std::lock_guard<MUTEX> lk(m);
        if (q.empty()) {
            return {};
        }
        return q.front();
    }
    std::size_t size() const
    {
        std::lock_guard<MUTEX> lk(m);
        return q.size();
    }
    bool empty() const
    {
        std::lock_guard<MUTEX> lk(m);
        return q.empty();
    }
    void clear()
    {
        std::lock_guard<MUTEX> lk(m);
        q.clear();
    }
    void reserve(std::size_t) {}

  private:
    mutable MUTEX m;
    COND cv;
    std::deque<T> q;
};
}  // namespace gmlc::containers
