// Stand-in for GMLC-TDC/containers BlockingPriorityQueue.hpp
#pragma once
#include "SchedNoise.hpp"

#include <chrono>
#include <condition_variable>
#include <deque>
#include <mutex>
#include <optional>
#include <utility>
namespace gmlc::containers {
template<typename T, class MUTEX = std::mutex, class COND = std::condition_variable>
class BlockingPriorityQueue {
  public:
    BlockingPriorityQueue() = default;
    template<class Z>
    void push(Z&& val)
    {
        verif::schedNoise();
        {
            std::lock_guard<MUTEX> lk(m);
            q.push_back(std::forward<Z>(val));
        }
        cv.notify_all();
    }
    template<class Z>
    void pushPriority(Z&& val)
    {
        verif::schedNoise();
        {
            std::lock_guard<MUTEX> lk(m);
            pq.push_back(std::forward<Z>(val));
        }
        cv.notify_all();
    }
    template<class... Args>
    void emplace(Args&&... args)
    {
        verif::schedNoise();
        {
            std::lock_guard<MUTEX> lk(m);
            q.emplace_back(std::forward<Args>(args)...);
        }
        cv.notify_all();
    }
    template<class... Args>
    void emplacePriority(Args&&... args)
    {
        verif::schedNoise();
        {
            std::lock_guard<MUTEX> lk(m);
            pq.emplace_back(std::forward<Args>(args)...);
        }
        cv.notify_all();
    }
    T pop()
    {
        verif::schedNoise();
        std::unique_lock<MUTEX> lk(m);
        cv.wait(lk, [this] { return !pq.empty() || !q.empty(); });
        return take();
    }
    std::optional<T> pop(std::chrono::milliseconds timeout)
    {
        std::unique_lock<MUTEX> lk(m);
        if (!cv.wait_for(lk, timeout, [this] { return !pq.empty() || !q.empty(); })) {
            return {};
        }
        return take();
    }
    std::optional<T> try_pop()
    {
        std::lock_guard<MUTEX> lk(m);
        if (pq.empty() && q.empty()) {
            return {};
        }
        return take();
    }
    std::optional<T> try_peek() const
    {
        std::lock_guard<MUTEX> lk(m);
        if (!pq.empty()) {
            return pq.front();
        }
        if (!q.empty()) {
            return q.front();
        }
        return {};
    }
    bool empty() const
    {
        std::lock_guard<MUTEX> lk(m);
        return pq.empty() && q.empty();
    }
    std::size_t size() const
    {
        std::lock_guard<MUTEX> lk(m);
        return pq.size() + q.size();
    }
    void clear()
    {
        std::lock_guard<MUTEX> lk(m);
        pq.clear();
        q.clear();
    }
    void reserve(std::size_t) {}

  private:
    T take()
    {
        auto& d = pq.empty() ? q : pq;
        T val(std::move(d.front()));
        d.pop_front();
        return val;
    }
    mutable MUTEX m;
    COND cv;
    std::deque<T> q;
    std::deque<T> pq;
};
}  // namespace gmlc::containers
