// Stand-in for GMLC-TDC/containers SimpleQueue.hpp
#pragma once
#include <deque>
#include <mutex>
#include <optional>
#include <utility>
namespace gmlc::containers {
template<class X, class MUTEX = std::mutex>
class SimpleQueue {
  public:
    SimpleQueue() = default;
    bool empty() const
    {
        std::lock_guard<MUTEX> lk(m);
        return q.empty();
    }
    std::size_t size() const
    {
        std::lock_guard<MUTEX> lk(m);
        return q.size();
    }
    void clear()
    {
        std::lock_guard<MUTEX> lk(m);
        q.clear();
    }
    template<class Z>
    void push(Z&& val)
    {
        std::lock_guard<MUTEX> lk(m);
        q.push_back(std::forward<Z>(val));
    }
    template<class... Args>
    void emplace(Args&&... args)
    {
        std::lock_guard<MUTEX> lk(m);
        q.emplace_back(std::forward<Args>(args)...);
    }
    std::optional<X> pop()
    {
        std::lock_guard<MUTEX> lk(m);
        if (q.empty()) {
            return {};
        }
        std::optional<X> val(std::move(q.front()));
        q.pop_front();
        return val;
    }
    std::optional<X> peek() const
    {
        std::lock_guard<MUTEX> lk(m);
        if (q.empty()) {
            return {};
        }
        return q.front();
    }

  private:
    mutable MUTEX m;
    std::deque<X> q;
};
}  // namespace gmlc::containers
