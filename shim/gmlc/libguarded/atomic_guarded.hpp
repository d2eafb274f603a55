#pragma once
#include "handles.hpp"
namespace gmlc::libguarded {
template<typename T, typename M = std::mutex>
class atomic_guarded {
  public:
    template<typename... Us>
    explicit atomic_guarded(Us&&... data): obj(std::forward<Us>(data)...)
    {
    }
    T load() const
    {
        std::lock_guard<M> lk(m);
        return obj;
    }
    T operator*() const { return load(); }
    operator T() const { return load(); }
    template<typename X>
    void store(X&& v)
    {
        std::lock_guard<M> lk(m);
        obj = std::forward<X>(v);
    }
    template<typename X>
    void operator=(X&& v)
    {
        store(std::forward<X>(v));
    }
    T exchange(T v)
    {
        std::lock_guard<M> lk(m);
        return std::exchange(obj, std::move(v));
    }

  private:
    T obj;
    mutable M m;
};
}  // namespace gmlc::libguarded
