// Stand-in for GMLC-TDC/concurrency libguarded handles
#pragma once
#include <atomic>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <type_traits>
#include <utility>
namespace gmlc::libguarded {
template<class M, class = void>
struct is_shared_mutex: std::false_type {};
template<class M>
struct is_shared_mutex<M, std::void_t<decltype(std::declval<M&>().lock_shared())>>:
    std::true_type {};

template<class T, class LOCK>
class handle_base {
  public:
    handle_base() = default;
    handle_base(T* val, LOCK lk): data(val), lock(std::move(lk)) {}
    handle_base(handle_base&& o) noexcept:
        data(std::exchange(o.data, nullptr)), lock(std::move(o.lock))
    {
    }
    handle_base& operator=(handle_base&& o) noexcept
    {
        data = std::exchange(o.data, nullptr);
        lock = std::move(o.lock);
        return *this;
    }
    operator bool() const noexcept { return data != nullptr; }
    T& operator*() const noexcept { return *data; }
    T* operator->() const noexcept { return data; }
    T* get() const noexcept { return data; }
    void unlock()
    {
        data = nullptr;
        if (lock.owns_lock()) {
            lock.unlock();
        }
    }
    template<class U = T>
    auto begin() const -> decltype(std::declval<U&>().begin())
    {
        return data->begin();
    }
    template<class U = T>
    auto end() const -> decltype(std::declval<U&>().end())
    {
        return data->end();
    }

  private:
    T* data{nullptr};
    LOCK lock;
};
template<class T, class M>
using lock_handle = handle_base<T, std::unique_lock<M>>;
template<class T, class M>
using shared_lock_handle = handle_base<
    const T,
    std::conditional_t<is_shared_mutex<M>::value, std::shared_lock<M>, std::unique_lock<M>>>;

template<typename T, typename M, bool OPT>
class guarded_impl {
  public:
    using handle = lock_handle<T, M>;
    using shared_handle = shared_lock_handle<T, M>;
    using shared_lock_type =
        std::conditional_t<is_shared_mutex<M>::value, std::shared_lock<M>, std::unique_lock<M>>;

    handle lock() const
    {
        return handle(&obj, enabled() ? std::unique_lock<M>(m) : std::unique_lock<M>());
    }
    handle lock()
    {
        return handle(&obj, enabled() ? std::unique_lock<M>(m) : std::unique_lock<M>());
    }
    handle try_lock()
    {
        if (!enabled()) {
            return handle(&obj, std::unique_lock<M>());
        }
        std::unique_lock<M> lk(m, std::try_to_lock);
        return lk.owns_lock() ? handle(&obj, std::move(lk)) : handle();
    }
    shared_handle lock_shared() const
    {
        return shared_handle(&obj, enabled() ? shared_lock_type(m) : shared_lock_type());
    }
    std::decay_t<T> load() const
    {
        auto h = lock_shared();
        return *h;
    }
    std::decay_t<T> operator*() const { return load(); }
    template<typename X>
    void store(X&& v)
    {
        auto h = lock();
        *h = std::forward<X>(v);
    }
    template<typename X>
    void operator=(X&& v)
    {
        store(std::forward<X>(v));
    }
    template<class F>
    decltype(auto) modify(F&& f)
    {
        auto h = lock();
        return f(*h);
    }
    template<class F>
    decltype(auto) read(F&& f) const
    {
        auto h = lock_shared();
        return f(*h);
    }

  protected:
    template<typename... Us>
    guarded_impl(std::in_place_t, bool en, Us&&... data):
        obj(std::forward<Us>(data)...), enabledFlag(en)
    {
    }

  private:
    bool enabled() const { return !OPT || enabledFlag; }
    mutable T obj;
    mutable M m;
    const bool enabledFlag{true};
};
}  // namespace gmlc::libguarded
