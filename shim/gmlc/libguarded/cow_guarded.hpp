// Stand-in for libguarded cow_guarded: readers see an immutable snapshot, writers publish a copy.
#pragma once
#include <memory>
#include <mutex>
#include <utility>
namespace gmlc::libguarded {
template<typename T, typename M = std::mutex>
class cow_guarded {
  public:
    using shared_handle = std::shared_ptr<const T>;
    class handle {
      public:
        handle(cow_guarded* p, std::unique_lock<M> l):
            parent(p), lk(std::move(l)), copy(std::make_unique<T>(*p->current()))
        {
        }
        handle(handle&& o) noexcept:
            parent(std::exchange(o.parent, nullptr)), lk(std::move(o.lk)), copy(std::move(o.copy))
        {
        }
        ~handle() { reset(); }
        T& operator*() const { return *copy; }
        T* operator->() const { return copy.get(); }
        void reset()
        {
            if (parent != nullptr && copy) {
                parent->publish(std::move(copy));
            }
            parent = nullptr;
            if (lk.owns_lock()) {
                lk.unlock();
            }
        }
        void cancel() { copy.reset(); }

      private:
        cow_guarded* parent;
        std::unique_lock<M> lk;
        std::unique_ptr<T> copy;
    };
    template<typename... Us>
    explicit cow_guarded(Us&&... data): cur(std::make_shared<const T>(std::forward<Us>(data)...))
    {
    }
    handle lock() { return handle(this, std::unique_lock<M>(writeMutex)); }
    shared_handle lock_shared() const { return current(); }

  private:
    shared_handle current() const
    {
        std::lock_guard<std::mutex> l(ptrMutex);
        return cur;
    }
    void publish(std::unique_ptr<T> p)
    {
        std::lock_guard<std::mutex> l(ptrMutex);
        cur = shared_handle(std::move(p));
    }
    shared_handle cur;
    mutable std::mutex ptrMutex;
    M writeMutex;
};
}  // namespace gmlc::libguarded
