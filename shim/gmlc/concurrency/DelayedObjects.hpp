// Stand-in for GMLC-TDC/concurrency DelayedObjects.hpp
#pragma once
#include <future>
#include <map>
#include <mutex>
#include <string>
#include <string_view>
namespace gmlc::concurrency {
template<class X>
class DelayedObjects {
  public:
    DelayedObjects() = default;
    ~DelayedObjects()
    {
        for (auto& p : byInt) {
            p.second.set_value(X{});
        }
        for (auto& p : byStr) {
            p.second.set_value(X{});
        }
    }
    DelayedObjects(const DelayedObjects&) = delete;
    DelayedObjects& operator=(const DelayedObjects&) = delete;
    std::future<X> getFuture(int index)
    {
        std::lock_guard<std::mutex> lk(m);
        std::promise<X> p;
        auto f = p.get_future();
        byInt[index] = std::move(p);
        return f;
    }
    std::future<X> getFuture(const std::string& name)
    {
        std::lock_guard<std::mutex> lk(m);
        std::promise<X> p;
        auto f = p.get_future();
        byStr[name] = std::move(p);
        return f;
    }
    template<class V>
    void setDelayedValue(int index, V&& val)
    {
        std::lock_guard<std::mutex> lk(m);
        set(byInt, usedInt, index, X(std::forward<V>(val)));
    }
    template<class V>
    void setDelayedValue(const std::string& name, V&& val)
    {
        std::lock_guard<std::mutex> lk(m);
        set(byStr, usedStr, name, X(std::forward<V>(val)));
    }
    void fulfillAllPromises(const X& val)
    {
        std::lock_guard<std::mutex> lk(m);
        for (auto& p : byInt) {
            p.second.set_value(val);
            usedInt[p.first] = std::move(p.second);
        }
        byInt.clear();
        for (auto& p : byStr) {
            p.second.set_value(val);
            usedStr[p.first] = std::move(p.second);
        }
        byStr.clear();
    }
    bool isRecognized(int index)
    {
        std::lock_guard<std::mutex> lk(m);
        return byInt.count(index) > 0 || usedInt.count(index) > 0;
    }
    bool isRecognized(const std::string& name)
    {
        std::lock_guard<std::mutex> lk(m);
        return byStr.count(name) > 0 || usedStr.count(name) > 0;
    }
    bool isCompleted(int index)
    {
        std::lock_guard<std::mutex> lk(m);
        return usedInt.count(index) > 0;
    }
    bool isCompleted(const std::string& name)
    {
        std::lock_guard<std::mutex> lk(m);
        return usedStr.count(name) > 0;
    }
    void finishedWithValue(int index)
    {
        std::lock_guard<std::mutex> lk(m);
        usedInt.erase(index);
    }
    void finishedWithValue(const std::string& name)
    {
        std::lock_guard<std::mutex> lk(m);
        usedStr.erase(name);
    }

  private:
    template<class K>
    static void set(std::map<K, std::promise<X>>& from,
                    std::map<K, std::promise<X>>& to,
                    const K& key,
                    X val)
    {
        auto f = from.find(key);
        if (f != from.end()) {
            f->second.set_value(std::move(val));
            to[key] = std::move(f->second);
            from.erase(f);
        }
    }
    std::map<int, std::promise<X>> byInt;
    std::map<std::string, std::promise<X>> byStr;
    std::map<int, std::promise<X>> usedInt;
    std::map<std::string, std::promise<X>> usedStr;
    std::mutex m;
};
}  // namespace gmlc::concurrency
