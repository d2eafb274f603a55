// Stand-in for GMLC-TDC/concurrency SearchableObjectHolder.hpp
#pragma once
#include "TripWire.hpp"

#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <utility>
#include <vector>
namespace gmlc::concurrency {
template<class X, class Y>
class SearchableObjectHolder {
  public:
    SearchableObjectHolder() = default;
    SearchableObjectHolder(const SearchableObjectHolder&) = delete;
    SearchableObjectHolder& operator=(const SearchableObjectHolder&) = delete;
    bool addObject(const std::string& name, std::shared_ptr<X> obj, Y type)
    {
        std::lock_guard<std::mutex> lk(m);
        auto res = objectMap.emplace(name, std::move(obj));
        if (res.second) {
            typeMap[name].push_back(type);
        }
        return res.second;
    }
    bool addType(const std::string& name, Y type)
    {
        std::lock_guard<std::mutex> lk(m);
        if (objectMap.count(name) == 0) {
            return false;
        }
        typeMap[name].push_back(type);
        return true;
    }
    bool empty()
    {
        std::lock_guard<std::mutex> lk(m);
        return objectMap.empty();
    }
    std::vector<std::shared_ptr<X>> getObjects()
    {
        std::lock_guard<std::mutex> lk(m);
        std::vector<std::shared_ptr<X>> out;
        for (auto& o : objectMap) {
            out.push_back(o.second);
        }
        return out;
    }
    bool removeObject(const std::string& name)
    {
        std::shared_ptr<X> keep;
        std::lock_guard<std::mutex> lk(m);
        auto f = objectMap.find(name);
        if (f == objectMap.end()) {
            return false;
        }
        keep = std::move(f->second);
        objectMap.erase(f);
        typeMap.erase(name);
        return true;
    }
    bool removeObject(std::function<bool(const std::shared_ptr<X>&)> operand)
    {
        std::shared_ptr<X> keep;
        std::lock_guard<std::mutex> lk(m);
        for (auto it = objectMap.begin(); it != objectMap.end(); ++it) {
            if (operand(it->second)) {
                keep = std::move(it->second);
                typeMap.erase(it->first);
                objectMap.erase(it);
                return true;
            }
        }
        return false;
    }
    bool copyObject(const std::string& from, const std::string& to)
    {
        std::lock_guard<std::mutex> lk(m);
        auto f = objectMap.find(from);
        if (f == objectMap.end()) {
            return false;
        }
        auto ptr = f->second;
        auto res = objectMap.emplace(to, std::move(ptr));
        if (res.second) {
            auto t = typeMap.find(from);
            if (t != typeMap.end()) {
                auto types = t->second;
                typeMap[to] = types;
            }
        }
        return res.second;
    }
    bool checkObjectType(const std::string& name, Y type)
    {
        std::lock_guard<std::mutex> lk(m);
        return hasType(name, type);
    }
    std::shared_ptr<X> findObject(const std::string& name)
    {
        std::lock_guard<std::mutex> lk(m);
        auto f = objectMap.find(name);
        return (f != objectMap.end()) ? f->second : nullptr;
    }
    std::shared_ptr<X> findObject(std::function<bool(const std::shared_ptr<X>&)> operand)
    {
        std::lock_guard<std::mutex> lk(m);
        for (auto& o : objectMap) {
            if (operand(o.second)) {
                return o.second;
            }
        }
        return nullptr;
    }
    std::shared_ptr<X> findObject(std::function<bool(const std::shared_ptr<X>&)> operand, Y type)
    {
        std::lock_guard<std::mutex> lk(m);
        for (auto& o : objectMap) {
            if (hasType(o.first, type) && operand(o.second)) {
                return o.second;
            }
        }
        return nullptr;
    }

  private:
    bool hasType(const std::string& name, Y type)
    {
        auto f = typeMap.find(name);
        if (f == typeMap.end()) {
            return false;
        }
        for (auto& t : f->second) {
            if (t == type) {
                return true;
            }
        }
        return false;
    }
    std::mutex m;
    std::map<std::string, std::shared_ptr<X>> objectMap;
    std::map<std::string, std::vector<Y>> typeMap;
    TripWireDetector trippedDetect;
};
}  // namespace gmlc::concurrency
