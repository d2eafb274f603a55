// Stand-in for GMLC-TDC/containers StringMappedVector.hpp
#pragma once
#include "MapTraits.hpp"

#include <deque>
#include <map>
#include <optional>
#include <string>
#include <string_view>
namespace gmlc::containers {
template<class VType,
         reference_stability STABILITY = reference_stability::unstable,
         int BLOCK_ORDER = 5>
class StringMappedVector {
  public:
    template<typename... Us>
    std::optional<std::size_t> insert(std::string_view searchValue, Us&&... data)
    {
        if (lookup.find(searchValue) != lookup.end()) {
            return std::nullopt;
        }
        auto index = dataStorage.size();
        dataStorage.emplace_back(std::forward<Us>(data)...);
        lookup.emplace(std::string(searchValue), index);
        return index;
    }
    template<typename... Us>
    std::optional<std::size_t> insert(no_search_type, Us&&... data)
    {
        auto index = dataStorage.size();
        dataStorage.emplace_back(std::forward<Us>(data)...);
        return index;
    }
    template<typename... Us>
    std::size_t insert_or_assign(std::string_view searchValue, Us&&... data)
    {
        auto f = lookup.find(searchValue);
        if (f != lookup.end()) {
            dataStorage[f->second] = VType(std::forward<Us>(data)...);
            return f->second;
        }
        return *insert(searchValue, std::forward<Us>(data)...);
    }
    bool addSearchTermForIndex(std::string_view s, std::size_t index)
    {
        return (index < dataStorage.size()) ? lookup.emplace(std::string(s), index).second : false;
    }
    auto find(std::string_view key)
    {
        auto f = lookup.find(key);
        return (f != lookup.end()) ?
            dataStorage.begin() + static_cast<std::ptrdiff_t>(f->second) :
            dataStorage.end();
    }
    auto find(std::string_view key) const
    {
        auto f = lookup.find(key);
        return (f != lookup.end()) ?
            dataStorage.begin() + static_cast<std::ptrdiff_t>(f->second) :
            dataStorage.end();
    }
    void removeIndex(std::size_t index)
    {
        if (index >= dataStorage.size()) {
            return;
        }
        dataStorage.erase(dataStorage.begin() + static_cast<std::ptrdiff_t>(index));
        for (auto it = lookup.begin(); it != lookup.end();) {
            if (it->second == index) {
                it = lookup.erase(it);
            } else {
                if (it->second > index) {
                    --it->second;
                }
                ++it;
            }
        }
    }
    void remove(std::string_view key)
    {
        auto f = lookup.find(key);
        if (f != lookup.end()) {
            removeIndex(f->second);
        }
    }
    template<class F>
    void apply(F func)
    {
        for (auto& v : dataStorage) {
            func(v);
        }
    }
    template<class F>
    void modify(F func)
    {
        for (auto& v : dataStorage) {
            func(v);
        }
    }
    template<class F>
    void transform(F func)
    {
        for (auto& v : dataStorage) {
            v = func(v);
        }
    }
    VType& operator[](std::size_t index) { return dataStorage[index]; }
    const VType& operator[](std::size_t index) const { return dataStorage[index]; }
    VType& back() { return dataStorage.back(); }
    const VType& back() const { return dataStorage.back(); }
    auto begin() { return dataStorage.begin(); }
    auto end() { return dataStorage.end(); }
    auto begin() const { return dataStorage.begin(); }
    auto end() const { return dataStorage.end(); }
    std::size_t size() const { return dataStorage.size(); }
    bool empty() const { return dataStorage.empty(); }
    void clear()
    {
        dataStorage.clear();
        lookup.clear();
    }

  private:
    std::deque<VType> dataStorage;
    std::map<std::string, std::size_t, std::less<>> lookup;
};
}  // namespace gmlc::containers
