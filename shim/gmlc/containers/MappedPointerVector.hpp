// Stand-in for GMLC-TDC/containers MappedPointerVector.hpp
#pragma once
#include "MapTraits.hpp"

#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <vector>
namespace gmlc::containers {
template<class VType, class searchType = std::string>
class MappedPointerVector {
  public:
    template<typename... Us>
    std::optional<std::size_t> insert(const searchType& s, Us&&... data)
    {
        if (lookup.find(s) != lookup.end()) {
            return std::nullopt;
        }
        auto index = add(std::forward<Us>(data)...);
        lookup.emplace(s, index);
        return index;
    }
    template<class K, std::enable_if_t<std::is_same_v<searchType, std::string> &&
                                           std::is_convertible_v<K, std::string_view> &&
                                           !std::is_same_v<std::decay_t<K>, std::string>,
                                       int> = 0,
             typename... Us>
    std::optional<std::size_t> insert(const K& s, Us&&... data)
    {
        return insert(std::string(std::string_view(s)), std::forward<Us>(data)...);
    }
    template<class K>
    VType* find(const K& key) const
    {
        auto f = lookup.find(key);
        return (f != lookup.end()) ? dataStorage[f->second].get() : nullptr;
    }
    VType* operator[](std::size_t index) const
    {
        return (index < dataStorage.size()) ? dataStorage[index].get() : nullptr;
    }
    VType* back() const { return dataStorage.back().get(); }
    bool addSearchTermForIndex(const searchType& s, std::size_t index)
    {
        return (index < dataStorage.size()) ? lookup.emplace(s, index).second : false;
    }
    void removeIndex(std::size_t index)
    {
        if (index >= dataStorage.size()) {
            return;
        }
        dataStorage.erase(dataStorage.begin() + static_cast<std::ptrdiff_t>(index));
        for (auto it = lookup.begin(); it != lookup.end();) {
            if (it->second == index) {
                it = lookup.erase(it);
            } else {
                if (it->second > index) {
                    --it->second;
                }
                ++it;
            }
        }
    }
    template<class K>
    void remove(const K& key)
    {
        auto f = lookup.find(key);
        if (f != lookup.end()) {
            removeIndex(f->second);
        }
    }
    template<class F>
    void apply(F func)
    {
        for (auto& v : dataStorage) {
            func(v.get());
        }
    }
    auto begin() const { return dataStorage.begin(); }
    auto end() const { return dataStorage.end(); }
    std::size_t size() const { return dataStorage.size(); }
    bool empty() const { return dataStorage.empty(); }
    void clear()
    {
        dataStorage.clear();
        lookup.clear();
    }

  private:
    std::size_t add(std::unique_ptr<VType> ptr)
    {
        dataStorage.push_back(std::move(ptr));
        return dataStorage.size() - 1;
    }
    template<typename... Us>
    std::size_t add(Us&&... data)
    {
        dataStorage.push_back(std::make_unique<VType>(std::forward<Us>(data)...));
        return dataStorage.size() - 1;
    }
    std::vector<std::unique_ptr<VType>> dataStorage;
    std::map<searchType, std::size_t, std::less<>> lookup;
};
}  // namespace gmlc::containers
