// Stand-in for GMLC-TDC/containers DualMappedPointerVector.hpp
#pragma once
#include "MapTraits.hpp"

#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <vector>
namespace gmlc::containers {
template<class VType, class searchType1, class searchType2>
class DualMappedPointerVector {
  public:
    template<typename... Us>
    std::optional<std::size_t>
        insert(const searchType1& s1, const searchType2& s2, Us&&... data)
    {
        if (lookup1.find(s1) != lookup1.end() && lookup2.find(s2) != lookup2.end()) {
            return std::nullopt;
        }
        auto index = add(std::forward<Us>(data)...);
        lookup1.emplace(s1, index);
        lookup2.emplace(s2, index);
        return index;
    }
    template<typename... Us>
    std::optional<std::size_t> insert(no_search_type, const searchType2& s2, Us&&... data)
    {
        if (lookup2.find(s2) != lookup2.end()) {
            return std::nullopt;
        }
        auto index = add(std::forward<Us>(data)...);
        lookup2.emplace(s2, index);
        return index;
    }
    template<typename... Us>
    std::optional<std::size_t> insert(const searchType1& s1, no_search_type, Us&&... data)
    {
        if (lookup1.find(s1) != lookup1.end()) {
            return std::nullopt;
        }
        auto index = add(std::forward<Us>(data)...);
        lookup1.emplace(s1, index);
        return index;
    }
    template<class K>
    VType* find(const K& key) const
    {
        if constexpr (std::is_same_v<K, searchType2>) {
            auto f = lookup2.find(key);
            return (f != lookup2.end()) ? dataStorage[f->second].get() : nullptr;
        } else {
            auto f = lookup1.find(key);
            return (f != lookup1.end()) ? dataStorage[f->second].get() : nullptr;
        }
    }
    VType* operator[](std::size_t index) const
    {
        return (index < dataStorage.size()) ? dataStorage[index].get() : nullptr;
    }
    VType* back() const { return dataStorage.back().get(); }
    bool addSearchTermForIndex(const searchType1& s, std::size_t index)
    {
        return (index < dataStorage.size()) ? lookup1.emplace(s, index).second : false;
    }
    bool addSearchTermForIndex(const searchType2& s, std::size_t index)
    {
        return (index < dataStorage.size()) ? lookup2.emplace(s, index).second : false;
    }
    void removeIndex(std::size_t index)
    {
        if (index >= dataStorage.size()) {
            return;
        }
        dataStorage.erase(dataStorage.begin() + static_cast<std::ptrdiff_t>(index));
        fix(lookup1, index);
        fix(lookup2, index);
    }
    template<class K>
    void remove(const K& key)
    {
        if constexpr (std::is_same_v<K, searchType2>) {
            auto f = lookup2.find(key);
            if (f != lookup2.end()) {
                removeIndex(f->second);
            }
        } else {
            auto f = lookup1.find(key);
            if (f != lookup1.end()) {
                removeIndex(f->second);
            }
        }
    }
    template<class F>
    void apply(F func)
    {
        for (auto& v : dataStorage) {
            func(v.get());
        }
    }
    auto begin() const { return dataStorage.begin(); }
    auto end() const { return dataStorage.end(); }
    std::size_t size() const { return dataStorage.size(); }
    bool empty() const { return dataStorage.empty(); }
    void clear()
    {
        dataStorage.clear();
        lookup1.clear();
        lookup2.clear();
    }

  private:
    std::size_t add(std::unique_ptr<VType> ptr)
    {
        dataStorage.push_back(std::move(ptr));
        return dataStorage.size() - 1;
    }
    template<typename... Us>
    std::size_t add(Us&&... data)
    {
        dataStorage.push_back(std::make_unique<VType>(std::forward<Us>(data)...));
        return dataStorage.size() - 1;
    }
    template<class M>
    static void fix(M& m, std::size_t index)
    {
        for (auto it = m.begin(); it != m.end();) {
            if (it->second == index) {
                it = m.erase(it);
            } else {
                if (it->second > index) {
                    --it->second;
                }
                ++it;
            }
        }
    }
    std::vector<std::unique_ptr<VType>> dataStorage;
    std::map<searchType1, std::size_t, std::less<>> lookup1;
    std::map<searchType2, std::size_t, std::less<>> lookup2;
};
}  // namespace gmlc::containers
