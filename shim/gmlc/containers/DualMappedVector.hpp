// Stand-in for GMLC-TDC/containers DualMappedVector.hpp: a sequence with up to two search keys.
#pragma once
#include "MapTraits.hpp"

#include <deque>
#include <functional>
#include <map>
#include <optional>
#include <string>
#include <string_view>
#include <utility>

namespace gmlc::containers {
template<class K>
using search_map = std::map<K, std::size_t, std::less<>>;

template<class VType,
         class searchType1,
         class searchType2,
         reference_stability STABILITY = reference_stability::unstable,
         int BLOCK_ORDER = 5>
class DualMappedVector {
  public:
    using store = std::deque<VType>;
    using iterator = typename store::iterator;
    using const_iterator = typename store::const_iterator;

    template<class K1, class K2, typename... Us>
    std::optional<std::size_t> insert(K1&& s1, K2&& s2, Us&&... data)
    {
        constexpr bool has1 = !std::is_same_v<std::decay_t<K1>, no_search_type>;
        constexpr bool has2 = !std::is_same_v<std::decay_t<K2>, no_search_type>;
        // as the original: refused only when every given key is already present; an existing key
        // keeps pointing at its first element
        if constexpr (has1 && has2) {
            if (lookup1.find(s1) != lookup1.end() && lookup2.find(s2) != lookup2.end()) {
                return std::nullopt;
            }
        } else if constexpr (has1) {
            if (lookup1.find(s1) != lookup1.end()) {
                return std::nullopt;
            }
        } else if constexpr (has2) {
            if (lookup2.find(s2) != lookup2.end()) {
                return std::nullopt;
            }
        }
        auto index = dataStorage.size();
        dataStorage.emplace_back(std::forward<Us>(data)...);
        if constexpr (has1) {
            lookup1.emplace(searchType1(s1), index);
        }
        if constexpr (has2) {
            lookup2.emplace(searchType2(s2), index);
        }
        return index;
    }
    template<class K1, class K2, typename... Us>
    std::optional<std::size_t> insert_or_assign(K1&& s1, K2&& s2, Us&&... data)
    {
        auto f1 = lookup1.find(s1);
        auto f2 = lookup2.find(s2);
        if (f1 != lookup1.end() && f2 != lookup2.end()) {
            if (f1->second != f2->second) {
                return std::nullopt;
            }
            dataStorage[f1->second] = VType(std::forward<Us>(data)...);
            return f1->second;
        }
        if (f1 != lookup1.end()) {
            lookup2.emplace(searchType2(s2), f1->second);
            dataStorage[f1->second] = VType(std::forward<Us>(data)...);
            return f1->second;
        }
        if (f2 != lookup2.end()) {
            lookup1.emplace(searchType1(s1), f2->second);
            dataStorage[f2->second] = VType(std::forward<Us>(data)...);
            return f2->second;
        }
        return insert(s1, s2, std::forward<Us>(data)...);
    }
    bool addSearchTermForIndex(const searchType1& s, std::size_t index)
    {
        return (index < dataStorage.size()) ? lookup1.emplace(s, index).second : false;
    }
    bool addSearchTermForIndex(const searchType2& s, std::size_t index)
    {
        return (index < dataStorage.size()) ? lookup2.emplace(s, index).second : false;
    }
    template<class K>
    static constexpr bool isKey2 =
        std::is_same_v<std::decay_t<K>, searchType2> ||
        (!std::is_convertible_v<K, searchType1> && !std::is_convertible_v<K, std::string_view>);

    template<class N, class O>
    bool addSearchTerm(const N& newTerm, const O& oldTerm)
    {
        std::optional<std::size_t> index;
        if constexpr (isKey2<O>) {
            auto f = lookup2.find(oldTerm);
            if (f != lookup2.end()) index = f->second;
        } else {
            auto f = lookup1.find(oldTerm);
            if (f != lookup1.end()) index = f->second;
        }
        if (!index) {
            return false;
        }
        if constexpr (isKey2<N>) {
            return lookup2.emplace(searchType2(newTerm), *index).second;
        } else {
            return lookup1.emplace(searchType1(newTerm), *index).second;
        }
    }

    template<class K>
    auto find(const K& key)
    {
        if constexpr (isKey2<K>) {
            auto f = lookup2.find(key);
            return (f != lookup2.end()) ? at_it(f->second) : dataStorage.end();
        } else {
            auto f = lookup1.find(key);
            return (f != lookup1.end()) ? at_it(f->second) : dataStorage.end();
        }
    }
    template<class K>
    auto find(const K& key) const
    {
        if constexpr (isKey2<K>) {
            auto f = lookup2.find(key);
            return (f != lookup2.end()) ? at_it(f->second) : dataStorage.end();
        } else {
            auto f = lookup1.find(key);
            return (f != lookup1.end()) ? at_it(f->second) : dataStorage.end();
        }
    }
    auto find(const searchType2& key)
    {
        auto f = lookup2.find(key);
        return (f != lookup2.end()) ? at_it(f->second) : dataStorage.end();
    }
    auto find(const searchType2& key) const
    {
        auto f = lookup2.find(key);
        return (f != lookup2.end()) ? at_it(f->second) : dataStorage.end();
    }
    void removeIndex(std::size_t index)
    {
        if (index >= dataStorage.size()) {
            return;
        }
        dataStorage.erase(dataStorage.begin() + static_cast<std::ptrdiff_t>(index));
        fix(lookup1, index);
        fix(lookup2, index);
    }
    template<class K>
    void remove(const K& key)
    {
        auto f = find(key);
        if (f != dataStorage.end()) {
            removeIndex(static_cast<std::size_t>(f - dataStorage.begin()));
        }
    }
    template<class F>
    void apply(F func)
    {
        for (auto& v : dataStorage) {
            func(v);
        }
    }
    template<class F>
    void modify(F func)
    {
        for (auto& v : dataStorage) {
            func(v);
        }
    }
    template<class F>
    void transform(F func)
    {
        for (auto& v : dataStorage) {
            v = func(v);
        }
    }
    VType& operator[](std::size_t index) { return dataStorage[index]; }
    const VType& operator[](std::size_t index) const { return dataStorage[index]; }
    VType& back() { return dataStorage.back(); }
    const VType& back() const { return dataStorage.back(); }
    iterator begin() { return dataStorage.begin(); }
    iterator end() { return dataStorage.end(); }
    const_iterator begin() const { return dataStorage.begin(); }
    const_iterator end() const { return dataStorage.end(); }
    const_iterator cbegin() const { return dataStorage.begin(); }
    const_iterator cend() const { return dataStorage.end(); }
    std::size_t size() const { return dataStorage.size(); }
    bool empty() const { return dataStorage.empty(); }
    void reserve(std::size_t /*n*/) {}
    void clear()
    {
        dataStorage.clear();
        lookup1.clear();
        lookup2.clear();
    }

  private:
    template<class M>
    static void fix(M& m, std::size_t index)
    {
        for (auto it = m.begin(); it != m.end();) {
            if (it->second == index) {
                it = m.erase(it);
            } else {
                if (it->second > index) {
                    --it->second;
                }
                ++it;
            }
        }
    }
    iterator at_it(std::size_t i)
    {
        return dataStorage.begin() + static_cast<std::ptrdiff_t>(i);
    }
    const_iterator at_it(std::size_t i) const
    {
        return dataStorage.begin() + static_cast<std::ptrdiff_t>(i);
    }
    store dataStorage;
    search_map<searchType1> lookup1;
    search_map<searchType2> lookup2;
};
}  // namespace gmlc::containers
