// Stand-in for GMLC-TDC/utilities string_viewConversion.h
#pragma once
#include "string_viewOps.h"

#include <cstdlib>
#include <regex>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

namespace gmlc::utilities {
template<typename X>
X numConv(std::string_view V, std::size_t* used = nullptr)
{
    std::string s(V);
    if constexpr (std::is_same_v<X, float>) {
        return std::stof(s, used);
    } else if constexpr (std::is_floating_point_v<X>) {
        return static_cast<X>(std::stod(s, used));
    } else if constexpr (std::is_same_v<X, int>) {
        return std::stoi(s, used);
    } else if constexpr (std::is_same_v<X, bool>) {
        return std::stoi(s, used) != 0;
    } else if constexpr (std::is_unsigned_v<X>) {
        return static_cast<X>(std::stoull(s, used));
    } else {
        return static_cast<X>(std::stoll(s, used));
    }
}
template<typename X, class It>
X numConv(const std::sub_match<It>& V)
{
    const std::string s = V;
    return numConv<X>(std::string_view(s));
}
template<typename X>
X numeric_conversion(std::string_view V, const X& defValue)
{
    auto t = string_viewOps::trim(V);
    if (t.empty()) {
        return defValue;
    }
    char c = t.front();
    if (!((c >= '0' && c <= '9') || c == '-' || c == '+' || c == '.')) {
        return defValue;
    }
    try {
        std::size_t used{0};
        return numConv<X>(t, &used);
    }
    catch (const std::exception&) {
        return defValue;
    }
}
template<typename X>
X numeric_conversionComplete(std::string_view V, const X& defValue)
{
    auto t = string_viewOps::trim(V);
    if (t.empty()) {
        return defValue;
    }
    char c = t.front();
    if (!((c >= '0' && c <= '9') || c == '-' || c == '+' || c == '.')) {
        return defValue;
    }
    try {
        std::size_t used{0};
        X res = numConv<X>(t, &used);
        return (used == t.size()) ? res : defValue;
    }
    catch (const std::exception&) {
        return defValue;
    }
}
template<typename X>
std::vector<X> str2vector(std::string_view line, const X& defVal, std::string_view delims = ",;")
{
    std::vector<X> out;
    for (auto sv : string_viewOps::splitline(line, delims)) {
        out.push_back(numeric_conversionComplete<X>(sv, defVal));
    }
    return out;
}
}  // namespace gmlc::utilities
