// Stand-in for GMLC-TDC/containers MapTraits.hpp
#pragma once
#include <string>
#include <type_traits>
enum class reference_stability { unstable, stable };
template<class X>
struct is_easily_hashable {
    static constexpr bool value = std::is_integral<X>::value || std::is_enum<X>::value;
};
template<>
struct is_easily_hashable<std::string> {
    static constexpr bool value = true;
};
namespace gmlc::containers {
struct no_search_type {};
constexpr no_search_type no_search{};
}  // namespace gmlc::containers
using gmlc::containers::no_search;
