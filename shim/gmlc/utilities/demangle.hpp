#pragma once
#include <cstdlib>
#include <cxxabi.h>
#include <memory>
#include <string>
namespace gmlc {
inline std::string demangle(const char* name)
{
    int status = 0;
    std::unique_ptr<char, void (*)(void*)> res{abi::__cxa_demangle(name, nullptr, nullptr, &status),
                                               std::free};
    return (status == 0) ? std::string(res.get()) : std::string(name);
}
}  // namespace gmlc
namespace gmlc::utilities {
using gmlc::demangle;
template<class T>
std::string demangle(const T& t)
{
    return gmlc::demangle(typeid(t).name());
}
}
