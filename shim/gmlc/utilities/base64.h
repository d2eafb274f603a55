// Stand-in for GMLC-TDC/utilities base64.h
#pragma once
#include <cstddef>
#include <string>
#include <string_view>
#include <vector>
namespace gmlc::utilities {
std::string base64_encode(const void* bytes_to_encode, std::size_t in_len);
inline std::string base64_encode(std::string_view str)
{
    return base64_encode(str.data(), str.size());
}
std::string base64_decode_to_string(std::string_view encoded_string, std::size_t offset = 0);
std::vector<unsigned char> base64_decode(std::string_view encoded_string, std::size_t offset = 0);
std::size_t base64_decode(std::string_view encoded_string, void* data, std::size_t max_size);
}  // namespace gmlc::utilities
