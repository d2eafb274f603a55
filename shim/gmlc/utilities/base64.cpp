#include "base64.h"

#include <cstring>
namespace gmlc::utilities {
static constexpr char tbl[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string base64_encode(const void* bytes_to_encode, std::size_t in_len)
{
    const auto* b = static_cast<const unsigned char*>(bytes_to_encode);
    std::string out;
    out.reserve((in_len + 2) / 3 * 4);
    for (std::size_t i = 0; i < in_len; i += 3) {
        unsigned v = static_cast<unsigned>(b[i]) << 16U;
        if (i + 1 < in_len) {
            v |= static_cast<unsigned>(b[i + 1]) << 8U;
        }
        if (i + 2 < in_len) {
            v |= b[i + 2];
        }
        out.push_back(tbl[(v >> 18U) & 63U]);
        out.push_back(tbl[(v >> 12U) & 63U]);
        out.push_back((i + 1 < in_len) ? tbl[(v >> 6U) & 63U] : '=');
        out.push_back((i + 2 < in_len) ? tbl[v & 63U] : '=');
    }
    return out;
}
std::string base64_decode_to_string(std::string_view enc, std::size_t offset)
{
    std::string out;
    unsigned acc = 0;
    int bits = 0;
    for (std::size_t i = offset; i < enc.size(); ++i) {
        const char* p = (enc[i] == '\0') ? nullptr : std::strchr(tbl, enc[i]);
        if (p == nullptr) {
            break;
        }
        acc = (acc << 6U) | static_cast<unsigned>(p - tbl);
        bits += 6;
        if (bits >= 8) {
            bits -= 8;
            out.push_back(static_cast<char>((acc >> static_cast<unsigned>(bits)) & 0xFFU));
            acc &= (1U << static_cast<unsigned>(bits)) - 1U;
        }
    }
    return out;
}
std::vector<unsigned char> base64_decode(std::string_view enc, std::size_t offset)
{
    auto s = base64_decode_to_string(enc, offset);
    return {s.begin(), s.end()};
}
std::size_t base64_decode(std::string_view enc, void* data, std::size_t max_size)
{
    auto s = base64_decode_to_string(enc);
    auto n = (s.size() < max_size) ? s.size() : max_size;
    std::memcpy(data, s.data(), n);
    return n;
}
}  // namespace gmlc::utilities
