// Stand-in for GMLC-TDC/utilities stringOps.h
#pragma once
#include <algorithm>
#include <atomic>
#include <cctype>
#include <cstdint>
#include <functional>
#include <random>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <vector>

namespace gmlc::utilities {
using stringVector = std::vector<std::string>;

inline std::string convertToLowerCase(std::string_view input)
{
    std::string out(input);
    std::transform(out.begin(), out.end(), out.begin(), [](unsigned char c) {
        return static_cast<char>(std::tolower(c));
    });
    return out;
}
inline std::string convertToUpperCase(std::string_view input)
{
    std::string out(input);
    std::transform(out.begin(), out.end(), out.begin(), [](unsigned char c) {
        return static_cast<char>(std::toupper(c));
    });
    return out;
}
inline void makeLowerCase(std::string& input)
{
    input = convertToLowerCase(input);
}
inline void makeUpperCase(std::string& input)
{
    input = convertToUpperCase(input);
}
/** unique enough within a process and between the processes of one run*/
std::string randomString(std::string::size_type length);

namespace stringOps {
    inline constexpr const char* default_delim_chars = ",;";
    inline constexpr const char* default_quote_chars = "\'\"`";
    inline constexpr const char* default_bracket_chars = "[{(<\'\"`";
    enum class delimiter_compression { on, off };

    stringVector splitline(std::string_view line,
                           std::string_view delimiters = default_delim_chars,
                           delimiter_compression compression = delimiter_compression::off);
    stringVector splitline(std::string_view line,
                           char del,
                           delimiter_compression compression = delimiter_compression::off);
    void splitline(std::string_view line,
                   stringVector& strVec,
                   std::string_view delimiters = default_delim_chars,
                   delimiter_compression compression = delimiter_compression::off);
    stringVector splitlineQuotes(std::string_view line,
                                 std::string_view delimiters = default_delim_chars,
                                 std::string_view quoteChars = default_quote_chars,
                                 delimiter_compression compression = delimiter_compression::off);
    stringVector splitlineBracket(std::string_view line,
                                  std::string_view delimiters = default_delim_chars,
                                  std::string_view bracketChars = "[{(<'\"`",
                                  delimiter_compression compression = delimiter_compression::off);
    void trimString(std::string& input, std::string_view whitespace = " \t\n\r\a\v\f");
    void trimString(stringVector& input, std::string_view whitespace = " \t\n\r\a\v\f");
    std::string trim(std::string_view input, std::string_view whitespace = " \t\n\r\a\v\f");
    std::string removeQuotes(std::string_view str);
    std::string removeBrackets(std::string_view str);
    std::string xmlCharacterCodeReplace(std::string str);
    int trailingStringInt(std::string_view input, std::string& output, int defNum = -1) noexcept;
    int trailingStringInt(std::string_view input, int defNum = -1) noexcept;
}  // namespace stringOps
}  // namespace gmlc::utilities
