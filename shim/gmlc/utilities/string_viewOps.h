// Stand-in for GMLC-TDC/utilities string_viewOps.h
#pragma once
#include "stringOps.h"

#include <string>
#include <string_view>
#include <vector>

namespace gmlc::utilities::string_viewOps {
using string_viewVector = std::vector<std::string_view>;
inline const std::string whiteSpaceCharacters(" \t\n\r\a\v\f");
using stringOps::default_delim_chars;
using stringOps::default_quote_chars;
using stringOps::default_bracket_chars;
enum class delimiter_compression { on, off };

inline std::string_view trim(std::string_view input,
                             std::string_view trimCharacters = " \t\n\r\a\v\f")
{
    auto first = input.find_first_not_of(trimCharacters);
    if (first == std::string_view::npos) {
        return {};
    }
    auto last = input.find_last_not_of(trimCharacters);
    return input.substr(first, last - first + 1);
}
inline void trimString(std::string_view& input,
                       std::string_view trimCharacters = " \t\n\r\a\v\f")
{
    input = trim(input, trimCharacters);
}
inline std::string_view merge(std::string_view string1, std::string_view string2)
{
    // both views have to look into the same string
    auto diff = string2.data() - string1.data() - static_cast<std::int64_t>(string1.size());
    if (diff >= 0 && diff < 24) {
        return {string1.data(), string1.size() + string2.size() + static_cast<std::size_t>(diff)};
    }
    if (string1.empty()) {
        return string2;
    }
    if (string2.empty()) {
        return string1;
    }
    throw(std::out_of_range("unable to merge strings"));
}
inline std::string_view removeQuotes(std::string_view str)
{
    auto t = trim(str);
    if (t.size() > 1 && (t.front() == '\"' || t.front() == '\'' || t.front() == '`') &&
        t.back() == t.front()) {
        return t.substr(1, t.size() - 2);
    }
    return t;
}
inline string_viewVector splitline(std::string_view line,
                                   std::string_view delimiters = ",",
                                   delimiter_compression compression = delimiter_compression::off)
{
    string_viewVector out;
    std::size_t start = 0;
    while (true) {
        auto pos = line.find_first_of(delimiters, start);
        if (pos == std::string_view::npos) {
            if (start < line.size() || compression == delimiter_compression::off) {
                out.push_back(line.substr(start));
            }
            break;
        }
        if (!(pos == start && compression == delimiter_compression::on)) {
            out.push_back(line.substr(start, pos - start));
        }
        start = pos + 1;
    }
    return out;
}
inline string_viewVector splitline(std::string_view line,
                                   char del,
                                   delimiter_compression compression = delimiter_compression::off)
{
    return string_viewOps::splitline(line, std::string_view(&del, 1), compression);
}
inline char closing(char c)
{
    switch (c) {
        case '[':
            return ']';
        case '(':
            return ')';
        case '{':
            return '}';
        case '<':
            return '>';
        default:
            return c;
    }
}
/** split a line, treating quoted or bracketed sections as units*/
inline string_viewVector
    splitlineSection(std::string_view line,
                     std::string_view delimiters,
                     std::string_view sectionChars,
                     delimiter_compression compression)
{
    string_viewVector out;
    std::string stack;
    std::size_t start = 0;
    bool escaped = false;
    for (std::size_t ii = 0; ii < line.size(); ++ii) {
        char c = line[ii];
        if (!stack.empty()) {
            if (escaped) {
                escaped = false;
                continue;
            }
            char top = stack.back();
            if (c == '\\' && (top == '"' || top == '\'' || top == '`')) {
                escaped = true;
                continue;
            }
            if (c == closing(top)) {
                stack.pop_back();
            } else if (top != '"' && top != '\'' && top != '`' &&
                       sectionChars.find(c) != std::string_view::npos) {
                stack.push_back(c);
            }
            continue;
        }
        if (sectionChars.find(c) != std::string_view::npos) {
            stack.push_back(c);
            continue;
        }
        if (delimiters.find(c) != std::string_view::npos) {
            if (!(ii == start && compression == delimiter_compression::on)) {
                out.push_back(trim(line.substr(start, ii - start)));
            }
            start = ii + 1;
        }
    }
    if (start < line.size() || compression == delimiter_compression::off) {
        out.push_back(trim(line.substr(start)));
    }
    return out;
}
inline string_viewVector
    splitlineQuotes(std::string_view line,
                    std::string_view delimiters = default_delim_chars,
                    std::string_view quoteChars = default_quote_chars,
                    delimiter_compression compression = delimiter_compression::off)
{
    return splitlineSection(line, delimiters, quoteChars, compression);
}
inline string_viewVector
    splitlineBracket(std::string_view line,
                     std::string_view delimiters = default_delim_chars,
                     std::string_view bracketChars = default_bracket_chars,
                     delimiter_compression compression = delimiter_compression::off)
{
    return splitlineSection(line, delimiters, bracketChars, compression);
}
}  // namespace gmlc::utilities::string_viewOps
