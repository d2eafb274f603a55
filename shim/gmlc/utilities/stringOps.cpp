#include "stringOps.h"

#include "string_viewOps.h"

#include <chrono>
#include <unistd.h>

namespace gmlc::utilities {
std::string randomString(std::string::size_type length)
{
    static constexpr char chars[] =
        "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
    static std::atomic<std::uint64_t> counter{0};
    thread_local std::mt19937_64 rng(
        static_cast<std::uint64_t>(
            std::chrono::steady_clock::now().time_since_epoch().count()) ^
        (static_cast<std::uint64_t>(getpid()) << 40U) ^ (counter.fetch_add(1) << 20U) ^
        std::random_device{}());
    std::string out(length, '0');
    for (auto& c : out) {
        c = chars[rng() % 62];
    }
    return out;
}

namespace stringOps {
    static string_viewOps::delimiter_compression dc(delimiter_compression c)
    {
        return c == delimiter_compression::on ? string_viewOps::delimiter_compression::on :
                                                string_viewOps::delimiter_compression::off;
    }
    static stringVector conv(const std::vector<std::string_view>& in)
    {
        return {in.begin(), in.end()};
    }
    stringVector splitline(std::string_view line,
                           std::string_view delimiters,
                           delimiter_compression compression)
    {
        return conv(string_viewOps::splitline(line, delimiters, dc(compression)));
    }
    stringVector splitline(std::string_view line, char del, delimiter_compression compression)
    {
        return conv(string_viewOps::splitline(line, std::string_view(&del, 1), dc(compression)));
    }
    void splitline(std::string_view line,
                   stringVector& strVec,
                   std::string_view delimiters,
                   delimiter_compression compression)
    {
        strVec = splitline(line, delimiters, compression);
    }
    stringVector splitlineQuotes(std::string_view line,
                                 std::string_view delimiters,
                                 std::string_view quoteChars,
                                 delimiter_compression compression)
    {
        return conv(string_viewOps::splitlineQuotes(line, delimiters, quoteChars, dc(compression)));
    }
    stringVector splitlineBracket(std::string_view line,
                                  std::string_view delimiters,
                                  std::string_view bracketChars,
                                  delimiter_compression compression)
    {
        return conv(string_viewOps::splitlineBracket(line, delimiters, bracketChars, dc(compression)));
    }
    std::string trim(std::string_view input, std::string_view whitespace)
    {
        return std::string(string_viewOps::trim(input, whitespace));
    }
    void trimString(std::string& input, std::string_view whitespace)
    {
        input = trim(input, whitespace);
    }
    void trimString(stringVector& input, std::string_view whitespace)
    {
        for (auto& s : input) {
            trimString(s, whitespace);
        }
    }
    std::string removeQuotes(std::string_view str)
    {
        return std::string(string_viewOps::removeQuotes(str));
    }
    std::string removeBrackets(std::string_view str)
    {
        auto t = string_viewOps::trim(str);
        if (t.size() > 1 &&
            (t.front() == '[' || t.front() == '(' || t.front() == '{' || t.front() == '<') &&
            t.back() == string_viewOps::closing(t.front())) {
            t = t.substr(1, t.size() - 2);
        }
        return std::string(t);
    }
    std::string xmlCharacterCodeReplace(std::string str)
    {
        return str;
    }
    int trailingStringInt(std::string_view input, std::string& output, int defNum) noexcept
    {
        auto pos = input.find_last_not_of("0123456789");
        auto start = (pos == std::string_view::npos) ? 0 : pos + 1;
        auto digits = input.substr(start);
        if (digits.empty() || digits.size() > 9) {
            output = std::string(input);
            return defNum;
        }
        auto base = input.substr(0, start);
        if (!base.empty() && (base.back() == '_' || base.back() == '#')) {
            base.remove_suffix(1);
        }
        output = std::string(base);
        return std::stoi(std::string(digits));
    }
    int trailingStringInt(std::string_view input, int defNum) noexcept
    {
        std::string s;
        return trailingStringInt(input, s, defNum);
    }
}  // namespace stringOps
}  // namespace gmlc::utilities
