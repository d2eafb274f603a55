#include "timeStringOps.hpp"

#include "string_viewOps.h"

namespace gmlc::utilities {
time_units timeUnitsFromString(std::string_view unitString)
{
    auto u = string_viewOps::trim(unitString);
    struct entry {
        std::string_view name;
        time_units unit;
    };
    static constexpr entry table[] = {
        {"ps", time_units::ps},          {"picosecond", time_units::ps},
        {"picoseconds", time_units::ps}, {"ns", time_units::ns},
        {"nanosecond", time_units::ns},  {"nanoseconds", time_units::ns},
        {"us", time_units::us},          {"microsecond", time_units::us},
        {"microseconds", time_units::us}, {"ms", time_units::ms},
        {"millisecond", time_units::ms}, {"milliseconds", time_units::ms},
        {"s", time_units::s},            {"sec", time_units::sec},
        {"second", time_units::sec},     {"seconds", time_units::sec},
        {"min", time_units::minutes},    {"minute", time_units::minutes},
        {"minutes", time_units::minutes}, {"hr", time_units::hr},
        {"hour", time_units::hr},        {"hours", time_units::hr},
        {"h", time_units::hr},           {"day", time_units::day},
        {"days", time_units::day},       {"week", time_units::week},
        {"weeks", time_units::week},     {"wk", time_units::week}};
    for (const auto& e : table) {
        if (e.name == u) {
            return e.unit;
        }
    }
    auto low = convertToLowerCase(u);
    for (const auto& e : table) {
        if (e.name == low) {
            return e.unit;
        }
    }
    throw(std::invalid_argument(std::string("unit ") + std::string(u) + " not recognized"));
}
double getTimeValue(std::string_view timeString, time_units defUnit)
{
    std::string s(string_viewOps::trim(timeString));
    std::size_t pos{0};
    double val{0.0};
    try {
        val = std::stod(s, &pos);
    }
    catch (const std::out_of_range&) {
        throw(std::invalid_argument("time value out of range"));
    }
    auto rest = string_viewOps::trim(std::string_view(s).substr(pos));
    time_units unit = rest.empty() ? defUnit : timeUnitsFromString(rest);
    return val * toSecondMultiplier(unit);
}
}  // namespace gmlc::utilities
