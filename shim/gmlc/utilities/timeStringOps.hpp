// Stand-in for GMLC-TDC/utilities timeStringOps.hpp
#pragma once
#include "timeRepresentation.hpp"

#include <stdexcept>
#include <string>
#include <string_view>

namespace gmlc::utilities {
time_units timeUnitsFromString(std::string_view unitString);
/** throws std::invalid_argument when there is no number or the unit is not known */
double getTimeValue(std::string_view timeString, time_units defUnit);

template<class timeX>
timeX loadTimeFromString(std::string_view timeString, time_units defUnit = time_units::sec)
{
    return timeX(getTimeValue(timeString, defUnit));
}
}  // namespace gmlc::utilities
