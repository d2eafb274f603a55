#pragma once
#include "DualMappedVector.hpp"
namespace gmlc::containers {
template<class VType,
         class searchType2,
         reference_stability STABILITY = reference_stability::unstable,
         int BLOCK_ORDER = 5>
using DualStringMappedVector =
    DualMappedVector<VType, std::string, searchType2, STABILITY, BLOCK_ORDER>;
}
