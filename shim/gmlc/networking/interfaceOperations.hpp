// Stand-in for GMLC-TDC/networking interfaceOperations.hpp
#pragma once
#include "addressOperations.hpp"
