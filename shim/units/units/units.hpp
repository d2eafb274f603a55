#pragma once
#include "../units.hpp"
