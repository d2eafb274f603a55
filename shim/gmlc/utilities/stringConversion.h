#pragma once
#include "string_viewConversion.h"
