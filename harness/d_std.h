#pragma once
#include "ob.h"
// Standard headers first: control flow the repository declares impossible is an obligation, not an assumption.
#include <algorithm>
#include <array>
#include <chrono>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>
#define __builtin_unreachable() an_violation("control reaches a point declared unreachable")
