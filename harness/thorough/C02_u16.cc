// C02: indexed vectors with 16 bit sizes
#include "../vec.h"
#include "../vec_all.h"
using vec = c::basic_vector<T, c::raw::ptr, true, std::uint16_t>;
ALL(u16, vec)
