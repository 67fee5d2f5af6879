// C02: vectors with 64 bit sizes
#include "../vec.h"
#include "../vec_all.h"
using vec = c::basic_vector<T, c::raw::ptr, false, std::uint64_t>;
ALL(u64, vec)
