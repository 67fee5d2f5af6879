// C02: vectors construct, use, destroy and free exactly what they own
#include "vec.h"
#include "vec_all.h"
ALL(raw, c::raw::vector<T>)
MORE(raw, c::raw::vector<T>)
