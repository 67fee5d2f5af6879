// C02: vectors with relative pointers
#include "../vec.h"
#include "../vec_all.h"
using vec = c::offset::vector<T>;
ALL(off, vec)
MORE(off, vec)
