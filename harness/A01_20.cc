// A01: atomic updates, C++20: std::atomic_ref
// FLAGS: -fstrict-aliasing -std=c++20
// ENGINE: -inline-threshold=20000
#include "atomics.h"
