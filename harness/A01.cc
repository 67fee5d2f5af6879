// A01: atomic updates, C++17: compiler builtins
// FLAGS: -fstrict-aliasing
// ENGINE: -inline-threshold=20000
#include "atomics.h"
