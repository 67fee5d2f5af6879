// C03: strings with relative pointers
// FLAGS: -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memchr -fno-builtin-memset -fno-builtin-strlen -fno-builtin-memcmp
#include "str_all.h"
namespace O = c::offset;
ALL(os, O::string) PLAIN(os, O::string, true) COPIES(os, O::string, true, true) MOVES(os, O::string, true, false) SELF(os, O::string, true, false) ERASE(os, O::string)
using og_t = t<O::generic_string>;
COPIES(og, O::generic_string, true, false) MOVES(og, O::generic_string, true, false) SELF(og, O::generic_string, true, false)
