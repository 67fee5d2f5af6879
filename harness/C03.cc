// C03: strings own, refer to and free exactly what they should
// FLAGS: -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memchr -fno-builtin-memset -fno-builtin-strlen -fno-builtin-memcmp
#include "str_all.h"
namespace R = c::raw;
ALL(s, R::string) PLAIN(s, R::string, true) CHARS(s, R::string, true) COPIES(s, R::string, true, true) MOVES(s, R::string, true, false) SELF(s, R::string, true, false) ERASE(s, R::string) ENDS(s, R::string, starts_with, false) ENDS(s, R::string, ends_with, true)
