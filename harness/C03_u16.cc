// C03: strings of wider characters
// FLAGS: -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memchr -fno-builtin-memset -fno-builtin-strlen -fno-builtin-memcmp
#define TX_CHAR char16_t
#include "str_all.h"
namespace R = c::raw;
ALL(u, R::u16string) PLAIN(u, R::u16string, true) COPIES(u, R::u16string, true, true) MOVES(u, R::u16string, true, false) ERASE(u, R::u16string) ENDS(u, R::u16string, starts_with, false) ENDS(u, R::u16string, ends_with, true)
