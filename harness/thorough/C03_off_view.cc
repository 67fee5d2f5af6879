// C03: strings with relative pointers
// FLAGS: -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memchr -fno-builtin-memset -fno-builtin-strlen -fno-builtin-memcmp
#include "str_all.h"
namespace O = c::offset;
ALL(ov, O::string_view) PLAIN(ov, O::string_view, false)
SOURCES(ov, O::string_view, copy_assign, false, false, false, [](O::string_view& a, O::string_view& b) { a = static_cast<O::string_view const&>(b); })
SOURCES(ov, O::string_view, move_assign, false, false, false, [](O::string_view& a, O::string_view& b) { a = std::move(b); })
NEWS(ov, O::string_view, copy, false, false, false, [](O::string_view* a, O::string_view& b) { new (a) O::string_view(static_cast<O::string_view const&>(b)); })
