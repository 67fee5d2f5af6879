// C03: views refer to what they are assigned, generic strings keep what they are
// FLAGS: -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memchr -fno-builtin-memset -fno-builtin-strlen -fno-builtin-memcmp
#include "str_all.h"
namespace R = c::raw;
ALL(v, R::string_view) PLAIN(v, R::string_view, false) CHARS(v, R::string_view, false)
SOURCES(v, R::string_view, copy_assign, false, false, false, [](R::string_view& a, R::string_view& b) { a = static_cast<R::string_view const&>(b); })
SOURCES(v, R::string_view, move_assign, false, false, false, [](R::string_view& a, R::string_view& b) { a = std::move(b); })
NEWS(v, R::string_view, copy, false, false, false, [](R::string_view* a, R::string_view& b) { new (a) R::string_view(static_cast<R::string_view const&>(b)); })
NEWS(v, R::string_view, move, false, false, false, [](R::string_view* a, R::string_view& b) { new (a) R::string_view(std::move(b)); })
ALL(g, R::generic_string) COPIES(g, R::generic_string, true, false) MOVES(g, R::generic_string, true, false) SELF(g, R::generic_string, true, false)
