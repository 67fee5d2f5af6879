#undef hash_map
#undef map
#undef vector
#define gh_ranges (std::an_ranges<void const*, c::vector_range>::slot)
