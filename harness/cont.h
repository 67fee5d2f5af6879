// composite containers instantiated with a recording storage type
#pragma once
#include "cista/containers/bitvec.h"
#include "cista/containers/flat_matrix.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
namespace pv {
template <typename T>
struct vec {
  using value_type = T; using size_type = std::uint32_t; using iterator = T*; using const_iterator = T const*;
  using reference = T&; using const_reference = T const&; using difference_type = std::ptrdiff_t;
  std::uint64_t x, y;
};
}  // namespace pv
template <typename T> using pvec = pv::vec<T>;
using t_vecvec = c::basic_vecvec<std::uint32_t, pvec<std::uint16_t>, pvec<std::uint32_t>>;
using t_nvec = c::basic_nvec<std::uint32_t, pvec<std::uint16_t>, pvec<std::uint32_t>, 3>;
using t_fws = c::fws_multimap<pvec<std::uint16_t>, pvec<std::uint32_t>>;
using t_paged = c::paged<pvec<std::uint64_t>>;
using t_pvv = c::paged_vecvec<pvec<t_paged::page_t>, t_paged, std::uint32_t>;
using t_mm = c::dynamic_fws_multimap_base<std::uint16_t, std::uint32_t, pvec, 3>;
using t_matrix = c::base_flat_matrix<pvec<std::uint16_t>>;
using t_bitvec = c::basic_bitvec<pvec<std::uint64_t>>;
