// generated by tools/gen_vec.py: every operation of a vector in every kind of state
#pragma once
#define ALL(N, V) \
  OB ob_##N##_own_destroy(std::uint64_t n, std::uint64_t m) { t<V>::destroy(OWN, n, m); } \
  OB ob_##N##_own_reserve(std::uint64_t n, std::uint64_t m, V::size_type x) { t<V>::reserve(OWN, n, m, x); } \
  OB ob_##N##_own_clear(std::uint64_t n, std::uint64_t m) { t<V>::clear(OWN, n, m); } \
  OB ob_##N##_own_push(std::uint64_t n, std::uint64_t m) { t<V>::push(OWN, n, m); } \
  OB ob_##N##_own_push_move(std::uint64_t n, std::uint64_t m) { t<V>::push_move(OWN, n, m); } \
  OB ob_##N##_own_emplace(std::uint64_t n, std::uint64_t m) { t<V>::emplace(OWN, n, m); } \
  OB ob_##N##_own_resize(std::uint64_t n, std::uint64_t m, V::size_type x) { t<V>::resize(OWN, n, m, x); } \
  OB ob_##N##_own_resize_init(std::uint64_t n, std::uint64_t m, V::size_type x) { t<V>::resize_init(OWN, n, m, x); } \
  OB ob_##N##_own_copy(std::uint64_t n, std::uint64_t m) { t<V>::copy(OWN, n, m); } \
  OB ob_##N##_own_assign_self(std::uint64_t n, std::uint64_t m) { t<V>::assign_self(OWN, n, m); } \
  OB ob_##N##_own_move(std::uint64_t n, std::uint64_t m) { t<V>::move(OWN, n, m); } \
  OB ob_##N##_own_move_self(std::uint64_t n, std::uint64_t m) { t<V>::move_self(OWN, n, m); } \
  OB ob_##N##_own_set(std::uint64_t n, std::uint64_t m, std::uint64_t x) { t<V>::set(OWN, n, m, x); } \
  OB ob_##N##_own_insert(std::uint64_t n, std::uint64_t m, std::uint64_t i) { t<V>::insert(OWN, n, m, i); } \
  OB ob_##N##_own_insert_count(std::uint64_t n, std::uint64_t m, std::uint64_t i, V::size_type x) { t<V>::insert_count(OWN, n, m, i, x); } \
  OB ob_##N##_own_insert_range_end(V::size_type n, std::uint64_t m, std::uint64_t x) { t<V>::insert_range(OWN, n, m, 0, x); } \
  OB ob_##N##_own_insert_range_0_before_1(V::size_type n, std::uint64_t m) { t<V>::insert_range(OWN, n, m, 1, 0); } \
  OB ob_##N##_own_insert_range_2_before_1(V::size_type n, std::uint64_t m) { t<V>::insert_range(OWN, n, m, 1, 2); } \
  OB ob_##N##_own_insert_range_1_before_2(V::size_type n, std::uint64_t m) { t<V>::insert_range(OWN, n, m, 2, 1); } \
  OB ob_##N##_own_insert_range_1_before_3(V::size_type n, std::uint64_t m) { t<V>::insert_range(OWN, n, m, 3, 1); } \
  OB ob_##N##_own_insert_range_3_before_1(V::size_type n, std::uint64_t m) { t<V>::insert_range(OWN, n, m, 1, 3); } \
  OB ob_##N##_own_insert_range_3_before_2(V::size_type n, std::uint64_t m) { t<V>::insert_range(OWN, n, m, 2, 3); } \
  OB ob_##N##_own_insert_range_2_before_3(V::size_type n, std::uint64_t m) { t<V>::insert_range(OWN, n, m, 3, 2); } \
  OB ob_##N##_own_at(std::uint64_t n, std::uint64_t m, V::size_type i) { t<V>::at(OWN, n, m, i); } \
  OB ob_##N##_own_pop(std::uint64_t n, std::uint64_t m) { t<V>::pop(OWN, n, m); } \
  OB ob_##N##_own_push_own(std::uint64_t n, std::uint64_t m, std::uint64_t i) { t<V>::push_own(OWN, n, m, i); } \
  OB ob_##N##_own_emplace_own(std::uint64_t n, std::uint64_t m, std::uint64_t i) { t<V>::emplace_own(OWN, n, m, i); } \
  OB ob_##N##_own_insert_own(std::uint64_t n, std::uint64_t m, std::uint64_t i, std::uint64_t j) { t<V>::insert_own(OWN, n, m, i, j); } \
  OB ob_##N##_own_insert_count_own(std::uint64_t n, std::uint64_t m, std::uint64_t i, std::uint64_t j, V::size_type x) { t<V>::insert_count_own(OWN, n, m, i, j, x); } \
  OB ob_##N##_own_erase(std::uint64_t n, std::uint64_t m, std::uint64_t i) { t<V>::erase(OWN, n, m, i); } \
  OB ob_##N##_own_erase_range(std::uint64_t n, std::uint64_t m, std::uint64_t i, std::uint64_t j) { t<V>::erase_range(OWN, n, m, i, j); } \
  OB ob_##N##_own_access(std::uint64_t n, std::uint64_t m, std::uint64_t i) { t<V>::access(OWN, n, m, i); } \
  OB ob_##N##_view_destroy(std::uint64_t n, std::uint64_t m) { t<V>::destroy(VIEW, n, m); } \
  OB ob_##N##_view_reserve(std::uint64_t n, std::uint64_t m, V::size_type x) { t<V>::reserve(VIEW, n, m, x); } \
  OB ob_##N##_view_clear(std::uint64_t n, std::uint64_t m) { t<V>::clear(VIEW, n, m); } \
  OB ob_##N##_view_push(std::uint64_t n, std::uint64_t m) { t<V>::push(VIEW, n, m); } \
  OB ob_##N##_view_push_move(std::uint64_t n, std::uint64_t m) { t<V>::push_move(VIEW, n, m); } \
  OB ob_##N##_view_emplace(std::uint64_t n, std::uint64_t m) { t<V>::emplace(VIEW, n, m); } \
  OB ob_##N##_view_resize(std::uint64_t n, std::uint64_t m, V::size_type x) { t<V>::resize(VIEW, n, m, x); } \
  OB ob_##N##_view_resize_init(std::uint64_t n, std::uint64_t m, V::size_type x) { t<V>::resize_init(VIEW, n, m, x); } \
  OB ob_##N##_view_copy(std::uint64_t n, std::uint64_t m) { t<V>::copy(VIEW, n, m); } \
  OB ob_##N##_view_assign_self(std::uint64_t n, std::uint64_t m) { t<V>::assign_self(VIEW, n, m); } \
  OB ob_##N##_view_move(std::uint64_t n, std::uint64_t m) { t<V>::move(VIEW, n, m); } \
  OB ob_##N##_view_move_self(std::uint64_t n, std::uint64_t m) { t<V>::move_self(VIEW, n, m); } \
  OB ob_##N##_view_set(std::uint64_t n, std::uint64_t m, std::uint64_t x) { t<V>::set(VIEW, n, m, x); } \
  OB ob_##N##_view_insert(std::uint64_t n, std::uint64_t m, std::uint64_t i) { t<V>::insert(VIEW, n, m, i); } \
  OB ob_##N##_view_insert_count(std::uint64_t n, std::uint64_t m, std::uint64_t i, V::size_type x) { t<V>::insert_count(VIEW, n, m, i, x); } \
  OB ob_##N##_view_insert_range_end(V::size_type n, std::uint64_t m, std::uint64_t x) { t<V>::insert_range(VIEW, n, m, 0, x); } \
  OB ob_##N##_view_insert_range_0_before_1(V::size_type n, std::uint64_t m) { t<V>::insert_range(VIEW, n, m, 1, 0); } \
  OB ob_##N##_view_insert_range_2_before_1(V::size_type n, std::uint64_t m) { t<V>::insert_range(VIEW, n, m, 1, 2); } \
  OB ob_##N##_view_insert_range_1_before_2(V::size_type n, std::uint64_t m) { t<V>::insert_range(VIEW, n, m, 2, 1); } \
  OB ob_##N##_view_insert_range_1_before_3(V::size_type n, std::uint64_t m) { t<V>::insert_range(VIEW, n, m, 3, 1); } \
  OB ob_##N##_view_insert_range_3_before_1(V::size_type n, std::uint64_t m) { t<V>::insert_range(VIEW, n, m, 1, 3); } \
  OB ob_##N##_view_insert_range_3_before_2(V::size_type n, std::uint64_t m) { t<V>::insert_range(VIEW, n, m, 2, 3); } \
  OB ob_##N##_view_insert_range_2_before_3(V::size_type n, std::uint64_t m) { t<V>::insert_range(VIEW, n, m, 3, 2); } \
  OB ob_##N##_view_at(std::uint64_t n, std::uint64_t m, V::size_type i) { t<V>::at(VIEW, n, m, i); } \
  OB ob_##N##_view_pop(std::uint64_t n, std::uint64_t m) { t<V>::pop(VIEW, n, m); } \
  OB ob_##N##_view_push_own(std::uint64_t n, std::uint64_t m, std::uint64_t i) { t<V>::push_own(VIEW, n, m, i); } \
  OB ob_##N##_view_emplace_own(std::uint64_t n, std::uint64_t m, std::uint64_t i) { t<V>::emplace_own(VIEW, n, m, i); } \
  OB ob_##N##_view_insert_own(std::uint64_t n, std::uint64_t m, std::uint64_t i, std::uint64_t j) { t<V>::insert_own(VIEW, n, m, i, j); } \
  OB ob_##N##_view_insert_count_own(std::uint64_t n, std::uint64_t m, std::uint64_t i, std::uint64_t j, V::size_type x) { t<V>::insert_count_own(VIEW, n, m, i, j, x); } \
  OB ob_##N##_view_erase(std::uint64_t n, std::uint64_t m, std::uint64_t i) { t<V>::erase(VIEW, n, m, i); } \
  OB ob_##N##_view_erase_range(std::uint64_t n, std::uint64_t m, std::uint64_t i, std::uint64_t j) { t<V>::erase_range(VIEW, n, m, i, j); } \
  OB ob_##N##_view_access(std::uint64_t n, std::uint64_t m, std::uint64_t i) { t<V>::access(VIEW, n, m, i); } \
  OB ob_##N##_empty_destroy(std::uint64_t n, std::uint64_t m) { t<V>::destroy(EMPTY, n, m); } \
  OB ob_##N##_empty_reserve(std::uint64_t n, std::uint64_t m, V::size_type x) { t<V>::reserve(EMPTY, n, m, x); } \
  OB ob_##N##_empty_clear(std::uint64_t n, std::uint64_t m) { t<V>::clear(EMPTY, n, m); } \
  OB ob_##N##_empty_push(std::uint64_t n, std::uint64_t m) { t<V>::push(EMPTY, n, m); } \
  OB ob_##N##_empty_push_move(std::uint64_t n, std::uint64_t m) { t<V>::push_move(EMPTY, n, m); } \
  OB ob_##N##_empty_emplace(std::uint64_t n, std::uint64_t m) { t<V>::emplace(EMPTY, n, m); } \
  OB ob_##N##_empty_resize(std::uint64_t n, std::uint64_t m, V::size_type x) { t<V>::resize(EMPTY, n, m, x); } \
  OB ob_##N##_empty_resize_init(std::uint64_t n, std::uint64_t m, V::size_type x) { t<V>::resize_init(EMPTY, n, m, x); } \
  OB ob_##N##_empty_copy(std::uint64_t n, std::uint64_t m) { t<V>::copy(EMPTY, n, m); } \
  OB ob_##N##_empty_assign_self(std::uint64_t n, std::uint64_t m) { t<V>::assign_self(EMPTY, n, m); } \
  OB ob_##N##_empty_move(std::uint64_t n, std::uint64_t m) { t<V>::move(EMPTY, n, m); } \
  OB ob_##N##_empty_move_self(std::uint64_t n, std::uint64_t m) { t<V>::move_self(EMPTY, n, m); } \
  OB ob_##N##_empty_set(std::uint64_t n, std::uint64_t m, std::uint64_t x) { t<V>::set(EMPTY, n, m, x); } \
  OB ob_##N##_empty_insert(std::uint64_t n, std::uint64_t m, std::uint64_t i) { t<V>::insert(EMPTY, n, m, i); } \
  OB ob_##N##_empty_insert_count(std::uint64_t n, std::uint64_t m, std::uint64_t i, V::size_type x) { t<V>::insert_count(EMPTY, n, m, i, x); } \
  OB ob_##N##_empty_insert_range(std::uint64_t x) { t<V>::insert_range(EMPTY, 0, 0, 0, x); } \
  OB ob_##N##_empty_at(std::uint64_t n, std::uint64_t m, V::size_type i) { t<V>::at(EMPTY, n, m, i); } \
  OB ob_##N##_own_own_assign(std::uint64_t n, std::uint64_t m, std::uint64_t p, std::uint64_t q) { t<V>::assign(OWN, n, m, OWN, p, q); } \
  OB ob_##N##_own_own_move_assign(std::uint64_t n, std::uint64_t m, std::uint64_t p, std::uint64_t q) { t<V>::move_assign(OWN, n, m, OWN, p, q); } \
  OB ob_##N##_own_view_assign(std::uint64_t n, std::uint64_t m, std::uint64_t p, std::uint64_t q) { t<V>::assign(OWN, n, m, VIEW, p, q); } \
  OB ob_##N##_own_view_move_assign(std::uint64_t n, std::uint64_t m, std::uint64_t p, std::uint64_t q) { t<V>::move_assign(OWN, n, m, VIEW, p, q); } \
  OB ob_##N##_view_own_assign(std::uint64_t n, std::uint64_t m, std::uint64_t p, std::uint64_t q) { t<V>::assign(VIEW, n, m, OWN, p, q); } \
  OB ob_##N##_view_own_move_assign(std::uint64_t n, std::uint64_t m, std::uint64_t p, std::uint64_t q) { t<V>::move_assign(VIEW, n, m, OWN, p, q); } \
  OB ob_##N##_empty_own_assign(std::uint64_t n, std::uint64_t m, std::uint64_t p, std::uint64_t q) { t<V>::assign(EMPTY, n, m, OWN, p, q); } \
  OB ob_##N##_empty_own_move_assign(std::uint64_t n, std::uint64_t m, std::uint64_t p, std::uint64_t q) { t<V>::move_assign(EMPTY, n, m, OWN, p, q); } \
  OB ob_##N##_own_empty_assign(std::uint64_t n, std::uint64_t m, std::uint64_t p, std::uint64_t q) { t<V>::assign(OWN, n, m, EMPTY, p, q); } \
  OB ob_##N##_own_empty_move_assign(std::uint64_t n, std::uint64_t m, std::uint64_t p, std::uint64_t q) { t<V>::move_assign(OWN, n, m, EMPTY, p, q); } \
  OB ob_##N##_ctor_range(std::uint64_t x) { t<V>::ctor_range(x); } \
  OB ob_##N##_ctor_size(V::size_type x) { t<V>::ctor_size(x); } \
  OB ob_##N##_ctor_fill(V::size_type x) { t<V>::ctor_fill(x); }
// not decided for vectors with 16 or 64 bit sizes (see DESIGN.md)
#define MORE(N, V) \
  OB ob_##N##_own_own_compare(std::uint64_t n, std::uint64_t m, std::uint64_t p, std::uint64_t q) { t<V>::compare(OWN, n, m, OWN, p, q); } \
  OB ob_##N##_own_view_compare(std::uint64_t n, std::uint64_t m, std::uint64_t p, std::uint64_t q) { t<V>::compare(OWN, n, m, VIEW, p, q); } \
  OB ob_##N##_view_own_compare(std::uint64_t n, std::uint64_t m, std::uint64_t p, std::uint64_t q) { t<V>::compare(VIEW, n, m, OWN, p, q); } \
  OB ob_##N##_empty_own_compare(std::uint64_t n, std::uint64_t m, std::uint64_t p, std::uint64_t q) { t<V>::compare(EMPTY, n, m, OWN, p, q); } \
  OB ob_##N##_own_empty_compare(std::uint64_t n, std::uint64_t m, std::uint64_t p, std::uint64_t q) { t<V>::compare(OWN, n, m, EMPTY, p, q); } \
  OB ob_##N##_own_insert_range_same(V::size_type n, std::uint64_t m, std::uint64_t x) { t<V>::insert_range(OWN, n, m, x, x); } \
  OB ob_##N##_view_insert_range_same(V::size_type n, std::uint64_t m, std::uint64_t x) { t<V>::insert_range(VIEW, n, m, x, x); }
