// Models of the bookkeeping containers (contract: find returns the entry with
// an equal key or end; upper_bound the first range starting behind the key;
// the pending list hands its entries out in order).
namespace cista::raw {
template <typename K, typename V>
struct an_offsets {
  struct node { void const* first; V second; };
  static inline node slot[2];
  using iterator = node*;
  iterator find(void const* k) {
    ++gh::o_asked; gh::o_key = k;
    gh::on_find(k);
    gh::o_has = (an_any_u64() & 1U) != 0U;
    if (!gh::o_has) return slot + 1;
    gh::o_val = static_cast<off>(an_any_u64());
    MUST(gh::o_val >= 0 && gh::o_val < (1LL << 46));
    slot[0].first = k; slot[0].second = gh::o_val;
    return slot;
  }
  bool contains(void const* k) { return find(k) == slot; }
  iterator end() { return slot + 1; }
  friend iterator end(an_offsets& o) { return o.end(); }
  template <typename... A> void emplace(A&&...) {}
  V& operator[](void const*) { return slot[1].second; }
};
}
namespace std {
template <typename K, typename V>
struct an_range_node { K first; V second; };
template <typename K, typename V>
struct an_ranges {
  using node = an_range_node<K, V>;
  using iterator = node*;
  static inline node slot[3];
  bool empty() const { ++gh::r_asked; return gh::r_empty = (an_any_u64() & 1U) != 0U; }
  iterator upper_bound(void const* k) {
    ++gh::r_asked; gh::r_key = k;
    gh::r_prev = !gh::r_empty && (an_any_u64() & 1U) != 0U;
    if (!gh::r_prev) return slot;
    slot[0].first = static_cast<void const*>(an_any_ptr());
    slot[0].second.start_ = static_cast<off>(an_any_u64());
    slot[0].second.size_ = an_any_u64();
    MUST(adr(slot[0].first) <= adr(k) && adr(slot[0].first) < (1ULL << 47));
    MUST(slot[0].second.start_ >= 0 && slot[0].second.start_ < (1LL << 46) && slot[0].second.size_ < (1ULL << 46));
    return slot + 1;
  }
  iterator begin() { return slot; }
  iterator end() { return slot + 2; }
  template <typename... A> void emplace(A&&...) {}
};
template <typename T>
struct an_pending {
  static inline T const* from;
  static inline std::size_t count;
  template <typename E> void add(E const& e) { ++gh::pend; gh::p_ptr = e.origin_ptr_; gh::p_pos = e.pos_; }
  template <typename... A> void emplace_back(A&&... a) { add(T{static_cast<A&&>(a)...}); }
  void push_back(T const& e) { add(e); }
  static T const& at(T const* p) { MUST(p->origin_ptr_ != nullptr && p->pos_ >= 0 && p->pos_ < (1LL << 46) && adr(p->origin_ptr_) < (1ULL << 47)); return *p; }
  struct iterator {
    T const* p;
    T const& operator*() const { return at(p); }
    T const* operator->() const { return &at(p); }
    iterator& operator++() { ++p; return *this; }
    iterator operator++(int) { return iterator{p++}; }
    bool operator==(iterator const& o) const { return p == o.p; }
    bool operator!=(iterator const& o) const { return p != o.p; }
  };
  iterator begin() const { return {from}; }
  iterator end() const { return {from + count}; }
  friend iterator begin(an_pending const& x) { return x.begin(); }
  friend iterator end(an_pending const& x) { return x.end(); }
  std::size_t size() const { return count; }
  bool empty() const { return count == 0; }
  T const& operator[](std::size_t i) const { return at(from + i); }
};
}
#define hash_map an_offsets
#define map an_ranges
#define vector an_pending
