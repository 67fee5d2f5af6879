// Obligation vocabulary.  A harness function `ob_<name>` is *never executed*:
// it is compiled to LLVM IR, everything it calls in /repo is inlined into it,
// and the engine decides statically whether any `an_violation` call is
// reachable.  `ob_accept_<name>` additionally forbids every throw.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" [[noreturn]] void an_violation(char const*) noexcept;
extern "C" void an_reach(char const*) noexcept;
// nondeterministic values (opaque to the analysis)
extern "C" std::uint64_t an_any_u64(void) noexcept;
extern "C" void* an_any_ptr(void) noexcept;

#define CHECK(c, text)              \
  do {                              \
    if (!(c)) an_violation(text);   \
  } while (0)
#define REACH(text) an_reach(text)
#define ASSUME(c)  \
  do {             \
    if (!(c)) return; \
  } while (0)
#define OB extern "C" void

// exact (non wrapping) arithmetic for specifications
using Z = _BitInt(96);
#define zu(v) (static_cast<Z>(static_cast<std::uint64_t>(v)))
#define zs(v) (static_cast<Z>(static_cast<std::int64_t>(v)))
template <typename P>
static inline std::uint64_t adr(P* p) { return reinterpret_cast<std::uint64_t>(p); }
template <typename T>
static inline unsigned char byte_of(T const& b) { return *reinterpret_cast<unsigned char const*>(&b); }
