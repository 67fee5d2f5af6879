// stand-in for the external hash library: the analysis treats the digest as an
// uninterpreted result and records what it was asked to digest
#pragma once
#include <cstddef>
#include <cstdint>
using XXH64_hash_t = std::uint64_t;
extern "C" XXH64_hash_t an_digest(void const* p, std::size_t n, XXH64_hash_t seed) noexcept;
static inline XXH64_hash_t XXH3_64bits_withSeed(void const* p, std::size_t n, XXH64_hash_t seed) { return an_digest(p, n, seed); }
