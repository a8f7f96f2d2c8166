// Interface between a harness and the symbolic executor (or, in a native replay, replay.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
// an arbitrary value in [0, 2^bits)
std::uint64_t vp_nondet(std::uint32_t id, std::uint32_t bits);
void vp_assume(bool c);
// the property: must hold for every value of the nondets that satisfies the assumptions
void vp_check(bool c, const char *label);
// the same value, after splitting the path into one per possible value
std::uint64_t vp_case(std::uint64_t v);
}
#ifndef VP_TIER
#define VP_TIER 0
#endif
// ND(q, t): arbitrary value of q bits in the quick tier, t bits in the thorough tier
#define ND(q, t) ((std::size_t)vp_nondet(__COUNTER__, VP_TIER ? (t) : (q)))
#define NDW() ((std::size_t)vp_nondet(__COUNTER__, 64))
#define HARNESS(name) extern "C" __attribute__((noinline)) void h_##name()
using vp_size = std::size_t;
// branch-free connectives: keep the number of paths small
static inline bool vp_and(bool a, bool b) { return (bool)((int)a & (int)b); }
static inline bool vp_or(bool a, bool b) { return (bool)((int)a | (int)b); }
template<class... B> static inline bool all(B... b) { return (bool)((1 & ... & (int)(bool)b)); }

// branch-free conditional assignment
static inline void vp_pick(vp_size &dst, bool h, vp_size v) { vp_size m = (vp_size)0 - (vp_size)h; dst = (v & m) | (dst & ~m); }
