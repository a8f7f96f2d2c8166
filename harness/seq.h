// Sequences of visits, compared at an arbitrary position K (so: at every position).
#pragma once
#include <noarr/structures_extended.hpp>
#include "vp.h"
template<auto D, class St> static inline vp_size vp_ix(St st) { if constexpr (noarr::state_contains<St, noarr::index_in<D>>) return (vp_size)st.template get<noarr::index_in<D>>(); else return 9999; }
template<auto... D> struct Seq {
  vp_size K, c = 0, v[sizeof...(D) + 1] = {}, x0 = 0, x1 = 0, x2 = 0;
  explicit Seq(vp_size k) : K(k) {}
  void extra(bool h, vp_size a = 0, vp_size b = 0, vp_size d = 0) { vp_pick(x0, h, a); vp_pick(x1, h, b); vp_pick(x2, h, d); }
  // record a state
  template<class St, class... E> void at(St st, E... e) { bool h = c == K; vp_size i = 0; ((vp_pick(v[i], h, vp_ix<D>(st)), i++), ...); extra(h, (vp_size)e...); c++; }
  // record plain indices (followed by extras)
  template<class... I> void put(I... i) { static_assert(sizeof...(I) >= sizeof...(D)); const vp_size a[] = {(vp_size)i..., 0, 0, 0}; bool h = c == K; for (vp_size k = 0; k < sizeof...(D); k++) vp_pick(v[k], h, a[k]); extra(h, a[sizeof...(D)], sizeof...(I) > sizeof...(D) ? a[sizeof...(D) + 1] : 0, sizeof...(I) > sizeof...(D) + 1 ? a[sizeof...(D) + 2] : 0); c++; }
  bool same(const Seq &o) const { bool r = true; for (vp_size k = 0; k < sizeof...(D); k++) r = vp_and(r, v[k] == o.v[k]); return vp_or(K >= o.c, all(r, x0 == o.x0, x1 == o.x1, x2 == o.x2)); }
};
#define SAME(a, b, l) do { vp_check((a).c == (b).c, l ": number of visits"); vp_check((a).same(b), l ": k-th visit"); } while (0)
#define FOR(i, n) for (vp_size i = 0; i < (n); i++)
