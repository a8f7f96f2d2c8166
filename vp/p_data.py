"""C13 (bags), C14 (serialization)"""
from .gen import *
from .chains import chains, DIV
from . import props as P
import itertools
BAG = HEAD + r'''
#include <noarr/structures/interop/bag.hpp>
#include <noarr/structures/interop/serialize_data.hpp>
#include <cstdlib>
#include <cstring>
#include <new>
#include <memory>
#include <vector>
// every allocation is recorded, so that the size a bag asks for is observable
static std::size_t vp_asked = ~(std::size_t)0, vp_news = 0, vp_deletes = 0;
void *operator new(std::size_t n) { vp_asked = n; vp_news++; return std::malloc(n); }
void *operator new[](std::size_t n) { vp_asked = n; vp_news++; return std::malloc(n); }
void operator delete(void *p) noexcept { vp_deletes += p != nullptr; std::free(p); }
void operator delete[](void *p) noexcept { vp_deletes += p != nullptr; std::free(p); }
void operator delete(void *p, std::size_t) noexcept { vp_deletes += p != nullptr; std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { vp_deletes += p != nullptr; std::free(p); }
template<class T> static inline void wr(T &r, vp_size v) { T t; std::memcpy(&t, &v, sizeof t); r = t; }
template<class T> static inline vp_size rd(const T &r) { vp_size v = 0; std::memcpy(&v, &r, sizeof r); return v; }
template<class T> static inline vp_size cut(vp_size v) { return sizeof(T) == 8 ? v : v & (((vp_size)1 << (8 * (sizeof(T) & 7))) - 1); }
template<class T> static inline const char *ad(const T &r) { return (const char *)&r; }
template<class B, class E> using et = std::remove_cvref_t<decltype(std::declval<B>()[std::declval<E>()])>;
'''
def same_cond(m, a, b, sa, da, xa, xb):
    if a != b: return 'false'
    return 'all(' + ', '.join(['true'] + [f'{xa[d]} == {xb[d]}' for d in da if d not in sa and d not in m.bc]) + ')'
MAKE = {'unique': 'noarr::make_bag(s)', 'vector': 'noarr::make_vector_bag(s)', 'alias': 'noarr::bag(s)', 'given': 'noarr::bag(s, std::unique_ptr<char[]>(new char[s | noarr::get_size()]))'}
def at_expr(bag, idx):
    d = [k for k in idx if k[0] != '#']
    return f"{bag}.template at<{', '.join(repr(k) for k in d)}>({', '.join(lit(idx[k]) for k in d)})"
def h_bag(name, m, make='unique', bits=(2, 3)):
    """write one element, read any other, for every pair of elements"""
    out = ''; br = m.branches()
    for a in range(len(br)):
        for b in range(len(br)):
            if make != 'unique' and (a, b) not in ((0, 0), (len(br) - 1, 0)): continue
            (sa, da), (sb, db) = br[a], br[b]
            t = f'HARNESS({name}_{make}_{a}_{b}) {{\n' + decl(m, bits) + assume(m) + f'  auto s = {m.cpp};\n'
            ia, xa = indices(m, sa, da, 'a_', bits); ib, xb = indices(m, sb, db, 'b_', bits); t += ia + ib
            t += f'  vp_size v = NDW(), z = {m.size({})}; auto sa = {st_expr(xa)}; auto sb = {st_expr(xb)};\n'
            t += f'  {{ auto bag = {MAKE[make]}; using T = et<decltype(bag) &, decltype(sa)>; auto W = noarr::make_bag(s, (void *)bag.data());\n'
            t += f'  vp_check(vp_asked == z, "{name}: allocated size"); vp_check(bag.size() == z, "{name}: size"); vp_check(vp_and(vp_news == 1, vp_deletes == 0), "{name}: one allocation");\n'
            if a == b == 0 and make in ('unique', 'vector'): t += f'  vp_check(rd(bag[sb]) == 0, "{name}: new elements are zero");\n'
            t += f'  vp_size before = rd(bag[sb]); wr(W[sa], v); bool same = {same_cond(m, a, b, sa, da, xa, xb)};\n'
            t += f'  vp_check(rd(bag[sa]) == cut<T>(v), "{name}: read back"); vp_check(vp_or(same, rd(bag[sb]) == before), "{name}: other elements unchanged"); vp_check(vp_or(!same, rd(bag[sb]) == cut<T>(v)), "{name}: same element");\n'
            t += f'  vp_check(ad({at_expr("bag", xa)}) == ad(bag[sa]), "{name}: at"); vp_check(ad(bag[sa]) == (const char *)bag.data() + {m.off(xa)}, "{name}: address"); vp_check(bag.template offset<{", ".join(repr(k) for k in xa)}>({", ".join(lit(x) for x in xa.values())}) == {m.off(xa)}, "{name}: offset");\n' if xa else ''
            t += f'  auto ref = bag.get_ref(); auto ref2 = ref; auto cref = noarr::make_bag(s, (const void *)bag.data()); const auto &cb = bag;\n'
            t += f'  vp_check(all(ad(ref[sb]) == ad(bag[sb]), ad(ref2[sb]) == ad(bag[sb]), ad(cref[sb]) == ad(bag[sb]), ad(cb[sb]) == ad(bag[sb]), ad(ref.get_ref()[sb]) == ad(bag[sb])), "{name}: references address the same element");\n'
            t += f'  vp_check(ad((s | noarr::get_at(bag.data(), sb))) == ad(bag[sb]), "{name}: get_at");\n'
            for k, d in enumerate(da):
                n = stat_len_at(m, sa, da, k) if d in sa else m.lens[d](xa)
                up = st_expr({x: xa[x] for x in da[:k]})
                t += f"  vp_check(all((bag | noarr::get_length<'{d}'>({up})) == {n}, bag.template length<'{d}'>({up}) == {n}), \"{name}: length {d}\");\n"
            t += f'  auto moved = std::move(bag); vp_check(ad(moved[sb]) == ad(ref[sb]), "{name}: moved bag keeps the data"); decltype(moved) third(std::move(moved)); vp_check(vp_and(ad(third[sa]) == ad(ref[sa]), rd(third[sa]) == cut<T>(v)), "{name}: moved again"); }}\n'
            t += f'  vp_check(vp_and(vp_news == 1, vp_deletes == 1), "{name}: one deallocation");\n'
            out += t + '}\n'
    return out
def h_raw(name, m, bits=(2, 3), lens=None):
    """a raw-pointer bag viewed through transformations addresses the documented element; other elements keep their values"""
    out = ''; o = m.base; pr = m.protos[len(o.protos):]
    for bi, (st, dims) in enumerate(m.branches()):
        if bi > 2: break
        t = f'HARNESS({name}_{bi}) {{\n' + decl(m, bits, lens) + assume(m, lens) + f'  auto s = {o.cpp};\n'
        it, idx = indices(m, st, dims, 'i_', bits, lens); t += it
        oi = up_to(m, o, idx)
        t += f'  vp_size v = NDW(); auto st = {st_expr(idx, lens)};\n'
        has = not any(k[0] == '#' for k in oi)
        z = m.size(lenv(lens))
        t += f'  vp_size z = {z}; void *buf = std::malloc(z); const void *cbuf = buf;\n'
        t += f"  auto bag = noarr::make_bag(s, buf); auto view = bag{''.join(' ^ ' + p for p in pr)};\n"
        t += f"  auto cview = noarr::make_bag(s, cbuf){''.join(' ^ ' + p for p in pr)}; auto dview = {m.cpp};\n" 
        t += f'  using T = et<decltype(view) &, decltype(st)>; vp_check(ad(view[st]) == (const char *)buf + {m.off(idx)}, "{name}: address"); vp_check(ad(cview[st]) == ad(view[st]), "{name}: constant bag"); vp_check(ad((dview | noarr::get_at(buf, st))) == ad(view[st]), "{name}: same as the structure");\n'
        t += f'  wr(view[st], v); vp_check(rd(cview[st]) == cut<T>(v), "{name}: read back");\n'
        if has: t += f'  vp_check(rd(bag[{st_expr(oi)}]) == cut<T>(v), "{name}: through the original");\n'
        t += '  std::free(buf); }\n'
        out += t
    return out
def h_moved(name, m, bits=(2, 3)):
    o = m.base; pr = m.protos[len(o.protos):]; st, dims = m.branches()[0]
    t = f'HARNESS({name}) {{\n' + decl(m, bits) + assume(m) + f'  auto s = {o.cpp};\n'
    it, idx = indices(m, st, dims, 'i_', bits); t += it; oi = up_to(m, o, idx)
    t += f'  vp_size v = NDW(), z = {m.size({})}; auto st = {st_expr(idx)};\n'
    for k, mk in (('unique', 'make_bag'), ('vector', 'make_vector_bag')):
        e = f'(noarr::{mk}(s)' + ''.join(f' ^ {p}' for p in pr) + ')'
        t += f'  {{ auto view = {e}; using T = et<decltype(view) &, decltype(st)>; vp_check(vp_and(vp_asked == z, vp_news == vp_deletes + 1), "{name}: allocated once"); wr(noarr::make_bag(view.structure(), (void *)view.data())[st], v); vp_check(ad(view[st]) == (const char *)view.data() + {m.off(idx)}, "{name}: address"); vp_check(rd(view.get_ref()[st]) == cut<T>(v), "{name}: read back");\n'
        t += f'    auto orig = noarr::make_bag(s, view.data()); vp_check(rd(orig[{st_expr(oi)}]) == cut<T>(v), "{name}: documented element of the original"); }}\n'
    t += f'  vp_check(vp_and(vp_news == 2, vp_deletes == 2), "{name}: deallocated"); }}\n'
    return t
OTHER = r'''
HARNESS(histories) { vp_size n = ND(2, 3), m = ND(2, 3), i0 = ND(2, 3), j0 = ND(2, 3), i1 = ND(2, 3), j1 = ND(2, 3), i = ND(2, 3), j = ND(2, 3), u = NDW(), w = NDW();
  vp_assume(all(i0 < n, i1 < n, i < n, j0 < m, j1 < m, j < m));
  auto s = noarr::scalar<int>() ^ noarr::vector<'x'>(n) ^ noarr::vector<'y'>(m); auto bag = noarr::make_bag(s);
  bag[noarr::idx<'x', 'y'>(i0, j0)] = (int)u; auto t = bag.get_ref() ^ noarr::reverse<'x'>() ^ noarr::rename<'x', 'q'>(); t[noarr::idx<'q', 'y'>(n - 1 - i1, j1)] = (int)w;
  int want = vp_and(i == i1, j == j1) ? (int)w : vp_and(i == i0, j == j0) ? (int)u : 0;
  vp_check(bag[noarr::idx<'x', 'y'>(i, j)] == want, "last write wins, everything else untouched");
}
HARNESS(increment) { vp_size n = ND(3, 4), i = ND(3, 4), j = ND(3, 4), u = NDW(); vp_assume(i < n); vp_assume(j < n);
  auto bag = noarr::make_bag(noarr::scalar<unsigned>() ^ noarr::vector<'x'>(n)); bag.template at<'x'>(i) = (unsigned)u; bag[noarr::idx<'x'>(i)] += 5u;
  vp_check(bag.template at<'x'>(j) == (i == j ? (unsigned)u + 5u : 0u), "update through at and operator[]");
}
HARNESS(fill) { vp_size n = ND(2, 3), m = ND(2, 2), i = ND(2, 3), j = ND(2, 2), f = NDW(); vp_assume(i < n); vp_assume(j < m);
  auto s = noarr::scalar<long>() ^ noarr::vector<'x'>(n) ^ noarr::vector<'y'>(m); auto bag = noarr::make_bag(s);
  noarr::traverser(bag).for_each([&](auto st) { bag[st] = (long)(f + noarr::get_index<'x'>(st) * 100 + noarr::get_index<'y'>(st)); });
  vp_check(bag[noarr::idx<'y', 'x'>(j, i)] == (long)(f + i * 100 + j), "a traversal fills every element");
}
HARNESS(scalar_bag) { vp_size v = NDW(); auto bag = noarr::make_bag(noarr::scalar<int>()); bag[noarr::empty_state] = (int)v; vp_check(bag.template at<>() == (int)v, "scalar"); vp_check(vp_asked == 4, "size"); }
HARNESS(ignored) { vp_size n = ND(3, 4), i = ND(3, 4), k = NDW(); vp_assume(i < n); auto bag = noarr::make_bag(noarr::scalar<int>() ^ noarr::vector<'x'>(n) ^ noarr::bcast<'b'>(k));
  vp_check(vp_asked == n * 4, "broadcasting does not allocate"); vp_size a = NDW(), b = NDW(); vp_check(ad(bag[noarr::idx<'x', 'b'>(i, a)]) == ad(bag[noarr::idx<'b', 'x'>(b, i)]), "broadcast index is irrelevant"); }
template<class... Ts> struct my_container { my_container(std::size_t n) : n(n), p((char *)std::malloc(n)) {} my_container(my_container &&o) : n(o.n), p(o.p) { o.p = nullptr; } ~my_container() { std::free(p); } char *data() { return p; } const char *data() const { return p; } std::size_t n; char *p; };
HARNESS(custom) { vp_size n = ND(3, 4), m = ND(3, 4), i = ND(3, 4), j = ND(3, 4), v = NDW(); vp_assume(i < n); vp_assume(j < m); auto s = noarr::scalar<short>() ^ noarr::vector<'x'>(n) ^ noarr::vector<'y'>(m);
  noarr::bag_t<decltype(s), noarr::helpers::bag_policy<my_container>> bag(s); auto r = bag.get_ref(); vp_check((const char *)bag.data() + (i + j * n) * 2 == ad(r[noarr::idx<'x', 'y'>(i, j)]), "container policy");
  vp_check(bag.size() == n * m * 2, "size"); noarr::make_bag(s, (void *)bag.data()).template at<'x', 'y'>(i, j) = (short)v; vp_check(r[noarr::idx<'y', 'x'>(j, i)] == (short)v, "read back"); }
HARNESS(null_bag) { vp_size n = NDW(), m = NDW(), i = NDW(), j = NDW(); auto s = noarr::scalar<short>() ^ noarr::vector<'x'>(n) ^ noarr::vector<'y'>(m); auto b = noarr::make_bag(s, nullptr); auto c = b; auto d = noarr::bag(s, nullptr);
  vp_check(b.template offset<'x', 'y'>(i, j) == (i + j * n) * 2, "offset"); vp_check(vp_and(b.size() == n * m * 2, c.template length<'y'>() == m), "size and length"); vp_check(all(d.data() == nullptr, b.data() == nullptr, vp_news == 0), "no data"); vp_check((b ^ noarr::fix<'x'>(i)).template offset<'y'>(j) == (i + j * n) * 2, "view"); }
HARNESS(assign) { vp_size n = ND(3, 4), m = ND(3, 4), i = ND(3, 4), v = NDW(); vp_assume(i < n); auto S = [](vp_size k) { return noarr::scalar<int>() ^ noarr::vector<'x'>(k); };
  { auto a = noarr::make_bag(S(n)); auto b = noarr::make_bag(S(m)); a[noarr::idx<'x'>(i)] = (int)v; const void *p = a.data(); b = std::move(a); vp_check(b.data() == p, "data"); vp_check(vp_and(b.size() == n * 4, (b | noarr::get_length<'x'>()) == n), "structure"); vp_check(b[noarr::idx<'x'>(i)] == (int)v, "value"); }
  vp_check(vp_and(vp_news == 2, vp_deletes == 2), "released exactly once"); 
  int x[2] = {}; auto a = noarr::make_bag(S(1), x); auto b = noarr::make_bag(S(2), x + 1); b = a; b[noarr::idx<'x'>(0)] = (int)v; vp_check(vp_and(x[0] == (int)v, b.size() == 4), "reference bags are reassigned"); }
'''
def c13(T):
    hs = []
    L = {k: m for k, m in P.layouts().items() if k != 'sc'}
    for k, m in L.items():
        hs.append(h_bag('m_' + k, m, bits=(2, 2) if len(m.params) > 2 else (2, 3)))
    for k in ('v2', 'va', 'bco', 'aos', 'soa'):
        for mk in ('vector', 'alias', 'given'): hs.append(h_bag('m_' + k, L[k], mk))
    V = dict(P.views()); V.update({k: (m, None) for k, m in P.step_views().items()}); V.update({k: (m, None) for k, m in P.tuple_views().items()}); V.update({'b' + k: v for k, v in P.blocks().items()})
    for k, (m, l) in V.items(): hs.append(h_raw('r_' + k, m, (4, 5) if k in ('shiftl', 'bbl') else (2, 3), l))
    for k in ('fix', 'slice', 'shift', 'span', 'rev', 'ren', 'hoist', 'reo', 'step', 'join', 'tfix', 'trev', 'tshift', 'bb', 'bd', 'bs', 'bm'):
        if k in V: hs.append(h_moved('w_' + k, V[k][0]))
    for k, (o, m) in chains('c13', 60 if T else 16, DIV, (2, 3), 3).items(): hs.append(h_raw('q_' + k, m, (2, 3)))
    hs.append(OTHER)
    return dict(tus=pack_tus('c13_', hs, 4, BAG))

SER = r'''
// token streams: the printed text is a sequence of tokens (value of an element, or a newline)
struct Out { vp_size n = 0, v[160] = {}; bool nl[160] = {}; Out &tok(vp_size x, bool l) { vp_check(n < 160, "?capacity"); v[n] = x; nl[n] = l; n++; return *this; }
  Out &operator<<(char c) { return tok((unsigned char)c, true); } Out &operator<<(int x) { return tok((unsigned)x, false); } Out &operator<<(short x) { return tok((unsigned short)x, false); } Out &operator<<(long x) { return tok((vp_size)x, false); }
  Out &operator<<(double x) { return tok(rd(x), false); } Out &operator<<(float x) { return tok(rd(x), false); } };
struct In { const Out *o; vp_size pos = 0; vp_size next() { while (pos < o->n && o->nl[pos]) pos++; vp_check(pos < o->n, "nothing is read beyond the end"); return o->v[pos++]; }
  template<class T> In &operator>>(T &x) { wr(x, next()); return *this; } };
struct Num { vp_size u, n = 0; template<class T> Num &operator>>(T &x) { wr(x, u + n); n++; return *this; } };
'''
def cases(m): return ' '.join(f'{p} = vp_case({p});' for p in m.params)
def h_ser(name, m, bits=(2, 2), lens=None):
    T = f'HARNESS({name}) {{\n' + decl(m, bits, lens) + assume(m, lens) + f'  {cases(m)} vp_size u_ = NDW(), K_ = {nd((5, 6))}; auto s = {m.cpp};\n  vp_size z = {m.size({})}, N_ = 0; char *buf = (char *)std::calloc(z + 1, 1), *b2 = (char *)std::calloc(z + 1, 1);\n'
    def body(idx, ind):
        ty, sz = m.elem(idx)
        return f'{ind}wr(*({ty} *)(buf + {m.off(idx)}), u_ + {m.off(idx)}); N_++;\n'
    T += loops(m, m.tree, {}, body)
    T += f'  Out out; Out &r = noarr::serialize_data(out, s, buf); vp_check(&r == &out, "{name}: returns the stream"); vp_check(out.n == 2 * N_, "{name}: one value and one newline per element");\n'
    T += '  vp_size want = 0, k_ = 0, got = 0; bool nl = true, vl = true;\n'
    def body2(idx, ind):
        ty, sz = m.elem(idx)
        return f'{ind}{{ bool h = k_ == K_; vp_pick(want, h, cut<{ty}>(u_ + {m.off(idx)})); vp_pick(got, h, out.v[2 * k_]); vl = vp_and(vl, !out.nl[2 * k_]); nl = all(nl, out.nl[2 * k_ + 1], out.v[2 * k_ + 1] == 10); k_++; }}\n'
    T += loops(m, m.tree, {}, body2)
    T += f'  vp_check(vp_and(nl, vl), "{name}: one element per line"); vp_check(vp_or(K_ >= N_, want == got), "{name}: k-th value written");\n'
    T += f'  In in{{&out}}; In &r2 = noarr::deserialize_data(in, s, b2); vp_check(&r2 == &in, "{name}: returns the input stream"); vp_check(in.pos == 2 * N_ - (N_ != 0), "{name}: reads exactly the values"); if (N_ == 0) vp_check(in.pos == 0, "?nothing to read");\n'
    T += '  vp_size w2 = 0, g2 = 0; k_ = 0;\n'
    def body3(idx, ind):
        ty, sz = m.elem(idx)
        return f'{ind}{{ bool h = k_ == K_; vp_pick(w2, h, cut<{ty}>(u_ + {m.off(idx)})); vp_pick(g2, h, rd(*({ty} *)(b2 + {m.off(idx)}))); k_++; }}\n'
    T += loops(m, m.tree, {}, body3)
    T += f'  vp_check(vp_or(K_ >= N_, w2 == g2), "{name}: every element is restored");\n'
    T += f'  Num num{{u_}}; noarr::deserialize_data(num, s, buf); vp_check(num.n == N_, "{name}: number of reads");\n  std::free(buf); std::free(b2); }}\n'
    return T
def h_cross(name, a, b, bits=(2, 2), pre=''):
    """written from one layout, read into another with the same logical order of dimensions"""
    pa = dict(a.params); pa.update(b.params); m = a.copy(); m.params = pa
    t = f'HARNESS({name}) {{\n' + decl(m, bits) + assume(a) + assume(b) + pre + f'  {cases(m)} auto s = {a.cpp}; auto d = {b.cpp};\n  vp_size u_ = NDW(), N_ = 0, z = {a.size({})}, z2 = {b.size({})}; char *buf = (char *)std::calloc(z + 1, 1), *b2 = (char *)std::calloc(z2 + 1, 1);\n'
    st, dims = a.branches()[0]
    t += loops(a, a.tree, {}, lambda idx, ind: f'{ind}wr(*({a.elem(idx)[0]} *)(buf + {a.off(idx)}), u_ + {a.off(idx)}); N_++;\n')
    it, idx = indices(a, st, dims, 'i_', bits); t += it
    t += f'  Out out; In in{{&out}}; auto x = noarr::make_bag(s, buf); auto y = noarr::make_bag(d, b2); noarr::deserialize_data((noarr::serialize_data(out, x), in), y);\n'
    t += f'  vp_check(rd(*({b.elem(idx)[0]} *)(b2 + {b.off(idx)})) == rd(*({a.elem(idx)[0]} *)(buf + {a.off(idx)})), "{name}: same logical element"); vp_check(rd(y[{st_expr(idx)}]) == rd(x[{st_expr(idx)}]), "{name}: same logical element through the bags");\n'
    # all of it, in the destination's order
    t += f'  Out again; noarr::serialize_data(again, y); vp_check(again.n == out.n, "{name}: same length"); bool eq = true; for (vp_size k = 0; k < out.n; k++) eq = all(eq, again.v[k] == out.v[k], again.nl[k] == out.nl[k]); vp_check(eq, "{name}: same stream");\n'
    return t + '  std::free(buf); std::free(b2); }\n'
def c14(T):
    S = scalar; hs = []
    L = dict(P.layouts()); V = P.views()
    for k in ('v1', 'v2', 'v3', 'va', 'av', 'bc', 'bco', 'aos', 'soa', 'tt'): hs.append(h_ser('s_' + k, L[k]))
    hs.append(h_ser('s_long', S('long').vec('x', 'nx').vec('y', 'ny')))
    v2 = lambda: S('int').vec('x', 'nx').vec('y', 'ny')
    W = {'slice': v2().slice('x', 'a', 'n'), 'shift': v2().shift('y', 'a'), 'span': v2().span('x', 'a', 'b'), 'rev': v2().rev('y'), 'hoist': v2().hoist('x'), 'fix': v2().fix('y', 'a'), 'ren': v2().ren(x='u'), 'step': v2().step('x', 'a', 'k'), 'blocks': v2().blocks('x', 'X', 'q', 2), 'merge': v2().merge('y', 'x', 'm'), 'dyn': S('int').vec('x', 'nx').blocks_dyn('x', 'X', 'q', 'p', 'L'), 'static': S('int').vec('x', 'nx').blocks_static('x', 'b', 'X', 'q', 'L'), 'join': v2().join('x', 'y', 'd'), 'trev': tup('t', S('long').vec('x', 'nx'), S('int')).rev('t'), 'tfix': tup('t', S('int').vec('x', 'nx'), S('int').vec('y', 'ny')).vec('z', 'nz').fix('t', 1), 'setlen': S('int').vecu('x').vec('y', 'ny').setlen('x', 'nx')}
    for k, m in W.items(): hs.append(h_ser('s_' + k, m))
    r2 = lambda: S('int').vec('y', 'ny').vec('x', 'nx')
    C = {'t': (v2(), r2().hoist('y')), 'rt': (r2(), v2().hoist('x')), 'both': (v2().hoist('x'), r2().reorder('x', 'y')), 'rev': (v2(), r2().hoist('y').rev('x').rev('y')), 'ty': (v2(), S('int').vec('x', 'nx').vec('w', 2).vec('y', 'ny').fix('w', 1)),
         'slice': (v2(), S('int').vec('x', 'mx').vec('y', 'my').slice('x', 'a', 'nx').slice('y', 'b', 'ny')), 'aos': (tup('t', S('int'), S('int')).vec('x', 'nx').fix('t', 1), tup('t', S('int').vec('x', 'nx'), S('int').vec('x', 'nx')).fix('t', 1)),
         'blk': (S('int').vec('x', 'nx').vec('X', 'nX'), S('int').vec('o', 'no').blocks('o', 'X', 'x', 'nx').hoist('X')), 'v3': (S('int').vec('x', 'nx').vec('y', 'ny').vec('z', 2), S('int').vec('z', 2).vec('y', 'ny').vec('x', 'nx').reorder('z', 'y', 'x'))}
    for k, (a, b) in C.items(): hs.append(h_cross('x_' + k, a, b, (2, 2), '  vp_assume(no == nx * nX);\n' if k == 'blk' else ''))
    return dict(tus=pack_tus('c14_', hs, 3, BAG + SER))
