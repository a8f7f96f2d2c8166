"""C21: translating states through views"""
from .gen import *
from .chains import chains, DIV
SEQH = HEAD + '#include "seq.h"\n'
def chain(m):
    r = []
    while m.sub is not None: m = m.sub; r.append(m)
    return r
def h_state_at(name, m, bits, lens=None, pre=None, prefixes=False):
    out = ''
    for bi, (st, dims) in enumerate(m.branches()):
        for k in ([len(dims)] + (list(range(len(dims))) if prefixes else [])[:1 + len(dims)]):
            full = k == len(dims)
            t = f'HARNESS({name}_{bi}{"" if full else f"_p{k}"}) {{\n' + decl(m, bits, lens) + (pre or '') + assume(m, lens) + f'  auto S_ = {m.cpp};\n'
            it, idx = indices(m, st, dims, 'i_', bits, lens)
            part = {d: v for d, v in idx.items() if d[0] == '#' or d in dims[:k]}
            t += it + f'  auto T_ = {st_expr(part, lens)};\n'
            env = part; cur = m
            for j, a in enumerate(chain(m)):
                env = cur.mp(env); cur = a
                ds = tree_dims(a.tree)
                t += f'  {{ auto A_ = {a.cpp}; auto Q_ = noarr::state_at<decltype(A_)>(S_, T_);\n'
                if ds: t += f"    vp_check(all({', '.join(f'vp_ix<{chr(39)}{d}{chr(39)}>(Q_) == {ex(env[d]) if d in env else 9999}' for d in ds)}), \"{name}: index in structure {j}\");\n"
                if full: t += f'    vp_check((A_ | noarr::offset(Q_)) == (S_ | noarr::offset(T_)), "{name}: offset in structure {j}");\n    vp_check((A_ | noarr::get_size(Q_)) == (S_ | noarr::get_size(T_)), "{name}: size of structure {j}");\n'
                t += '  }\n'
            out += t + '}\n'
    return out
ZC = r"""
HARNESS(zc) { vp_size n = ND(3, 3), m = ND(3, 3), i = ND(5, 6); vp_assume(all(n <= 4, m <= 4, n % 2 == 0, m % 2 == 0, n != 0, m != 0)); auto o = noarr::scalar<int>() ^ noarr::vector<'x'>(n) ^ noarr::vector<'y'>(m); auto s = o ^ noarr::merge_zcurve<'y', 'x', 'z'>::maxlen_alignment<4, 2>(); vp_assume(i < n * m);
  auto q = noarr::state_at<decltype(o)>(s, noarr::idx<'z'>(i)); vp_check(vp_and(vp_ix<'x'>(q) < n, vp_ix<'y'>(q) < m), "z-curve: valid indices"); vp_check((o | noarr::offset(q)) == (s | noarr::offset<'z'>(i)), "z-curve: offset"); vp_check(vp_ix<'z'>(q) == 9999, "z-curve: merged index is gone"); }
HARNESS(zc_view) { vp_size n = ND(3, 3), a = ND(2, 2), w = ND(2, 2), b = ND(2, 2), i = ND(4, 5); vp_assume(all(n <= 4, n % 2 == 0, n != 0, w != 0, b < w)); auto o = noarr::scalar<int>() ^ noarr::vector<'x'>(n) ^ noarr::vector<'y'>(n) ^ noarr::vector<'w'>(w); auto p = o ^ noarr::reverse<'x'>(); auto s = p ^ noarr::merge_zcurve<'y', 'x', 'z'>::maxlen_alignment<4, 2>() ^ noarr::shift<'z'>(a) ^ noarr::fix<'w'>(b); vp_assume(a + i < n * n);
  auto q = noarr::state_at<decltype(o)>(s, noarr::idx<'z'>(i)); auto r = noarr::state_at<decltype(p)>(s, noarr::idx<'z'>(i)); vp_check((o | noarr::offset(q)) == (s | noarr::offset<'z'>(i)), "z-curve in views: offset"); vp_check((p | noarr::offset(r)) == (s | noarr::offset<'z'>(i)), "z-curve in views: offset in between"); vp_check(all(vp_ix<'x'>(q) == n - 1 - vp_ix<'x'>(r), vp_ix<'y'>(q) == vp_ix<'y'>(r), vp_ix<'w'>(q) == b), "z-curve in views: indices"); }
"""
MORE = r"""
// states of a traverser, an inner section, a sub-structure of a tuple field
HARNESS(trav) { vp_size n = ND(2, 3), m = ND(2, 3), a = ND(2, 3); vp_assume(a <= n); auto s = noarr::scalar<int>() ^ noarr::vector<'x'>(n) ^ noarr::vector<'y'>(m); vp_size bad = 0; auto t = noarr::traverser(s) ^ noarr::shift<'x'>(a) ^ noarr::reverse<'y'>() ^ noarr::rename<'x', 'u'>();
  t.for_each([&](auto) { }); auto f = s ^ noarr::shift<'x'>(a) ^ noarr::reverse<'y'>() ^ noarr::rename<'x', 'u'>(); vp_size u = ND(2, 3), y = ND(2, 3); vp_assume(vp_and(u < n - a, y < m)); auto q = noarr::state_at<decltype(s)>(f, noarr::idx<'u', 'y'>(u, y)); auto w = (t ^ noarr::fix<'u', 'y'>(u, y)).state();
  vp_check(vp_and(vp_ix<'x'>(q) == vp_ix<'x'>(w), vp_ix<'y'>(q) == vp_ix<'y'>(w)), "a fixed traverser's state is the translated index"); vp_check(vp_and(vp_ix<'x'>(w) == u + a, vp_ix<'y'>(w) == m - 1 - y), "a fixed traverser's state"); vp_check(bad == 0, "?"); }
HARNESS(self) { vp_size n = NDW(), i = NDW(), k = NDW(); auto s = noarr::scalar<int>() ^ noarr::vector<'x'>(n); auto st = noarr::idx<'x', 'k'>(i, k); auto q = noarr::state_at<decltype(s)>(s, st); vp_check(vp_and(vp_ix<'x'>(q) == i, vp_ix<'k'>(q) == k), "a structure's own state"); auto f = s ^ noarr::fix<'x'>(i); auto r = noarr::state_at<decltype(s)>(f, noarr::idx<'k'>(k)); vp_check(vp_and(vp_ix<'x'>(r) == i, vp_ix<'k'>(r) == k), "items of others are kept"); }
"""
def c21(T):
    from .props import views, step_views, tuple_views, blocks, layouts, unsized_layouts
    hs = [MORE, ZC]
    for k, (m, l) in views().items(): hs.append(h_state_at('v_' + k, m, 'W', l, prefixes=True))
    for k, m in step_views().items(): hs.append(h_state_at('v_' + k, m, (8, 16), prefixes=True))
    for k, m in tuple_views().items(): hs.append(h_state_at('v_' + k, m, 'W'))
    for k, (m, l) in blocks().items(): hs.append(h_state_at('b_' + k, m, (4, 6), l))
    for k, (o, m) in chains('c21', 80 if T else 20).items(): hs.append(h_state_at('r_' + k, m, 'W', prefixes=True))
    for k, (o, m) in chains('c21div', 60 if T else 16, DIV, maxd=3).items(): hs.append(h_state_at('q_' + k, m, (4, 6)))
    return dict(tus=pack_tus('c21_', hs, 5, SEQH))

# ---------------------------------------------------------------- C20
import itertools, re
C20H = HEAD + r'''
#include <cstring>
#include <bit>
#include <utility>
using namespace noarr;
struct E0 {}; struct E1 { static constexpr vp_size v = 7; }; struct P2 { vp_size a; unsigned b; };
template<class T> static inline vp_size num(const T &t) { if constexpr (std::is_empty_v<T>) { if constexpr (requires { (vp_size)T::value; }) return T::value; else return 0; } else return (vp_size)t; }
template<class T> static inline T clone(const T &t) { alignas(alignof(T)) unsigned char b[sizeof(T)]; std::memcpy(b, &t, sizeof(T)); return *reinterpret_cast<const T *>(b); }
static_assert(std::is_trivially_copyable_v<strict_contain<vp_size, E0, unsigned>>);
'''
KIND = {'S': ('vp_size', 'NDW()', 8), 'U': ('unsigned', '(unsigned)ND(32, 32)', 4), 'C': ('unsigned char', '(unsigned char)ND(8, 8)', 1), 'H': ('unsigned short', '(unsigned short)ND(16, 16)', 2), 'E': ('E0', 'E0()', 0), 'F': ('E1', 'E1()', 0), 'L': ('lit_t<5>', 'lit<5>', 0), 'M': ('std::integral_constant<std::size_t, 9>', 'std::integral_constant<std::size_t, 9>()', 0)}
def h_contain(word):
    n = len(word); ty = [KIND[c][0] for c in word]; T = f"strict_contain<{', '.join(ty)}>"
    t = f'HARNESS(c_{word}) {{ using T = {T};\n' + ''.join(f'  {ty[k]} v{k} = {KIND[c][1]};\n' for k, c in enumerate(word))
    vs = ', '.join(f'v{k}' for k in range(n))
    t += f'  T c({vs}); const T d = clone(c); T e = c; T m = std::move(e); helpers::contain w({vs}); vp_check(std::is_same_v<decltype(w), T>, "deduced type");\n'
    for o in ('c', 'd', 'm', 'w'): t += f"  vp_check(all(true{''.join(f', num({o}.template get<{k}>()) == num(v{k})' for k in range(n))}), \"{word}: get ({o})\");\n"
    if n:
        t += f"  {{ const auto &[{', '.join(f'b{k}' for k in range(n))}] = c; vp_check(all({', '.join(f'num(b{k}) == num(v{k})' for k in range(n))}), \"{word}: structured binding\"); }}\n"
        t += f'  vp_check(std::tuple_size<T>::value == {n}, "{word}: tuple_size");\n'
    if set(word) <= set('SEFLM'): t += f'  vp_check(sizeof(T) == {8 * word.count("S") or 1}, "{word}: empty members take no storage"); vp_check(std::is_empty_v<T> == {"false" if "S" in word else "true"}, "{word}: empty"); vp_check(std::is_standard_layout_v<T>, "{word}: standard layout");\n'
    if n >= 2:
        k = n // 2
        t += f"  auto x = contain_cat(strict_contain<{', '.join(ty[:k])}>({', '.join(f'v{q}' for q in range(k))}), strict_contain<{', '.join(ty[k:])}>({', '.join(f'v{q}' for q in range(k, n))})); vp_check(std::is_same_v<decltype(x), T>, \"{word}: concatenated type\"); vp_check(all({', '.join(f'num(x.template get<{q}>()) == num(v{q})' for q in range(n))}), \"{word}: concatenation\");\n"
    return t + '}\n'
def h_carry(name, m, lens, bits):
    """the structure object carries exactly its run-time parameters; a bytewise copy answers the same"""
    nd_ = sum(len(re.findall(r'\b%s\b' % re.escape(p), m.cpp)) for p in m.params)
    out = ''
    for bi, (st, dims) in enumerate(m.branches()):
        t = f'HARNESS({name}_{bi}) {{\n' + decl(m, bits, lens) + assume(m, lens) + f'  auto S_ = {m.cpp}; auto C_ = clone(S_);\n'
        it, idx = indices(m, st, dims, 'i_', bits, lens)
        t += it + f'  auto T_ = {st_expr(idx, lens)}; auto U_ = clone(T_);\n'
        if nd_ is not None: t += f'  vp_check(sizeof(S_) == {8 * nd_ or 1}, "{name}: storage");\n'
        nst = sum(1 for d, v in idx.items() if not isinstance(v, int) and d[0] != '#') + sum(1 for v in (lens or {}).values() if not isinstance(v, int))
        t += f'  vp_check(sizeof(T_) == {8 * nst or 1}, "{name}: storage of the state");\n'
        t += f'  vp_check((C_ | noarr::offset(U_)) == {m.off(idx)}, "{name}: offset of a bytewise copy"); vp_check((C_ | noarr::get_size(U_)) == {m.size(idx)}, "{name}: size of a bytewise copy");\n'
        out += t + '}\n'
    return out
CONT = r"""
HARNESS(nested) { vp_size a = NDW(), b = NDW(); unsigned c = (unsigned)ND(32, 32); using I = strict_contain<vp_size, E0>; using J = strict_contain<E1, lit_t<3>>; flexible_contain<I, J, unsigned, strict_contain<>, strict_contain<vp_size>> t(I(a, E0()), J(), c, strict_contain<>(), strict_contain<vp_size>(b));
  auto u = clone(t); vp_check(all(u.template get<0>().template get<0>() == a, u.template get<1>().template get<1>() == 3, u.template get<2>() == c, u.template get<4>().template get<0>() == b), "nested"); vp_check(sizeof(t) == 24, "nested storage"); flexible_contain<flexible_contain<J, I>, J> w(flexible_contain<J, I>(J(), I(b, E0())), J()); vp_check(w.template get<0>().template get<1>().template get<0>() == b, "nested first empty"); vp_check(sizeof(w) == 8, "nested storage of one"); }
HARNESS(nested1) { vp_size a = NDW(); using I = strict_contain<vp_size>; flexible_contain<I> t{I(a)}; flexible_contain<I> u = t; flexible_contain<flexible_contain<I>> w{t}; vp_check(all(t.template get<0>().template get<0>() == a, u.template get<0>().template get<0>() == a, w.template get<0>().template get<0>().template get<0>() == a), "a single contain in a contain"); vp_check(sizeof(w) == 8, "its storage"); }
HARNESS(agg) { vp_size a = NDW(), c = NDW(); unsigned b = (unsigned)ND(32, 32); strict_contain<P2, vp_size, E1> t(P2{a, b}, c, E1()); auto u = clone(t); vp_check(all(u.template get<0>().a == a, u.template get<0>().b == b, u.template get<1>() == c, u.template get<2>().v == 7), "aggregate members"); P2 arr[2] = {{a, b}, {c, b}}; strict_contain<const P2 *, int *> p(arr + 1, nullptr); vp_check(vp_and(p.template get<0>()->a == c, p.template get<1>() == nullptr), "pointers"); }
HARNESS(cat) { vp_size a = NDW(), b = NDW(), c = NDW(), d = NDW(); auto x = contain_cat(strict_contain<vp_size>(a), strict_contain<E0, vp_size>(E0(), b), strict_contain<>(), strict_contain<vp_size, lit_t<4>, vp_size>(c, lit<4>, d));
  vp_check(all(x.template get<0>() == a, x.template get<2>() == b, x.template get<3>() == c, x.template get<4>() == 4, x.template get<5>() == d), "concatenation of four"); vp_check(sizeof(x) == 32, "storage of a concatenation"); auto y = contain_cat(); vp_check(std::is_empty_v<decltype(y)>, "concatenation of none"); vp_check(contain_cat(strict_contain<vp_size>(a)).template get<0>() == a, "concatenation of one"); const strict_contain<vp_size, vp_size> l(a, b); auto z = contain_cat(l, l, x); vp_check(all(z.template get<0>() == a, z.template get<1>() == b, z.template get<2>() == a, z.template get<3>() == b, z.template get<9>() == d), "concatenation of lvalues"); }
HARNESS(packs) { vp_size a = NDW(), b = NDW(); auto p = pack(scalar<int>(), vector<'x'>(a), lit<3>, vector<'y'>(b)); auto q = clone(p); vp_check((scalar<int>() ^ q.template get<1>() | get_length<'x'>()) == a, "pack"); vp_check((scalar<int>() ^ q.template get<3>() | get_length<'y'>()) == b, "pack, last"); vp_check(sizeof(p) == 16, "pack storage"); auto r = pack(pack(a), pack(b, lit<2>)); vp_check(vp_and(r.template get<0>().template get<0>() == a, r.template get<1>().template get<0>() == b), "pack of packs"); }
HARNESS(states) { vp_size a = NDW(), b = NDW(), c = NDW(); auto s = idx<'x', 'y', 'z'>(a, lit<4>, b) & make_state<length_in<'x'>>(c); auto t = clone(s); vp_check(all(get_index<'x'>(t) == a, get_index<'y'>(t) == 4, get_index<'z'>(t) == b, t.template get<length_in<'x'>>() == c), "bytewise copy of a state"); vp_check(sizeof(s) == 24, "storage of a state"); vp_check(sizeof(idx<'x'>(lit<3>)) == 1, "static state"); }
HARNESS(travs) { vp_size n = ND(2, 3), m = ND(2, 3), a = ND(2, 3); vp_assume(a <= n); auto s = scalar<int>() ^ vector<'x'>(n) ^ array<'y', 2>() ^ vector<'z'>(m); auto t = clone(traverser(s) ^ shift<'x'>(a)); vp_size c = 0, sum = 0, want = 0; t.for_each([&](auto st) { sum += (s | offset(st)) + 1; c++; }); for (vp_size z = 0; z < m; z++) for (vp_size y = 0; y < 2; y++) for (vp_size x = a; x < n; x++) want += 4 * (x + n * (y + 2 * z)) + 1;
  vp_check(vp_and(c == (n - a) * 2 * m, sum == want), "bytewise copy of a traverser"); vp_check(sizeof(t) == 24, "storage of a traverser"); }
"""
def c20(T):
    from .props import views, step_views, tuple_views, blocks, layouts, unsized_layouts, mixed
    words = []
    for n in (1, 2, 3): words += [''.join(w) for w in itertools.product('SEL' if n > 2 else 'SUEFL', repeat=n)]
    words += ['SUCH', 'CSCS', 'ESUE', 'LCEHM', 'SESES', 'EESSEE', 'LMSFU', 'USEC', 'HLLS', 'CECEC', 'SSSSS', 'ELFMSS', 'SELFMU', 'ESELSFS', 'CUSHE'] + ([''.join(w) for w in itertools.product('SUEL', repeat=4)] if T else [])
    hs = [CONT] + [h_contain(w) for w in dict.fromkeys(words)]
    A = {**layouts(), **step_views(), **tuple_views()}
    B = {**{k: (m, None) for k, m in A.items()}, **{'u' + k: v for k, v in unsized_layouts().items()}, **{'v' + k: v for k, v in views().items()}}
    cs = [h_carry('s_' + k, m, l, 'W' if k not in step_views() else (8, 16)) for k, (m, l) in B.items()] + [h_carry('b_' + k, m, l, (4, 6)) for k, (m, l) in blocks().items()]
    return dict(tus=pack_tus('c20_', hs, 10, C20H) + pack_tus('c20s_', cs, 8, C20H))
