"""C18: composing proto-structures is associative; neutral elements; shortcuts mean their expansion"""
from .gen import *
from .chains import chains, DIV
import itertools

def answers(m, st, dims, idx, a, b, lens, lab, size=True, sub=False):
    t = ''
    if size: t += f'  vp_check(({a} | noarr::get_size({st_expr({}, lens)})) == ({b} | noarr::get_size({st_expr({}, lens)})), "{lab}: size");\n'
    for k, d in enumerate(dims):
        up = st_expr({x: idx[x] for x in dims[:k]}, lens)
        t += f"  vp_check(({a} | noarr::get_length<'{d}'>({up})) == ({b} | noarr::get_length<'{d}'>({up})), \"{lab}: length {d}\");\n"
    return t + f'  vp_check(({a} | noarr::offset({st_expr(idx, lens)})) == ({b} | noarr::offset({st_expr(idx, lens)})), "{lab}: offset");\n'
def groupings(ps):
    """expressions that group the chain differently"""
    n = len(ps); N = 'noarr::neutral_proto()'
    r = {'left': '(' + ' ^ '.join(ps) + ')', 'neutral': f'{N} ^ ' + f' ^ {N} ^ '.join(ps) + f' ^ {N}', 'neutralc': f'(({N} ^ {ps[0]})' + ''.join(f' ^ ({p} ^ {N})' for p in ps[1:]) + ')'}
    if n > 2:
        e = ps[-1]
        for p in reversed(ps[:-1]): e = f'({p} ^ {e})'
        r['right'] = e
        for k in range(1, n): r[f'split{k}'] = '(' + ' ^ '.join(ps[:k]) + ') ^ (' + ' ^ '.join(ps[k:]) + ')'
    return r
def h_assoc(name, m, bits, lens=None):
    if not m.protos: return ''
    out = ''
    for bi, (st, dims) in enumerate(m.branches()):
        t = f'HARNESS({name}_{bi}) {{\n' + decl(m, bits, lens) + assume(m, lens) + f'  auto s = {m.cpp};\n'
        it, idx = indices(m, st, dims, 'i_', bits, lens); t += it
        g = groupings(m.protos)
        if len(m.protos) == 1: g.pop('left')
        for k, e in g.items(): t += f'  {{ auto q = {m.seed} ^ {e};\n' + answers(m, st, dims, idx, 'q', 's', lens, f'{name} {k}', bi == 0) + '  }\n'
        out += t + '}\n'
    return out
def h_torder(name, o, m, bits):
    """a traversal ordered by the combination of the transformations, in every grouping"""
    ps = m.protos[len(o.protos):]
    if not ps: return ''
    od = tree_dims(o.tree); g = groupings(ps)
    if len(ps) == 1: g.pop('left')
    t = f'HARNESS({name}) {{\n' + decl(m, bits) + assume(m) + f'  vp_size K = ND(6, 9); auto s = {o.cpp};\n  vp_size rc = 0, re = 0' + ''.join(f', r_{x} = 0' for x in od) + ';\n'
    vis = lambda p: f'[&](auto st) {{ bool h = {p}c == K; ' + ' '.join(f"vp_pick({p}_{x}, h, ix<'{x}'>(st));" for x in od) + f' vp_pick({p}e, h, s | noarr::offset(st)); {p}c++; }}'
    t += f"  (noarr::traverser(s) ^ {' ^ '.join(ps)}).for_each({vis('r')});\n"
    for k, e in g.items():
        t += f'  {{ vp_size qc = 0, qe = 0' + ''.join(f', q_{x} = 0' for x in od) + f"; (noarr::traverser(s) ^ {e}).for_each({vis('q')});\n  vp_check(all(qc == rc, qe == re, {', '.join([f'q_{x} == r_{x}' for x in od] + ['true'])}), \"{name} {k}\"); }}\n"
    return t + '}\n'
SH = r'''
using namespace noarr;
// both structures give the same answers at the given state of lengths (l) and indices (i)
#define EQ(a, b, l, i, label) do { auto vp_a = (a); auto vp_b = (b); auto vp_l = (l); auto vp_i = vp_l & (i); vp_check((vp_a | get_size(vp_l)) == (vp_b | get_size(vp_l)), label ": size"); vp_check((vp_a | offset(vp_i)) == (vp_b | offset(vp_i)), label ": offset"); } while (0)
#define LEN(a, b, D, st, label) vp_check(((a) | get_length<D>(st)) == ((b) | get_length<D>(st)), label ": length")
#define LN(D, n) make_state<length_in<D>>(n)
#define V2 auto o = scalar<int>() ^ vector<'x'>(n) ^ vector<'y'>(m);
#define W4 vp_size n = NDW(), m = NDW(), i = NDW(), j = NDW();
#define S4 vp_size n = ND(5, 7), m = ND(5, 7), i = ND(5, 7), j = ND(5, 7);
'''
SHORT = r"""
HARNESS(vectors) { W4 auto q = scalar<int>() ^ vector<'x'>() ^ set_length<'x'>(n) ^ vector<'y'>() ^ set_length<'y'>(m); auto e = empty_state; auto xy = idx<'x', 'y'>(i, j);
  auto a = scalar<int>() ^ vector<'x'>(n) ^ vector<'y'>(m); EQ(a, q, e, xy, "vector with a length"); LEN(a, q, 'x', e, "vector with a length"); LEN(a, q, 'y', e, "vector with a length");
  auto b = scalar<int>() ^ vectors<'x', 'y'>(n, m); EQ(b, q, e, xy, "vectors with lengths"); LEN(b, q, 'x', e, "vectors with lengths"); LEN(b, q, 'y', e, "vectors with lengths");
  auto l = LN('x', n) & LN('y', m); EQ((scalar<int>() ^ vectors<'x', 'y'>()), (scalar<int>() ^ vector<'x'>() ^ vector<'y'>()), l, xy, "vectors"); EQ((scalar<int>() ^ vectors<'x', 'y'>()), q, l.template remove<>(), xy, "vectors and lengths in the state");
  EQ((scalar<int>() ^ vectors<'y', 'x'>(m, n)), (scalar<int>() ^ vector<'y'>() ^ set_length<'y'>(m) ^ vector<'x'>() ^ set_length<'x'>(n)), e, xy, "vectors in the other order");
  EQ((scalar<int>() ^ vectors<'x'>(n) ^ vectors<'y'>(m)), q, e, xy, "vectors of one");
}
HARNESS(vectors3) { W4 vp_size p = NDW(), k = NDW(); auto q = scalar<short>() ^ vector<'x'>() ^ set_length<'x'>(n) ^ vector<'y'>() ^ set_length<'y'>(m) ^ vector<'z'>() ^ set_length<'z'>(p); auto e = empty_state; auto st = idx<'x', 'y', 'z'>(i, j, k);
  auto a = scalar<short>() ^ vectors<'x', 'y', 'z'>(n, m, p); EQ(a, q, e, st, "vectors of three"); EQ((scalar<short>() ^ vectors<'x', 'y', 'z'>() ^ set_length<'x', 'y', 'z'>(n, m, p)), q, e, st, "vectors, lengths afterwards"); EQ((scalar<short>() ^ vectors_like(q)), q, e, st, "vectors_like of three"); EQ((scalar<short>() ^ vectors_like(traverser(q))), q, e, st, "vectors_like of a traverser"); EQ((scalar<short>() ^ vectors_like<'x', 'y', 'z'>(traverser(q))), q, e, st, "vectors_like of a traverser, named"); EQ((scalar<short>() ^ vectors<'x', 'y', 'z'>() ^ lengths_like<'z', 'x', 'y'>(traverser(q))), q, e, st, "lengths_like of a traverser");
  EQ((scalar<short>() ^ vectors_like<'z', 'x'>(q)), (scalar<short>() ^ vector<'z'>(p) ^ vector<'x'>(n)), e, (idx<'x', 'z'>(i, k)), "vectors_like of some"); EQ((scalar<short>() ^ vectors_like<'x', 'y', 'z'>(q)), q, e, st, "vectors_like named");
}
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
HARNESS(sized) { W4 vp_size p = NDW(), k = NDW(); auto e = empty_state; auto st = idx<'x', 'y', 'z'>(i, j, k); auto q = scalar<short>() ^ vector<'x'>(n) ^ vector<'y'>(m) ^ vector<'z'>(p);
  auto a = scalar<short>() ^ sized_vector<'x'>(n) ^ sized_vector<'y'>(m) ^ sized_vector<'z'>(p); EQ(a, q, e, st, "sized_vector"); LEN(a, q, 'x', e, "sized_vector"); LEN(a, q, 'z', e, "sized_vector");
  auto b = scalar<short>() ^ sized_vectors<'x', 'y', 'z'>(n, m, p); EQ(b, q, e, st, "sized_vectors"); LEN(b, q, 'y', e, "sized_vectors"); LEN(b, q, 'z', e, "sized_vectors"); }
HARNESS(space_tree) { W4 auto o = scalar<short>() ^ vector<'x'>(n) ^ vector<'y'>(m) ^ vector<'z'>(i); auto h = o ^ hoist<'x'>();
  using T = sig_dim_tree<typename decltype(h)::signature>; vp_check(index_space_size<T>(h) == n * m * i, "the whole tree"); using U = dim_tree<'x', dim_tree<'z', dim_sequence<>>>; vp_check(index_space_size<U>(h) == n * i, "some dimensions");
  vp_check(index_space_size<dim_tree<'y', dim_sequence<>>>(o) == m, "one dimension"); vp_check(index_space_size<dim_sequence<>>(o) == 1, "no dimension"); }
HARNESS(arrays) { W4 auto e = empty_state; auto xy = idx<'x', 'y'>(i, j); EQ((scalar<int>() ^ array<'x', 7>() ^ vector<'y'>(m)), (scalar<int>() ^ vector<'x'>() ^ set_length<'x'>(lit<7>) ^ vector<'y'>(m)), e, xy, "array"); auto a = scalar<int>() ^ array<'x', 7>(); LEN(a, (scalar<int>() ^ vector<'x'>(lit<7>)), 'x', e, "array");
  array_t<'y', 5, array_t<'x', 3, scalar<double>>> t; EQ(t, (scalar<double>() ^ vector<'x'>(lit<3>) ^ vector<'y'>(lit<5>)), e, xy, "array_t"); EQ((scalar<int>() ^ (array<'x', 4>() ^ array<'y', 2>())), (scalar<int>() ^ vector<'x'>() ^ set_length<'x'>(lit<4>) ^ vector<'y'>() ^ set_length<'y'>(lit<2>)), e, xy, "arrays"); }
HARNESS(bcasts) { W4 auto e = empty_state; auto s = scalar<int>() ^ vector<'x'>(n); auto a = s ^ bcast<'b'>(m); auto b = s ^ bcast<'b'>() ^ set_length<'b'>(m); EQ(a, b, e, (idx<'x', 'b'>(i, j)), "bcast with a length"); LEN(a, b, 'b', e, "bcast with a length"); auto c = s ^ bcast<'b', 'c'>(m, n); auto d = s ^ bcast<'b'>() ^ set_length<'b'>(m) ^ bcast<'c'>() ^ set_length<'c'>(n); EQ(c, d, e, (idx<'x', 'b', 'c'>(i, j, i)), "bcast of two"); LEN(c, d, 'b', e, "bcast of two"); LEN(c, d, 'c', e, "bcast of two"); }
HARNESS(likes) { W4 V2 auto e = empty_state; auto xy = idx<'x', 'y'>(i, j); auto u = scalar<int>() ^ vector<'x'>() ^ vector<'y'>(); auto st = make_state<length_in<'x'>, length_in<'y'>>(n, m);
  EQ((u ^ length_like<'x'>(o) ^ length_like<'y'>(o)), o, e, xy, "length_like"); EQ((u ^ lengths_like<'x', 'y'>(o)), o, e, xy, "lengths_like"); EQ((u ^ lengths_like<'y', 'x'>(o)), o, e, xy, "lengths_like in the other order"); EQ((u ^ lengths_like<'x', 'y'>(u, st)), o, e, xy, "lengths_like with a state"); EQ((u ^ length_like<'y'>(u, st) ^ set_length<'x'>(n)), o, e, xy, "length_like with a state"); EQ((scalar<int>() ^ vector_like<'x'>(o) ^ vector_like<'y'>(o)), o, e, xy, "vector_like"); EQ((scalar<int>() ^ vector_like<'x'>(u, st) ^ vector_like<'y'>(u, st)), o, e, xy, "vector_like with a state");
  EQ((scalar<int>() ^ vectors_like<'x', 'y'>(o)), o, e, xy, "vectors_like"); EQ((scalar<int>() ^ vectors_like(o)), o, e, xy, "vectors_like of all"); EQ((scalar<int>() ^ vectors_like(u, st)), o, e, xy, "vectors_like with a state"); EQ((scalar<int>() ^ vectors_like<'x', 'y'>(u, st)), o, e, xy, "vectors_like named, with a state"); EQ((scalar<int>() ^ vectors_like<'y', 'x'>(o)), (scalar<int>() ^ vector<'y'>(m) ^ vector<'x'>(n)), e, xy, "vectors_like in the other order");
  auto h = o ^ hoist<'x'>(); EQ((scalar<int>() ^ vectors_like(h)), (scalar<int>() ^ vector<'y'>(m) ^ vector<'x'>(n)), e, xy, "vectors_like of a hoisted structure"); LEN((scalar<int>() ^ vectors_like(o)), o, 'x', e, "vectors_like"); LEN((scalar<int>() ^ vectors_like(o)), o, 'y', e, "vectors_like");
  auto r = o ^ slice<'x'>(lit<1>, j); LEN((scalar<int>() ^ vectors_like(r)), r, 'x', e, "vectors_like of a slice"); }
HARNESS(ordered_likes) { S4 V2 vp_size a = ND(5, 7), b = ND(5, 7); vp_assume(a <= n); vp_assume(b <= n - a); auto e = empty_state; auto xy = idx<'x', 'y'>(i, j); auto u = scalar<int>() ^ vector<'x'>() ^ vector<'y'>();
#define OL(ord, lx, ly, l) do { auto t = traverser(o) ^ ord; auto q = scalar<int>() ^ vector<'x'>(lx) ^ vector<'y'>(ly); EQ((u ^ lengths_like<'x', 'y'>(t)), q, e, xy, l ": lengths_like of an ordered traverser"); EQ((u ^ lengths_like<'y', 'x'>(t)), q, e, xy, l ": lengths_like of an ordered traverser"); EQ((scalar<int>() ^ vectors_like<'x', 'y'>(t)), q, e, xy, l ": vectors_like of an ordered traverser"); EQ((scalar<int>() ^ vectors_like<'x'>(t)), (scalar<int>() ^ vector<'x'>(lx)), e, idx<'x'>(i), l ": vectors_like of an ordered traverser"); vp_check(((scalar<int>() ^ vectors_like(t)) | get_length<'x'>()) == lx, l ": vectors_like of an ordered traverser, first"); vp_check(((scalar<int>() ^ vectors_like(t)) | get_length<'y'>()) == ly, l ": vectors_like of an ordered traverser, second"); } while (0)
  OL(slice<'x'>(a, b), b, m, "slice"); OL(span<'x'>(a, a + b), b, m, "span"); OL(shift<'x'>(a), n - a, m, "shift"); OL((slice<'x'>(a, b) ^ hoist<'x'>()), b, m, "slice and hoist"); OL(hoist<'y'>(), n, m, "hoist"); OL((rename<'x', 'y', 'y', 'x'>()), m, n, "rename"); OL((bcast<'b'>(a)), n, m, "bcast"); OL(reverse<'x'>(), n, m, "reverse"); OL((slice<'x'>(a, b) ^ slice<'y'>(m)), b, m, "two slices");
  { vp_size k = ND(5, 7); vp_assume(k != 0); vp_assume(a < k); auto t = traverser(o) ^ step<'y'>(a, k); auto r = o ^ step<'y'>(a, k); EQ((scalar<int>() ^ vectors_like<'x', 'y'>(t)), (scalar<int>() ^ vector<'x'>(n) ^ vector<'y'>(r | get_length<'y'>())), e, xy, "vectors_like of a stepped traverser"); EQ((u ^ lengths_like<'x', 'y'>(t)), (scalar<int>() ^ vector<'x'>(n) ^ vector<'y'>(r | get_length<'y'>())), e, xy, "lengths_like of a stepped traverser"); }
  { vp_size k = ND(5, 7); vp_assume(k != 0); auto t = traverser(o) ^ into_blocks<'x', 'X', 'q'>(k); auto st = idx<'X', 'q'>(i, j); auto q = scalar<int>() ^ vector<'X'>(n / k) ^ vector<'q'>(k); EQ((scalar<int>() ^ vectors_like<'X', 'q'>(t)), q, e, st, "vectors_like of a blocked traverser"); EQ((scalar<int>() ^ vector<'X'>() ^ vector<'q'>() ^ lengths_like<'q', 'X'>(t)), q, e, st, "lengths_like of a blocked traverser"); EQ((scalar<int>() ^ vectors_like<'y', 'q'>(t)), (scalar<int>() ^ vector<'y'>(m) ^ vector<'q'>(k)), e, (idx<'y', 'q'>(i, j)), "vectors_like of a blocked traverser"); }
  { auto t = traverser(o) ^ fix<'x'>(i); EQ((scalar<int>() ^ vectors_like(t)), (scalar<int>() ^ vector<'y'>(m)), e, idx<'y'>(j), "vectors_like of a fixed traverser"); EQ((scalar<int>() ^ vector<'y'>() ^ lengths_like<'y'>(t)), (scalar<int>() ^ vector<'y'>(m)), e, idx<'y'>(j), "lengths_like of a fixed traverser"); } }
HARNESS(settle) { W4 V2 auto e = empty_state; auto xy = idx<'x', 'y'>(i, j); auto u = scalar<int>() ^ vector<'x'>() ^ vector<'y'>();
  EQ((u ^ set_length<'x', 'y'>(n, m)), (u ^ set_length<'x'>(n) ^ set_length<'y'>(m)), e, xy, "set_length of two"); EQ((u ^ set_length(make_state<length_in<'x'>, length_in<'y'>>(n, m))), o, e, xy, "set_length of a state"); EQ((u ^ set_length(make_state<length_in<'x'>, index_in<'y'>, length_in<'y'>>(n, i, m))), o, e, xy, "set_length of a state ignores indices"); EQ((u ^ set_length<'x', 'y'>(make_state<length_in<'y'>, length_in<'x'>>(m, n))), o, e, xy, "set_length of some of a state"); EQ((u ^ set_length<'x'>(make_state<length_in<'y'>, length_in<'x'>>(m, n)) ^ set_length<'y'>(m)), o, e, xy, "set_length of one of a state"); EQ((o ^ set_length(empty_state)), o, e, xy, "set_length of an empty state"); }
HARNESS(fixes) { W4 V2 auto e = empty_state; auto xy = idx<'x', 'y'>(i, j); auto st = make_state<index_in<'x'>, length_in<'z'>, index_in<'y'>>(i, m, j); auto z = scalar<int>() ^ vector<'x'>(n) ^ vector<'y'>(m) ^ vector<'z'>(n);
  EQ((o ^ fix<'x', 'y'>(i, j)), (o ^ fix<'x'>(i) ^ fix<'y'>(j)), e, e, "fix of two"); EQ((o ^ fix<'y', 'x'>(j, i)), (o ^ fix<'x'>(i) ^ fix<'y'>(j)), e, e, "fix of two in the other order"); EQ((o ^ fix(st)), (o ^ fix<'x'>(i) ^ fix<'y'>(j)), e, e, "fix of a state"); EQ((z ^ fix(st)), (z ^ fix<'x'>(i) ^ fix<'y'>(j)), e, (idx<'z'>(n)), "fix of a state, other dimensions stay"); EQ((z ^ fix<'y'>(st)), (z ^ fix<'y'>(j)), e, (idx<'x', 'z'>(i, n)), "fix of one of a state"); EQ((z ^ fix<'y', 'x'>(st)), (z ^ fix<'y'>(j) ^ fix<'x'>(i)), e, (idx<'z'>(n)), "fix of two of a state"); EQ((o ^ fix(empty_state)), o, e, xy, "fix of an empty state"); EQ((o ^ fix(make_state<length_in<'q'>>(n))), o, e, xy, "fix ignores lengths");
  auto t = traverser(o) ^ fix<'x'>(i); EQ((o ^ fix(t.state())), (o ^ fix<'x'>(i)), e, (idx<'y'>(j)), "fix of the state of a traverser"); EQ((o ^ fix(t)), (o ^ fix<'x'>(i)), e, (idx<'y'>(j)), "fix of a traverser"); EQ((o ^ fix<'x'>(t)), (o ^ fix<'x'>(i)), e, (idx<'y'>(j)), "fix of a dimension of a traverser"); }
HARNESS(slices) { W4 V2 auto e = empty_state; auto xy = idx<'x', 'y'>(i, j); vp_size a = NDW(), b = NDW(); vp_assume(a <= n); vp_assume(b <= m); vp_assume(i < a); vp_assume(j < b);
  EQ((o ^ slice<'x'>(a)), (o ^ slice<'x'>(0, a)), e, xy, "slice from the start"); LEN((o ^ slice<'x'>(a)), (o ^ slice<'x'>(0, a)), 'x', e, "slice from the start"); EQ((o ^ span<'y'>(b)), (o ^ span<'y'>(0, b)), e, xy, "span from the start"); LEN((o ^ span<'y'>(b)), (o ^ span<'y'>(0, b)), 'y', e, "span from the start"); }
HARNESS(shifts) { W4 V2 auto e = empty_state; auto xy = idx<'x', 'y'>(i, j); vp_size a = NDW(), b = NDW(); EQ((o ^ shift<'x', 'y'>(a, b)), (o ^ shift<'x'>(a) ^ shift<'y'>(b)), e, xy, "shift of two"); LEN((o ^ shift<'x', 'y'>(a, b)), (o ^ shift<'x'>(a) ^ shift<'y'>(b)), 'x', e, "shift of two"); LEN((o ^ shift<'x', 'y'>(a, b)), (o ^ shift<'x'>(a) ^ shift<'y'>(b)), 'y', e, "shift of two");
  EQ((o ^ slice<'x'>(a, b)), (o ^ span<'x'>(a, a + b)), e, xy, "slice is a span"); LEN((o ^ slice<'x'>(a, b)), (o ^ span<'x'>(a, a + b)), 'x', e, "slice is a span"); EQ((o ^ slice<'x'>(a, b)), (o ^ shift<'x'>(a)), e, xy, "slice starts like a shift"); }
HARNESS(sym) { W4 V2 auto e = empty_state; auto xy = idx<'x', 'y'>(i, j); vp_size a = NDW(), b = NDW();
#define SY(p, q, l) do { auto A = o ^ (p); auto B = o ^ (q); EQ(A, B, e, xy, l); LEN(A, B, 'x', e, l); LEN(A, B, 'y', e, l); } while (0)
#define SYM(...) (__VA_ARGS__)
  SY(SYM(symmetric_span<'x'>(o, a)), SYM(span<'x'>(a, n - a)), "symmetric_span"); SY(SYM(symmetric_span<'x', 'y'>(o, a)), SYM(span<'x'>(a, n - a) ^ span<'y'>(a, m - a)), "symmetric_span of two"); SY(SYM(symmetric_span<'y'>(traverser(o).top_struct(), a)), SYM(span<'y'>(a, m - a)), "symmetric_span of a traverser's structure"); SY(SYM(symmetric_spans<'x', 'y'>(o, a, b)), SYM(span<'x'>(a, n - a) ^ span<'y'>(b, m - b)), "symmetric_spans"); SY(SYM(symmetric_spans<'y', 'x'>(o, a, b)), SYM(span<'x'>(b, n - b) ^ span<'y'>(a, m - a)), "symmetric_spans in the other order"); SY(SYM(symmetric_span<'x'>(scalar<int>() ^ vector<'x'>() ^ vector<'y'>(m), make_state<length_in<'x'>>(n), a)), SYM(span<'x'>(a, n - a)), "symmetric_span with a state"); SY(SYM(symmetric_spans<'x', 'y'>(scalar<int>() ^ vector<'x'>() ^ vector<'y'>(m), make_state<length_in<'x'>>(n), b, a)), SYM(span<'x'>(b, n - b) ^ span<'y'>(a, m - a)), "symmetric_spans with a state"); }
HARNESS(blocks) { S4 V2 vp_size L = ND(5, 7), k = ND(5, 7); auto e = empty_state; vp_assume(L != 0); auto st = idx<'X', 'q', 'y'>(i, k, j);
#define BL(p, q, s, l) do { auto A = o ^ (p); auto B = o ^ (q); EQ(A, B, e, s, l); LEN(A, B, 'X', e, l); LEN(A, B, 'q', e, l); } while (0)
  BL(SYM(into_blocks<'x', 'X', 'q'>(L)), SYM(into_blocks<'x', 'X', 'q'>() ^ set_length<'q'>(L)), st, "into_blocks with a length"); BL(SYM(strip_mine<'x', 'X', 'q'>(L)), SYM(into_blocks<'x', 'X', 'q'>() ^ set_length<'q'>(L) ^ hoist<'X'>()), st, "strip_mine"); BL(SYM(strip_mine<'x', 'X', 'q'>() ^ set_length<'q'>(L)), SYM(into_blocks<'x', 'X', 'q'>() ^ hoist<'X'>() ^ set_length<'q'>(L)), st, "strip_mine without a length");
  auto sp = idx<'X', 'q', 'p', 'y'>(i, k, lit<0>, j); auto si = idx<'X', 'q'>(i, k);
  BL(SYM(into_blocks_dynamic<'x', 'X', 'q', 'p'>(L)), SYM(into_blocks_dynamic<'x', 'X', 'q', 'p'>() ^ set_length<'q'>(L)), sp, "into_blocks_dynamic with a length"); BL(SYM(strip_mine_dynamic<'x', 'X', 'q', 'p'>(L)), SYM(into_blocks_dynamic<'x', 'X', 'q', 'p'>() ^ set_length<'q'>(L) ^ hoist<'X'>()), sp, "strip_mine_dynamic"); LEN((o ^ strip_mine_dynamic<'x', 'X', 'q', 'p'>(L)), (o ^ into_blocks_dynamic<'x', 'X', 'q', 'p'>() ^ set_length<'q'>(L)), 'p', si, "strip_mine_dynamic"); BL(SYM(strip_mine_dynamic<'x', 'X', 'q', 'p'>() ^ set_length<'q'>(L)), SYM(into_blocks_dynamic<'x', 'X', 'q', 'p'>() ^ set_length<'q'>(L)), sp, "strip_mine_dynamic without a length");
  auto s2 = idx<'X', 'x', 'y'>(i, k, j); EQ((o ^ into_blocks<'x', 'X'>(L)), (o ^ into_blocks<'x', 'X', 'x'>() ^ set_length<'x'>(L)), e, s2, "into_blocks, default minor"); EQ((o ^ strip_mine<'x', 'X'>(L)), (o ^ into_blocks<'x', 'X', 'x'>() ^ set_length<'x'>(L) ^ hoist<'X'>()), e, s2, "strip_mine, default minor"); }
HARNESS(merges) { S4 auto u = scalar<int>() ^ vector<'x'>() ^ vector<'y'>(m); vp_assume(n != 0); auto e = empty_state; auto a = u ^ merge_blocks<'y', 'x', 'z'>(n); auto b = u ^ set_length<'x'>(n) ^ merge_blocks<'y', 'x', 'z'>(); EQ(a, b, e, idx<'z'>(i), "merge_blocks with a length"); LEN(a, b, 'z', e, "merge_blocks with a length"); EQ((u ^ merge_blocks<'y', 'x'>(n)), (u ^ set_length<'x'>(n) ^ merge_blocks<'y', 'x', 'x'>()), e, idx<'x'>(i), "merge_blocks, default name"); }
HARNESS(states) { W4 vp_size a = NDW(), b = NDW(); auto s = make_state<index_in<'x'>, length_in<'q'>, index_in<'y'>>(i, n, j);
  auto u = update_index<'x'>(s, [&](auto v) { return v * 3 + a; }); vp_check(all(get_index<'x'>(u) == i * 3 + a, get_index<'y'>(u) == j, get_length_in<'q'>(u) == n), "update_index"); auto w = update_index<'y'>(s, [&](auto v) { return a - v; }); vp_check(all(get_index<'x'>(w) == i, get_index<'y'>(w) == a - j, get_length_in<'q'>(w) == n), "update_index of the last");
  auto nb = neighbor<'x', 'y'>(s, a, b); vp_check(all(get_index<'x'>(nb) == i + a, get_index<'y'>(nb) == j + b, get_length_in<'q'>(nb) == n), "neighbor"); auto nc = neighbor<'y'>(s, -1); vp_check(all(get_index<'x'>(nc) == i, get_index<'y'>(nc) == j - 1, get_length_in<'q'>(nc) == n), "neighbor of one"); auto nd = neighbor<'y', 'x'>(s, -2, 5); vp_check(all(get_index<'x'>(nd) == i + 5, get_index<'y'>(nd) == j - 2), "neighbor in the other order"); auto ne = neighbor<'x', 'y'>(s, (long)a, (int)(unsigned)b); vp_check(all(get_index<'x'>(ne) == i + a, get_index<'y'>(ne) == j + (vp_size)(int)(unsigned)b), "neighbor by signed values");
  auto z = fix_zeros(sig_dim_tree<typename decltype(scalar<int>() ^ vector<'x'>() ^ vector<'y'>() ^ vector<'z'>())::signature>(), s); vp_check(all(get_index<'x'>(z) == 0, get_index<'y'>(z) == 0, get_index<'z'>(z) == 0, get_length_in<'q'>(z) == n), "fix_zeros of a signature"); auto y = fix_zeros(dim_sequence<'z', 'y'>(), s); vp_check(all(get_index<'x'>(y) == i, get_index<'y'>(y) == 0, get_index<'z'>(y) == 0, get_length_in<'q'>(y) == n), "fix_zeros of dimensions"); }
HARNESS(space) { W4 V2 vp_check(index_space_size(o) == n * m, "number of indices"); vp_check(index_space_size(o ^ slice<'x'>(i, j)) == j * m, "number of indices of a slice"); vp_check(index_space_size(scalar<int>()) == 1, "number of indices of a scalar"); vp_check(index_space_size(o ^ bcast<'b'>(i)) == n * m * i, "number of indices of a broadcast"); vp_check(index_space_size(o ^ fix<'x'>(i)) == m, "number of indices of a fixed structure"); auto f = pack(scalar<int>(), scalar<float>(), scalar<char>()) ^ tuple<'t'>() ^ vector<'x'>(n); vp_check(index_space_size(f) == n * 3, "number of indices of structures of scalars"); }
HARNESS(packs) { W4 auto e = empty_state; auto a = scalar<double>() ^ vector<'x'>(n); auto b = scalar<int>() ^ vector<'y'>(m); auto q = pack(a, b) ^ tuple<'t'>(); auto xi = idx<'t', 'x'>(lit<0>, i); auto yi = idx<'t', 'y'>(lit<1>, j);
#define TU(s, r, l) do { auto vp_s = (s); auto vp_r = (r); EQ(vp_s, vp_r, e, xi, l ", first field"); EQ(vp_s, vp_r, e, yi, l ", second field"); } while (0)
  TU(q, (pack(scalar<double>() ^ vector<'x'>(n), scalar<int>() ^ vector<'y'>(m)) ^ tuple<'t'>()), "pack"); TU((scalar<int>() ^ pack(vector<'x'>(n), vector<'y'>(m)) ^ tuple<'t'>()), (pack(scalar<int>() ^ vector<'x'>(n), scalar<int>() ^ vector<'y'>(m)) ^ tuple<'t'>()), "pack of proto-structures"); TU((scalar<int>() ^ (pack(vector<'x'>(n), vector<'y'>(m)) ^ tuple<'t'>())), (pack(scalar<int>() ^ vector<'x'>(n), scalar<int>() ^ vector<'y'>(m)) ^ tuple<'t'>()), "composed pack of proto-structures");
  TU((pack(a, b) ^ (tuple<'t'>() ^ neutral_proto())), q, "neutral after tuple"); TU((pack(a, b) ^ to_each(neutral_proto()) ^ tuple<'t'>()), q, "to_each of the neutral"); }
"""
def c18(T):
    from . import props
    hs = []
    for k, m in props.layouts().items(): hs.append(h_assoc('l_' + k, m, 'W'))
    for k, (m, l) in props.unsized_layouts().items(): hs.append(h_assoc('u_' + k, m, 'W', l))
    for k, (m, l) in props.views().items(): hs.append(h_assoc('v_' + k, m, 'W', l))
    for k, m in props.step_views().items(): hs.append(h_assoc('w_' + k, m, (8, 12)))
    for k, m in props.tuple_views().items(): hs.append(h_assoc('t_' + k, m, 'W'))
    for k, (m, l) in props.blocks().items(): hs.append(h_assoc('b_' + k, m, (5, 6), l))
    for k, (o, m) in chains('c18', 60 if T else 16, views=(3, 4)).items(): hs.append(h_assoc('r_' + k, m, 'W'))
    for k, (o, m) in chains('c18div', 40 if T else 12, DIV, (2, 4), 3).items(): hs.append(h_assoc('q_' + k, m, (4, 6)))
    th = [h_torder('o_' + k, o, m, (2, 3)) for k, (o, m, kw) in props.orders().items() if k not in props.BIG or T]
    th += [h_torder('r_' + k, o, m, (2, 2)) for k, (o, m) in chains('c18t', 40 if T else 10, DIV, (2, 3), 3).items()]
    th = [h for h in th if h]
    sh = ['HARNESS' + x for x in SHORT.split('HARNESS')[1:]]
    return dict(tus=pack_tus('c18_', hs, 8) + pack_tus('c18t_', th, 5, HEAD + IXS) + pack_tus('c18s_', sh, 3, HEAD + SH))
