"""C07 (sections), C08 (ranges, iterators), C09 (planner), C10 (several structures)"""
from .gen import *
from .chains import chains, joint, DIV
from .gen import tu, pack_tus
S = scalar
def V(*dims, ty='int'):
    m = S(ty)
    for d in dims: m = m.vec(d, 'n' + d)
    return m

def first_sel(t, sel):
    if t is None: return None
    if t[1] in sel: return t[1]
    if t[0] == 'dyn': return first_sel(t[2], sel)
    return first_sel(t[2][0], sel) if len(t[2]) == 1 else None
def pull(t, sel):
    """the tree with the selected dimensions first, in their order in the tree"""
    d = first_sel(t, sel)
    if d is None: return t
    if t[1] == d: return ('dyn', d, pull(t[2], sel)) if t[0] == 'dyn' else ('stat', d, [pull(x, sel) for x in t[2]])
    if tree_isstat(t, d): return ('stat', d, [pull(tree_fix(t, d, k), sel) for k in range(stat_len(t, d))])
    return ('dyn', d, pull(tree_fix(t, d, None), sel))
def hoisted(t, dims):
    for d in reversed(dims): t = tree_hoist(t, d)
    return t

def h_sections(name, orig, m, dims, how='sections', inner=None, bits=(2, 2), kbits=(5, 7), tree=None, lens=None, call=None, secall=False, pre=None):
    """the K-th section is the K-th combination of the selected dimensions; the K-th element of the nested traversal is the K-th of the nested loops"""
    od = tree_dims(orig.tree); sel = set(dims)
    order = [p for p in m.protos[len(orig.protos):]]
    if tree is None: tree = pull(m.tree, sel) if how == 'sections' else hoisted(m.tree, dims)
    if how == 'sections' and not dims: sel = set(tree_dims(m.tree))
    args = ', '.join(f"'{d}'" for d in dims)
    t = f'HARNESS({name}) {{\n' + decl(m, bits, lens) + (pre or '') + assume(m, lens) + f'  vp_size K = {nd(kbits)};\n  auto s = {orig.cpp};\n'
    t += f"  auto t = noarr::traverser(s){''.join(' ^ ' + p for p in order)};\n"
    t += '  vp_size c = 0, oc = 0, cs = 0, ocs = 0, go = 0, eo = 0, gf = 0, n0 = 0, sb = 0, esb = 0' + ''.join(f', g_{d} = 0, e_{d} = 0, gs_{d} = 0, es_{d} = 0' for d in od) + ';\n'
    t += f'  auto section = [&](auto inner) {{ bool hs = cs == K; vp_pick(sb, hs, c); cs++; auto st0 = inner.state(); (void)st0;' + ''.join(f" vp_pick(gs_{d}, hs, ix<'{d}'>(st0));" for d in od) + '\n'
    t += '    auto visit = [&, inner](auto st) { bool h = c == K; ' + ' '.join(f"vp_pick(g_{d}, h, ix<'{d}'>(st));" for d in od) + ' vp_pick(go, h, s | noarr::offset(st)); vp_pick(gf, h, (s ^ noarr::fix(inner)) | noarr::offset(st)); c++; };\n'
    t += '    ' + (inner or 'inner.for_each(visit);') + ' };\n'
    fn = {'sections': 'for_sections', 'dims': 'for_dims'}[how]
    t += '  ' + (call or f"t.template {fn}<{args}>(section);") + '\n'
    def body(idx, ind):
        o = up_to(m, orig, idx)
        r = f'{ind}{{ bool h = oc == K;'
        for d in od: r += f" vp_pick(e_{d}, h, {ex(o[d]) if d in o else '9999'});"
        return r + f' vp_pick(eo, h, {orig.off(o)}); oc++; }}\n'
    def rec(tr, idx, ind):
        if tr is not None and tr[1] in sel:
            if tr[0] == 'stat': return ''.join(rec(x, {**idx, tr[1]: k}, ind) for k, x in enumerate(tr[2]))
            d = tr[1]; v = f'o_{d}'
            return f'{ind}for (vp_size {v} = 0; {v} < {m.lens[d]({**idx, d: v})}; ++{v}) {{\n' + rec(tr[2], {**idx, d: v}, ind + '  ') + ind + '}\n'
        o = up_to(m, orig, idx)
        r = f'{ind}{{ bool hs = ocs == K; vp_pick(esb, hs, oc); ocs++;'
        for d in od: r += f" vp_pick(es_{d}, hs, {ex(o[d]) if d in o else '9999'});"
        return r + ' }\n' + loops(m, tr, idx, body, ind)
    t += rec(tree, lenv(lens), '  ')
    t += f'  vp_check(cs == ocs, "{name}: number of sections"); vp_check(c == oc, "{name}: number of visits");\n'
    t += f"  vp_check(vp_or(K >= ocs, all({', '.join([f'gs_{d} == es_{d}' for d in od] + ['true'])})), \"{name}: state of the k-th section\");\n"
    t += f'  vp_check(vp_or(K >= ocs, sb == esb), "{name}: where the k-th section begins");\n'
    t += f"  vp_check(vp_or(K >= oc, all({', '.join([f'g_{d} == e_{d}' for d in od] + ['true'])})), \"{name}: k-th visited index\");\n"
    t += f'  vp_check(vp_or(K >= oc, all(go == eo, gf == eo)), "{name}: k-th visited element");\n'
    return t + '}\n'

def c07(T):
    v2, v3 = (lambda: V('x', 'y')), (lambda: V('x', 'y', 'z'))
    aos = lambda: tup('t', S('int').vec('x', 'nx'), S('int'), S('int').vec('y', 'ny').vec('x', 'mx')).vec('z', 'nz')
    hs = []
    def add(k, o, m, dims, how='sections', **kw): hs.append(h_sections(('s_' if how == 'sections' else 'd_') + k, o, m, dims, how, **kw))
    o = v2(); [add('v2' + ''.join(d), o, o, d) for d in (['x'], ['y'], ['x', 'y'], ['y', 'x'], [])]
    o = v2(); [add('v2' + ''.join(d), o, o, d, 'dims') for d in (['x'], ['y'], ['x', 'y'], ['y', 'x'], [])]
    o = v3(); [add('v3' + ''.join(d), o, o, d) for d in (['y'], ['x', 'z'], ['x'])]
    o = v3(); [add('v3' + ''.join(d), o, o, d, 'dims') for d in (['y'], ['x', 'z'], ['x', 'z', 'y'], ['y', 'z', 'x'], ['y', 'x'])]
    o = aos(); add('t_t', o, o, ['t']); add('t_zt', o, o, ['z', 't']); add('t_tx', o, o, ['t', 'y'], tree=('stat', 't', [('dyn', 'z', ('dyn', 'x', None)), ('dyn', 'z', None), ('dyn', 'y', ('dyn', 'z', ('dyn', 'x', None)))]))
    o = aos(); add('t_tz', o, o, ['t', 'z'], 'dims'); add('t_zt', o, o, ['z', 't'], 'dims')
    o = v2(); add('hoist', o, o.hoist('x'), ['x']); add('hoistb', o, o.hoist('x'), ['x', 'y']); add('shift', o, o.shift('x', 'a'), ['x']); add('rev', o, o.rev('y'), ['y']); add('fix', o, o.fix('y', 'a'), ['x']); add('ren', o, o.ren(x='u'), ['u'])
    o = v2(); add('hoist', o, o.hoist('x'), ['y'], 'dims'); add('shift', o, o.shift('x', 'a'), ['x'], 'dims'); add('slice', o, o.slice('y', 'a', 'n'), ['y', 'x'], 'dims'); add('step', o, o.step('x', 'a', 'k'), ['x'], 'dims'); add('span', o, o.span('x', 'a', 'b').rev('x'), ['x'], 'dims')
    o = V('x'); add('blk', o, o.blocks('x', 'X', 'q', 'L'), ['X']); add('blkq', o, o.blocks('x', 'X', 'q', 'L'), ['q']); add('blkd', o, o.blocks_dyn('x', 'X', 'q', 'p', 'L'), ['X']); add('blkd2', o, o.blocks_dyn('x', 'X', 'q', 'p', 'L'), ['X', 'q']); add('blks', o, o.blocks_static('x', 'b', 'X', 'q', 'L'), ['b']); add('blks2', o, o.blocks_static('x', 'b', 'X', 'q', 'L'), ['b', 'X'])
    o = V('x'); add('blk', o, o.blocks('x', 'X', 'q', 'L'), ['q', 'X'], 'dims'); add('blkd', o, o.blocks_dyn('x', 'X', 'q', 'p', 'L'), ['q'], 'dims'); add('blks', o, o.blocks_static('x', 'b', 'X', 'q', 'L'), ['b', 'q'], 'dims')
    o = v2(); add('merge', o, o.merge('y', 'x', 'm'), ['m'], 'dims'); add('tile', o, o.blocks('x', 'X', 'q', 2).blocks('y', 'Y', 'r', 2), ['Y', 'X'], 'dims')
    o = S('int').bcast('b', 'nb').vec('x', 'nx'); add('bc', o, o, ['b'], 'dims')
    # nested sections, ordering the inner traverser, pipe syntax
    o = v3(); N = dict(how='dims')
    hs.append(h_sections('n_yx', o, o, ['y'], 'dims', inner="inner.template for_dims<'x'>([&](auto in2) { in2.for_each(visit); });", tree=hoisted(o.tree, ['y', 'x'])))
    hs.append(h_sections('n_xz', o, o, ['x'], 'sections', inner="inner.template for_sections<'y'>([&](auto in2) { in2.template for_dims<'z'>([&](auto in3) { visit(in3.state()); }); });", tree=hoisted(o.tree, ['x', 'y', 'z'])))
    hs.append(h_sections('n_hoist', o, o, ['z'], 'dims', inner="(inner ^ noarr::hoist<'x'>()).for_each(visit);", tree=hoisted(o.tree, ['z', 'x'])))
    hs.append(h_sections('p_dims', o, o, ['x', 'z'], 'dims', call="t | noarr::for_dims<'x', 'z'>(section);", inner='inner | noarr::for_each(visit);'))
    hs.append(h_sections('p_sect', o, o, ['x', 'z'], 'sections', call="t | noarr::for_sections<'x', 'z'>(section);", inner='inner | visit;'))
    hs.append(h_sections('p_each', o, o, ['x', 'z', 'y'], 'sections', call="t | noarr::for_each([&](auto st) { section(t ^ noarr::fix(st)); });"))
    hs.append(h_sections('e_dims', o, o, ['y'], 'sections', call="t.template for_each<'y'>([&](auto st) { section(t ^ noarr::fix(st)); });"))
    hs.append(h_sections('e_pdims', o, o, ['z', 'x'], 'sections', call="t | noarr::for_each<'z', 'x'>([&](auto st) { section(t ^ noarr::fix(st)); });"))
    hs.append(h_sections('e_reord', o, o, ['y'], 'sections', call="(t ^ noarr::reorder<'y'>()).for_each([&](auto st) { section(t ^ noarr::fix(st)); });"))
    # longer loops (one long dimension at a time)
    lim = lambda **k: ''.join(f'  vp_assume({p} <= {v});\n' for p, v in k.items())
    def big(k, o, f, dims, how, bits, t, kb, **lm): hs.append(h_sections('big_' + how + '_' + k, o, f(o), dims, how, bits=bits, kbits=kb, pre=lim(**lm)))
    for how in ('sections', 'dims'):
        big('v1', V('x'), lambda o: o, ['x'], how, (6, 7), 1, (6, 7)); big('out', v2(), lambda o: o, ['y'], how, (5, 6), 1, (7, 8), nx=2); big('in', v2(), lambda o: o, ['y'], how, (5, 6), 1, (7, 8), ny=2)
        big('hin', v2(), lambda o: o, ['x'], how, (5, 6), 1, (7, 8), ny=2); big('hout', v2(), lambda o: o, ['x'], how, (5, 6), 1, (7, 8), nx=2); big('blk', V('x'), lambda o: o.blocks('x', 'X', 'q', 'L'), ['X'], how, (5, 6), 1, (5, 6)); big('shrev', V('x'), lambda o: o.shift('x', 'a').rev('x'), ['x'], how, (4, 5), 1, (4, 5))
    hs.append(r"""
HARNESS(inner_lengths) { vp_size nx = ND(4, 6), ny = ND(4, 6), nz = ND(2, 3), a = ND(2, 3), J = ND(2, 3), c = 0; vp_assume(a <= nz); vp_assume(J < nz - a);
  auto s = noarr::scalar<int>() ^ noarr::vector<'x'>(nx) ^ noarr::vector<'y'>(ny) ^ noarr::vector<'z'>(nz);
  auto t = noarr::traverser(s) ^ noarr::shift<'z'>(a);
  vp_size lx = 0, ly = 0, gz = 0, x = ND(4, 6), y = ND(4, 6), off = 0; vp_assume(x < nx); vp_assume(y < ny);
  t.template for_dims<'z'>([&](auto inner) { bool h = c == J; vp_pick(lx, h, inner.top_struct().template length<'x'>(noarr::empty_state)); vp_pick(ly, h, inner.top_struct().template length<'y'>(noarr::empty_state));
    auto f = s ^ noarr::fix(inner.state()); vp_pick(off, h, f | noarr::offset<'x', 'y'>(x, y)); vp_pick(gz, h, noarr::get_index<'z'>(inner)); c++; });
  vp_check(c == nz - a, "number of sections"); vp_check(vp_and(lx == nx, ly == ny), "lengths of the remaining dimensions"); vp_check(gz == J + a, "index of the section"); vp_check(off == (((J + a) * ny + y) * nx + x) * 4, "fixed structure of the section");
}
""")
    return dict(tus=pack_tus('c07_', hs, 5, HEAD + IXS))

SEQ = HEAD + '#include "seq.h"\n#include <noarr/structures/interop/bag.hpp>\n#include <noarr/structures/interop/traverser_iter.hpp>\n#include <noarr/structures/interop/planner_iter.hpp>\n#include <noarr/structures/extra/planner.hpp>\nusing namespace noarr;\n' + r"""
#define M3 vp_size nx = ND(2, 3), ny = ND(2, 2), nz = ND(2, 2), K = ND(6, 7); auto s = scalar<int>() ^ vector<'x'>(nx) ^ vector<'y'>(ny) ^ vector<'z'>(nz);
"""

def c08(T):
    hs = [r"""
// iterating (range-for) = section traversal
HARNESS(iter_top) { M3 Seq<'x', 'y', 'z'> a(K), b(K); vp_size n = 0;
  auto t = traverser(s);
  for (auto in : t) { n++; in.for_each([&](auto st) { a.at(st, s | offset(st)); }); }
  FOR(z, nz) FOR(y, ny) FOR(x, nx) b.put(x, y, z, ((z * ny + y) * nx + x) * 4);
  vp_check(n == nz, "number of sections"); SAME(a, b, "iteration");
}
HARNESS(iter_range) { M3 Seq<'x', 'y', 'z'> a(K), b(K); vp_size n = 0;
  auto t = traverser(s); auto r = t.range();
  vp_check(r.size() == nz, "size"); vp_check(r.empty() == (nz == 0), "empty"); vp_check(r.is_divisible() == (nz > 1), "divisible");
  vp_check(r.end() - r.begin() == (std::ptrdiff_t)nz, "distance"); vp_check((r.begin() == r.end()) == (nz == 0), "begin is end");
  for (auto in : r) { n++; in.for_each([&](auto st) { a.at(st); }); }
  FOR(z, nz) FOR(y, ny) FOR(x, nx) b.put(x, y, z);
  vp_check(n == nz, "number of sections"); SAME(a, b, "range");
}
HARNESS(range_dim) { M3 Seq<'x', 'y', 'z'> a(K), b(K), d(K); auto t = traverser(s);
  auto r = t.template range<'y'>(); vp_check(r.size() == ny, "size");
  for (auto in : r) in.for_each([&](auto st) { a.at(st); });
  t.template for_dims<'y'>([&](auto in) { in.for_each([&](auto st) { d.at(st); }); });
  FOR(y, ny) FOR(z, nz) FOR(x, nx) b.put(x, y, z);
  SAME(a, b, "range over an inner dimension"); SAME(d, b, "for_dims");
  Seq<'x', 'y', 'z'> e(K), f(K); r.for_each([&](auto st) { e.at(st); }); FOR(z, nz) FOR(y, ny) FOR(x, nx) f.put(x, y, z); SAME(e, f, "range.for_each");
}
HARNESS(iter_order) { M3 vp_size q = ND(2, 2); vp_assume(q <= nx); Seq<'x', 'y', 'z'> a(K), b(K), d(K); auto t = traverser(s) ^ shift<'x'>(q) ^ reverse<'x'>() ^ hoist<'x'>();
  vp_check(t.end() - t.begin() == (std::ptrdiff_t)(nx - q), "number of steps"); vp_check(t.range().size() == nx - q, "size");
  for (auto it = t.begin(); it != t.end(); ++it) (*it).for_each([&](auto st) { a.at(st); });
  for (auto it = t.end(); it != t.begin();) { --it; (*it).for_each([&](auto st) { d.at(st); }); }
  FOR(x, nx - q) FOR(z, nz) FOR(y, ny) b.put(nx - 1 - x, y, z);
  SAME(a, b, "forward"); Seq<'x', 'y', 'z'> e(K); FOR(x, nx - q) FOR(z, nz) FOR(y, ny) e.put(q + x, y, z); SAME(d, e, "backward");
}
""", r"""
// random access, iterator arithmetic: all 64-bit values
#define RA vp_size nx = NDW(), ny = NDW(), x = NDW(); vp_size I = NDW(), J = NDW(); auto s = scalar<char>() ^ vector<'x'>(nx) ^ vector<'y'>(ny); auto t = traverser(s); auto r = t.range();
#define Y(tr) ((vp_size)(tr).state().template get<index_in<'y'>>())
HARNESS(random) { RA vp_assume(ny <= ~(vp_size)0 >> 1); vp_assume(I < ny); vp_assume(J < ny); std::ptrdiff_t i = I, j = J;
  auto b = t.begin();
  vp_check(Y(r[I]) == I, "range index"); vp_check(Y(b[i]) == I, "iterator index"); vp_check(Y(*(b + i)) == I, "iterator plus"); vp_check(Y(*(i + b)) == I, "plus iterator"); vp_check(Y(*(b + i - j)) == I - J, "plus minus"); vp_check(Y(*((b + i) + (j - i))) == J, "negative offset"); vp_check(Y((b + i)[j - i]) == J, "relative index");
  auto c = b; c += i; vp_check(Y(*c) == I, "+="); c -= i; vp_check(c == b, "-="); c += j; auto d = c++; vp_check(all(Y(*d) == J, Y(*c) == J + 1), "post ++"); d = c--; vp_check(all(Y(*d) == J + 1, Y(*c) == J), "post --");
  auto &e = ++c; vp_check(all(&e == &c, Y(*c) == J + 1), "pre ++"); auto &f = --c; vp_check(all(&f == &c, Y(*c) == J), "pre --");
  auto bi = b + i, bj = b + j;
  vp_check(bi - bj == i - j, "difference"); vp_check((bi == bj) == (I == J), "=="); vp_check((bi != bj) == (I != J), "!="); vp_check((bi < bj) == (I < J), "<"); vp_check((bi <= bj) == (I <= J), "<="); vp_check((bi > bj) == (I > J), ">"); vp_check((bi >= bj) == (I >= J), ">=");
  vp_check(bj + (bi - bj) == bi, "b + (a - b) is a"); vp_check(t.end() - b == (std::ptrdiff_t)ny, "end - begin"); vp_check(r.cend() - r.cbegin() == (std::ptrdiff_t)ny, "cend - cbegin"); vp_check(r.cbegin() == b, "cbegin");
  vp_check((s ^ fix(r[I].state()) | offset<'x'>(x)) == I * nx + x, "structure fixed by a section");
  vp_check((*bi).top_struct().template length<'x'>(empty_state) == nx, "length in a section");
}
// sub-ranges
HARNESS(subrange) { RA vp_assume(I <= J); vp_assume(J <= ny);
  r.begin_idx = I; r.end_idx = J;
  vp_check(r.size() == J - I, "size of a sub-range"); vp_check(r.empty() == (I == J), "empty sub-range"); vp_check(r.is_divisible() == (J - I > 1), "divisible sub-range");
  vp_size k = NDW(); vp_assume(k < J - I); vp_check(Y(r[k]) == I + k, "index in a sub-range"); vp_check(Y(r.begin()[(std::ptrdiff_t)k]) == I + k, "iterator of a sub-range"); vp_check(r.end() - r.begin() == (std::ptrdiff_t)(J - I), "distance in a sub-range");
  auto u = r.as_traverser(); vp_check(u.top_struct().template length<'y'>(empty_state) == J - I, "length of the sub-range's traverser"); vp_check(Y(u ^ fix<'y'>(k)) == I + k, "index in the sub-range's traverser");
  auto w = r.order(reverse<'y'>()); vp_check(w.top_struct().template length<'y'>(empty_state) == J - I, "length after ordering"); vp_check(Y(w ^ fix<'y'>(k)) == J - 1 - k, "index after ordering");
  vp_check(Y(*(r.cbegin() + (std::ptrdiff_t)k)) == I + k, "cbegin of a sub-range");
}
HARNESS(subrange_visits) { vp_size nx = ND(2, 2), ny = ND(3, 3), K = ND(6, 6), I = ND(3, 3), J = ND(3, 3); auto s = scalar<int>() ^ vector<'x'>(nx) ^ vector<'y'>(ny); vp_assume(I <= J); vp_assume(J <= ny);
  auto r = traverser(s).range(); r.begin_idx = I; r.end_idx = J; Seq<'x', 'y'> a(K), b(K), c(K), d(K);
  r.for_each([&](auto st) { a.at(st); }); for (auto in : r) in.for_each([&](auto st) { b.at(st); }); FOR(k, r.size()) r[k].for_each([&](auto st) { d.at(st); });
  for (vp_size y = I; y < J; y++) FOR(x, nx) c.put(x, y);
  SAME(a, c, "for_each of a sub-range"); SAME(b, c, "iteration of a sub-range"); SAME(d, c, "indexing of a sub-range");
}
""", r"""
// ranges on ordered traversers, with blocks, several structures
HARNESS(blocks_range) { vp_size n = ND(3, 4), L = ND(2, 3), K = ND(4, 5); vp_assume(L != 0); auto s = scalar<int>() ^ vector<'x'>(n); Seq<'x'> a(K), b(K);
  auto t = traverser(s) ^ into_blocks_dynamic<'x', 'X', 'q', 'p'>(L); vp_check(t.range().size() == (n + L - 1) / L, "number of blocks");
  for (auto in : t) in.for_each([&](auto st) { a.at(st); });
  FOR(x, n) b.put(x); SAME(a, b, "blocks");
}
HARNESS(union_range) { vp_size n = ND(2, 2), m = ND(2, 2), k = ND(2, 2), K = ND(6, 6); auto p = scalar<int>() ^ vector<'x'>(n) ^ vector<'y'>(m); auto q = scalar<char>() ^ vector<'x'>(n) ^ vector<'z'>(k); Seq<'x', 'y', 'z'> a(K), b(K);
  auto t = traverser(p, q); for (auto in : t) in.for_each([&](auto st) { a.at(st, p | offset(st), q | offset(st)); });
  FOR(z, k) FOR(y, m) FOR(x, n) b.put(x, y, z, (y * n + x) * 4, z * n + x); SAME(a, b, "union");
}
HARNESS(nested_ranges) { M3 Seq<'x', 'y', 'z'> a(K), b(K); for (auto i : traverser(s)) for (auto j : i) for (auto k : j) a.at(k.state()); FOR(z, nz) FOR(y, ny) FOR(x, nx) b.put(x, y, z); SAME(a, b, "nested ranges"); }
HARNESS(nested_dims) { M3 Seq<'x', 'y', 'z'> a(K), b(K); for (auto i : traverser(s).template range<'x'>()) for (auto j : i.template range<'y'>()) for (auto k : j.range()) a.at(k.state()); FOR(x, nx) FOR(y, ny) FOR(z, nz) b.put(x, y, z); SAME(a, b, "nested ranges over chosen dimensions"); }
"""]
    split = r"""
#include <noarr/structures/interop/tbb.hpp>
#define Y(tr) ((vp_size)(tr).state().template get<index_in<'y'>>())
HARNESS(split_any) { vp_size nx = NDW(), ny = NDW(), B = NDW(), E = NDW(), k = NDW(); vp_assume(B <= E); vp_assume(E <= ny); vp_assume(E - B > 1);
  auto s = scalar<char>() ^ vector<'x'>(nx) ^ vector<'y'>(ny); auto r = traverser(s).range(); r.begin_idx = B; r.end_idx = E;
  vp_check(r.is_divisible(), "divisible"); auto q = r; decltype(r) u(r, tbb::split{});
  vp_check(r.begin_idx == B, "first part begins at the beginning"); vp_check(r.end_idx == u.begin_idx, "no gap or overlap"); vp_check(u.end_idx == E, "second part ends at the end"); vp_check(vp_and(!r.empty(), !u.empty()), "both parts are non-empty");
  vp_check(r.size() + u.size() == q.size(), "sizes add up"); vp_assume(k < q.size());
  if (k < r.size()) vp_check(Y(r[k]) == Y(q[k]), "first part"); else vp_check(Y(u[k - r.size()]) == Y(q[k]), "second part");
}
HARNESS(split_visits) { vp_size nx = ND(2, 2), ny = ND(3, 3), K = ND(6, 6); auto s = scalar<int>() ^ vector<'x'>(nx) ^ vector<'y'>(ny); Seq<'x', 'y'> a(K), b(K); auto t = traverser(s) ^ reverse<'y'>(); vp_assume(ny > 3);
  auto r = t.range(); decltype(r) u(r, tbb::split{}); decltype(r) v(u, tbb::split{});
  auto f = [&](auto st) { a.at(st); }; r.for_each(f); u.for_each(f); v.for_each(f);
  FOR(y, ny) FOR(x, nx) b.put(x, ny - 1 - y); SAME(a, b, "parts in order");
}
HARNESS(split_dim) { vp_size nx = NDW(), ny = NDW(), k = NDW(); auto s = scalar<char>() ^ vector<'x'>(nx) ^ vector<'y'>(ny); auto r = traverser(s).template range<'x'>(); vp_assume(nx > 1);
  decltype(r) u(r, tbb::split{}); vp_check(r.size() + u.size() == nx, "sizes add up"); vp_assume(k < u.size()); vp_check((vp_size)u[k].state().template get<index_in<'x'>>() == r.size() + k, "second part starts where the first ends");
}
"""
    return dict(tus=[tu(f'c08_{i}', h, SEQ) for i, h in enumerate(hs)] + [tu('c08_split', split, SEQ, stubs=['stubs'])])

# ---------------------------------------------------------------- C09
PL = SEQ + IXS + '''static char vp_buf[64];\n#define AT(e) ((vp_size)((const char *)&(e) - vp_buf))\n'''
def prefix_dims(t, dims):
    """dimensions from the outermost down to the last selected one (single chain of the signature)"""
    pre, want = [], set(dims)
    while t is not None and want - set(pre):
        pre.append(t[1]); t = t[2] if t[0] == 'dyn' else t[2][0]
    return pre
def protos(o, m): return [p for p in m.protos[len(o.protos):]]
def pl(o, m, before='', after=''):
    return 'auto bg = make_bag(s, (void *)vp_buf); auto p = planner(bg)' + before + ''.join(f' ^ {p}' for p in protos(o, m)) + after + ';'

def c09(T):
    from .props import orders, BIG
    hs = []
    for k, (o, m, kw) in orders().items():
        kw = {a: b for a, b in kw.items() if a != 'skip'}; big = (2, 2) if k in BIG else (2, 3)
        hs.append(h_each('p_' + k, o, m, big, (6, 10), call=pl(o, m, before=' ^ for_each(visit)') + ' p.execute();', **kw))
    for k, (o, m) in chains('c09', 60 if T else 16, DIV, (1, 3), 3).items(): hs.append(h_each('r_' + k, o, m, (2, 2), (6, 8), call=pl(o, m, before=' ^ for_each(visit)') + ' p.execute();'))
    def sec(k, o, m, dims, **kw):
        ds = ', '.join(f"'{d}'" for d in dims)
        kw.setdefault('call', f'auto bg = make_bag(s, (void *)vp_buf); (planner(bg).template for_sections<{ds}>(section)' + ''.join(f'.order({p})' for p in protos(o, m)) + ').execute();')
        kw.setdefault('tree', m.tree)
        hs.append(h_sections('ps_' + k, o, m, prefix_dims(kw['tree'], dims), inner='(inner ^ noarr::for_each(visit)) | planner_execute();', **kw))
    o = V('x', 'y', 'z')
    sec('z', o, o, ['z']); sec('y', o, o, ['y']); sec('x', o, o, ['x']); sec('xz', o, o, ['x', 'z']); sec('zy', o, o, ['z', 'y']); sec('none', o, o, ['z', 'y', 'x'])
    sec('hx', o, o.hoist('x'), ['x']); sec('hyx', o, o.hoist('y', 'x'), ['x', 'y']); sec('re', o, o.reorder('x', 'z', 'y'), ['x', 'z'])
    o = V('x', 'y'); sec('sh', o, o.shift('y', 'a').rev('y'), ['y']); sec('sl', o, o.slice('x', 'a', 'n').hoist('x'), ['x'])
    o = V('x', 'y', 'z')
    sec('dims', o, o.hoist('y', 'x'), ['y', 'x'], call="auto bg = make_bag(s, (void *)vp_buf); planner(bg) ^ noarr::for_dims<'y', 'x'>(section) | planner_execute();")
    sec('dims1', o, o.hoist('x'), ['x'], call="auto bg = make_bag(s, (void *)vp_buf); (planner(bg) ^ noarr::for_dims<'x'>(section))();")
    sec('psect', o, o.hoist('y'), ['y'], call="auto bg = make_bag(s, (void *)vp_buf); planner(bg) ^ noarr::for_sections<'y'>(section) ^ noarr::hoist<'y'>() | planner_execute();")
    o = tup('t', S('int').vec('x', 'nx'), S('int'), S('int').vec('y', 'ny').vec('x', 'mx')).vec('z', 'nz'); sec('tz', o, o, ['z'])
    lim = lambda **k: ''.join(f'  vp_assume({p} <= {v});\n' for p, v in k.items())
    def big(k, o, f, bits, kb, **lm): m = f(o); hs.append(h_each('big_' + k, o, m, bits, kb, pre=lim(**lm), call=pl(o, m, before=' ^ for_each(visit)') + ' p.execute();'))
    big('v1', V('x'), lambda o: o, (6, 8), (6, 8)); big('in', V('x', 'y'), lambda o: o, (5, 6), (7, 8), ny=2); big('out', V('x', 'y'), lambda o: o.hoist('x'), (5, 6), (7, 8), ny=2); big('blk', V('x'), lambda o: o.blocks('x', 'X', 'q', 'L').hoist('q'), (5, 6), (5, 6)); big('shrev', V('x'), lambda o: o.shift('x', 'a').rev('x'), (4, 5), (4, 5))
    # after into_blocks, a section over the original dimension opens when both new ones are fixed
    man = r"""
// per-section callbacks around the elements: every callback once per section, in nesting order
HARNESS(endings) { M3 vp_size cz = 0, cy = 0, cx = 0, bad = 0; Seq<'x', 'y', 'z'> a(K), b(K), sa(K), sb(K); auto bg = make_bag(s, (void *)vp_buf);
  auto p = planner(bg).for_each_elem([&](auto st, auto &e) { cx++; a.at(st, AT(e)); }).template for_sections<'y', 'z'>([&](auto in) { cy++; vp_size x0 = cx; sa.at(in.state(), 1, x0); in(); bad |= cx - x0 != nx; }).template for_sections<'z'>([&](auto in) { cz++; vp_size y0 = cy; sa.at(in.state(), 2, y0); in(); bad |= cy - y0 != ny; });
  p.execute();
  vp_size n1 = 0, n2 = 0; FOR(z, nz) { sb.put(9999, 9999, z, 2, n1); FOR(y, ny) { sb.put(9999, y, z, 1, n2); n1++; FOR(x, nx) { b.put(x, y, z, ((z * ny + y) * nx + x) * 4); n2++; } } }
  vp_check(all(cz == nz, cy == nz * ny, cx == nz * ny * nx), "number of calls"); vp_check(bad == 0, "elements within each section"); SAME(a, b, "elements"); SAME(sa, sb, "sections");
}
// the same endings, registered in the other order and with a different traversal order
HARNESS(endings_reordered) { M3 vp_size cz = 0, cx = 0, el = 0; Seq<'x', 'y', 'z'> a(K), b(K), sa(K), sb(K); auto bg = make_bag(s, (void *)vp_buf);
  auto p = (planner(bg) ^ for_each([&](auto st) { el++; a.at(st); }) ^ for_sections<'z'>([&](auto in) { sa.at(in.state(), 2, cx); cz++; in(); }) ^ for_sections<'x'>([&](auto in) { sa.at(in.state(), 1, cz); cx++; in(); })) ^ reorder<'x', 'z', 'y'>();
  p | planner_execute();
  vp_size n1 = 0, n2 = 0; FOR(x, nx) { sb.put(x, 9999, 9999, 1, n2); n1++; FOR(z, nz) { sb.put(x, 9999, z, 2, n1); n2++; FOR(y, ny) b.put(x, y, z); } }
  vp_check(all(cz == nx * nz, cx == nx, el == nx * nz * ny), "number of calls"); SAME(a, b, "elements"); SAME(sa, sb, "sections");
}
// a section callback may skip or repeat its section
HARNESS(skip_repeat) { M3 vp_assume(nx != 0); vp_size L = ND(2, 2); Seq<'x', 'y', 'z'> a(K), b(K); auto bg = make_bag(s, (void *)vp_buf);
  planner(bg).for_each([&](auto st) { a.at(st); }).template for_sections<'z'>([&](auto in) { vp_size z = get_index<'z'>(in); FOR(k, z == L ? 0 : 1) in(); if (z == 0) (in ^ shift<'x'>(1))(); }).execute();
  FOR(z, nz) { if (z != L) FOR(y, ny) FOR(x, nx) b.put(x, y, z); if (z == 0) FOR(y, ny) for (vp_size x = 1; x < nx; x++) b.put(x, y, z); }
  SAME(a, b, "elements");
}
// several bags: elements handed over belong to the state
HARNESS(elems) { vp_size n = ND(2, 2), m = ND(2, 2), k = ND(2, 2), K = ND(6, 6); auto b1 = make_bag(scalar<int>() ^ vector<'x'>(n) ^ vector<'y'>(m), (void *)vp_buf); auto b2 = make_bag(scalar<short>() ^ vector<'z'>(k) ^ vector<'y'>(m), (void *)vp_buf); auto b3 = make_bag(scalar<double>() ^ vector<'z'>(k) ^ vector<'x'>(n), (const void *)vp_buf);
  Seq<'x', 'y', 'z'> a(K), b(K), d(K), e(K);
  planner(b1, b2, b3).for_each_elem([&](auto st, int &p, short &q, const double &r) { a.at(st, AT(p), AT(q), AT(r)); }).execute();
  (planner(b1, b2, b3) ^ for_each_elem([&](int &p, short &q, const double &r) { d.at(empty_state, AT(p), AT(q), AT(r)); }) ^ reorder<'x', 'y', 'z'>())();
  FOR(z, k) FOR(y, m) FOR(x, n) b.put(x, y, z, (y * n + x) * 4, (y * k + z) * 2, (x * k + z) * 8);
  FOR(x, n) FOR(y, m) FOR(z, k) e.put(9999, 9999, 9999, (y * n + x) * 4, (y * k + z) * 2, (x * k + z) * 8);
  SAME(a, b, "elements with state"); SAME(d, e, "elements, reordered");
}
HARNESS(elems_sections) { vp_size n = ND(2, 2), m = ND(2, 2), k = ND(2, 2), K = ND(6, 6); auto b1 = make_bag(scalar<int>() ^ vector<'x'>(n) ^ vector<'y'>(m), (void *)vp_buf); auto b2 = make_bag(scalar<short>() ^ vector<'z'>(k) ^ vector<'y'>(m), (void *)vp_buf);
  Seq<'x', 'y', 'z'> a(K), b(K); vp_size c = 0;
  planner(b1, b2) ^ for_dims<'x', 'z'>([&](auto in) { c++; in ^ for_each_elem([&](auto st, int &p, short &q) { a.at(st, AT(p), AT(q), c); }) | planner_execute(); }) | planner_execute();
  vp_size d = 0; FOR(x, n) FOR(z, k) { d++; FOR(y, m) b.put(x, y, z, (y * n + x) * 4, (y * k + z) * 2, d); }
  vp_check(c == n * k, "number of sections"); SAME(a, b, "elements in sections");
}
// the planner and the traverser over the same structures
HARNESS(as_traverser) { vp_size n = ND(2, 2), m = ND(2, 2), k = ND(2, 2), L = ND(2, 2), K = ND(6, 6); vp_assume(L != 0); auto b1 = make_bag(scalar<int>() ^ vector<'x'>(n) ^ vector<'y'>(m), (void *)vp_buf); auto b2 = make_bag(scalar<short>() ^ vector<'z'>(k) ^ vector<'y'>(m), (void *)vp_buf);
  Seq<'x', 'y', 'z'> a(K), b(K); auto ord = into_blocks_dynamic<'x', 'X', 'x', 'p'>(L) ^ hoist<'z'>() ^ reverse<'y'>();
  auto p = planner(b1, b2) ^ ord ^ for_each([&](auto st) { a.at(st); }); p();
  (traverser(b1, b2) ^ ord).for_each([&](auto st) { b.at(st); });
  SAME(a, b, "planner and traverser");
}
// ranges and iterators
HARNESS(ranges) { M3 Seq<'x', 'y', 'z'> a(K), b(K), d(K), e(K), f(K), g(K); auto bg = make_bag(s, (void *)vp_buf);
  auto go = [&](Seq<'x', 'y', 'z'> &q) { return [&](auto st) { q.at(st); }; };
  auto p = planner(bg); for (auto it = begin(p); it != end(p); ++it) (*it).for_each(go(a))();
  vp_size c = 0; for (auto in : range(p)) { c++; in.for_each(go(b))(); }
  auto r = range<'y'>(p); FOR(i, r.size()) r[i].for_each(go(d))();
  auto w = planner(bg).for_each(go(f)); for (auto in : range(w)) in();
  r.for_each(go(g)).execute();
  FOR(z, nz) FOR(y, ny) FOR(x, nx) e.put(x, y, z);
  vp_check(c == nz, "number of sections"); vp_check(r.size() == ny, "size"); SAME(a, e, "begin to end"); SAME(b, e, "range"); SAME(f, e, "range of a planner with an action"); SAME(g, e, "range.for_each");
  Seq<'x', 'y', 'z'> h(K); FOR(y, ny) FOR(z, nz) FOR(x, nx) h.put(x, y, z); SAME(d, h, "range over an inner dimension");
}
"""
    man2 = r"""
#define RA vp_size nx = NDW(), ny = NDW(); vp_size I = NDW(), J = NDW(); vp_assume(ny <= ~(vp_size)0 >> 1); auto s = scalar<char>() ^ vector<'x'>(nx) ^ vector<'y'>(ny); auto bg = make_bag(s, (void *)vp_buf); auto p = planner(bg).for_each([](auto) {}); auto r = range(p);
#define Y(tr) ((vp_size)(tr).state().template get<index_in<'y'>>())
HARNESS(random) { RA vp_assume(I < ny); vp_assume(J < ny); std::ptrdiff_t i = I, j = J; auto b = begin(p);
  vp_check(Y(r[I]) == I, "range index"); vp_check(Y(b[i]) == I, "iterator index"); vp_check(Y(*(b + i)) == I, "plus"); vp_check(Y(*(i + b)) == I, "plus iterator"); vp_check(Y(*(b + i - j)) == I - J, "plus minus"); vp_check(Y((b + i)[j - i]) == J, "relative index");
  auto c = b; c += i; vp_check(Y(*c) == I, "+="); c -= i; vp_check(c == b, "-="); c += j; auto d = c++; vp_check(all(Y(*d) == J, Y(*c) == J + 1), "post ++"); d = c--; vp_check(all(Y(*d) == J + 1, Y(*c) == J), "post --");
  auto &e = ++c; vp_check(all(&e == &c, Y(*c) == J + 1), "pre ++"); auto &f = --c; vp_check(all(&f == &c, Y(*c) == J), "pre --");
  auto bi = b + i, bj = b + j; vp_check(bi - bj == i - j, "difference"); vp_check((bi == bj) == (I == J), "=="); vp_check((bi < bj) == (I < J), "<"); vp_check((bi >= bj) == (I >= J), ">=");
  vp_check(end(p) - b == (std::ptrdiff_t)ny, "end - begin"); vp_check(r.size() == ny, "size"); vp_check(r.cbegin() == b, "cbegin"); vp_check(r.cend() == end(p), "cend"); vp_check(r.empty() == (ny == 0), "empty"); vp_check(r.is_divisible() == (ny > 1), "divisible");
  vp_check((*bi).top_struct().template length<'x'>(empty_state) == nx, "length in a section");
}
HARNESS(subrange) { RA vp_assume(I <= J); vp_assume(J <= ny); r.begin_idx = I; r.end_idx = J; vp_size k = NDW(); vp_assume(k < J - I);
  vp_check(r.size() == J - I, "size"); vp_check(Y(r[k]) == I + k, "index"); vp_check(Y(r.begin()[(std::ptrdiff_t)k]) == I + k, "iterator"); vp_check(r.end() - r.begin() == (std::ptrdiff_t)(J - I), "distance");
  auto u = r.as_planner(); vp_check(u.top_struct().template length<'y'>(empty_state) == J - I, "length of the sub-range's planner"); vp_check(Y(u ^ fix<'y'>(k)) == I + k, "index in the sub-range's planner");
  auto w = r.order(reverse<'y'>()); vp_check(w.top_struct().template length<'y'>(empty_state) == J - I, "length after ordering"); vp_check(Y(w ^ fix<'y'>(k)) == J - 1 - k, "index after ordering");
}
HARNESS(subrange_visits) { vp_size nx = ND(2, 2), ny = ND(3, 3), K = ND(6, 6), I = ND(3, 3), J = ND(3, 3); auto s = scalar<int>() ^ vector<'x'>(nx) ^ vector<'y'>(ny); vp_assume(I <= J); vp_assume(J <= ny); auto bg = make_bag(s, (void *)vp_buf);
  auto r = range(planner(bg)); r.begin_idx = I; r.end_idx = J; Seq<'x', 'y'> a(K), b(K), c(K), d(K), e(K);
  r.for_each([&](auto st) { a.at(st); })(); for (auto in : r) (in ^ for_each([&](auto st) { b.at(st); }))(); r.order(reverse<'y'>()).for_each([&](auto st) { d.at(st); })();
  for (vp_size y = I; y < J; y++) FOR(x, nx) c.put(x, y); FOR(y, J - I) FOR(x, nx) e.put(x, J - 1 - y);
  SAME(a, c, "for_each of a sub-range"); SAME(b, c, "iteration of a sub-range"); SAME(d, e, "ordered sub-range");
}
"""
    return dict(tus=pack_tus('c09_', hs, 5, PL) + [tu('c09_m', man, PL), tu('c09_r', man2, PL)])

# ---------------------------------------------------------------- C10
def union(*ms):
    """the joint index space of several structures"""
    u = St(); t = ms[0].tree
    have = set(tree_dims(ms[0].tree))
    for x in ms[1:]:
        for d in reversed(tree_dims(x.tree)):
            if d not in have: t = ('dyn', d, t); have.add(d)
    u.tree = t; u.parts = ms
    for x in reversed(ms):
        u.lens.update(x.lens); u.params = {**x.params, **u.params}; u.pre += x.pre
    u.off = u.size = lambda i: '0'; u.elem = lambda i: ('char', 1); u.base = u
    return u
def h_multi(name, u, m, bits=(2, 2), kbits=(6, 8), call=None, wrap='{}', pre=None, tree=None):
    od = tree_dims(u.tree); n = len(u.parts)
    t = f'HARNESS({name}) {{\n' + decl(m, bits) + (pre or '') + assume(m) + f'  vp_size K = {nd(kbits)};\n'
    for k, x in enumerate(u.parts): t += f'  auto s{k} = {x.cpp};\n'
    t += '  auto t = noarr::traverser(' + ', '.join(wrap.format(f's{k}') for k in range(n)) + ')' + ''.join(' ^ ' + p for p in m.protos) + ';\n'
    t += '  vp_size c = 0, oc = 0' + ''.join(f', go{k} = 0, eo{k} = 0' for k in range(n)) + ''.join(f', g_{d} = 0, e_{d} = 0' for d in od) + ';\n'
    t += '  auto visit = [&](auto st) { bool h = c == K; ' + ' '.join(f"vp_pick(g_{d}, h, ix<'{d}'>(st));" for d in od) + ' '.join(f'vp_pick(go{k}, h, s{k} | noarr::offset(st));' for k in range(n)) + ' c++; };\n'
    t += '  ' + (call or 't.for_each(visit);') + '\n'
    def body(idx, ind):
        o = up_to(m, u, idx)
        r = f'{ind}{{ bool h = oc == K;' + ''.join(f" vp_pick(e_{d}, h, {ex(o[d]) if d in o else '9999'});" for d in od)
        return r + ''.join(f' vp_pick(eo{k}, h, {x.off(o)});' for k, x in enumerate(u.parts)) + ' oc++; }\n'
    t += loops(m, tree if tree is not None else m.tree, {}, body)
    t += f'  vp_check(c == oc, "{name}: number of visits");\n'
    t += f"  vp_check(vp_or(K >= oc, all({', '.join([f'g_{d} == e_{d}' for d in od] + ['true'])})), \"{name}: k-th visited index\");\n"
    t += f"  vp_check(vp_or(K >= oc, all({', '.join(f'go{k} == eo{k}' for k in range(n))})), \"{name}: k-th visited elements\");\n"
    return t + '}\n'

def c10(T):
    A, B, C = (lambda: V('x', 'y')), (lambda: V('z', 'y', ty='short')), (lambda: V('z', 'x', ty='double'))
    hs = []
    def add(k, parts, f=lambda u: u, **kw):
        u = union(*parts); hs.append(h_multi('u_' + k, u, f(u), **kw))
    add('mm', [A(), B(), C()]); add('same', [A(), A()]); add('swap', [A(), V('y', 'x')]); add('disj', [V('x'), V('y', ty='char')]); add('disj3', [V('x'), V('y', ty='char'), V('z', ty='double')]); add('sub', [A(), V('x')]); add('sup', [V('x'), A()]); add('rev', [C(), B(), A()]); add('scalar', [S('int'), A()]); add('scalar2', [A(), S('int')])
    add('one', [A()]); add('four', [V('x'), V('y', 'x'), V('z', 'y'), V('x', 'z')]); add('wide', [V('x'), V('y', 'z', 'x')]); add('wide2', [V('y'), V('y', 'z', 'x')])
    add('arr', [S('int').arr('x', 2).vec('y', 'ny'), S('short').vec('z', 'nz').arr('x', 2)]); add('bc', [A(), S('int').bcast('z', 'nz').vec('x', 'nx')])
    add('tup', [tup('t', S('int').vec('x', 'nx'), S('int')).vec('z', 'nz'), V('y', 'z')]); add('tup1', [tup('t', S('int').vec('x', 'nx'), S('int')), V('y')])
    add('view', [A().shift('x', 'a'), V('x', 'z').slice('x', 'a', 'b')], pre='  vp_assume(a <= nx); vp_assume(b == nx - a);\n'); add('viewrev', [A().rev('x'), V('z', 'x').rev('z')]); add('fixed', [V('x', 'y', 'z').fix('y', 'a'), V('x', 'y')]); add('ren', [A(), V('u', 'y').ren(u='z')])
    add('blk', [V('x').blocks('x', 'X', 'q', 2), V('q', 'X')], pre='  vp_assume(nq == 2); vp_assume(nX == nx / 2);\n')
    add('hidren', [V('x', 'y').ren(x='u'), V('x', 'y')]); add('hidblk', [V('x').blocks('x', 'X', 'q', 2), V('x', 'q')], pre='  vp_assume(nq == 2);\n'); add('hidmerge', [V('x', 'y').merge('y', 'x', 'm'), V('x')]); add('hidjoin', [V('x', 'y').join('x', 'y', 'd'), V('x')])
    for k, (parts, f) in joint('c10', 60 if T else 16).items(): add('r' + k, parts, f)
    # ordering the joint traversal
    add('hoist', [A(), B(), C()], lambda u: u.hoist('x')); add('reorder', [A(), B(), C()], lambda u: u.reorder('y', 'x', 'z')); add('slice', [A(), B()], lambda u: u.slice('y', 'a', 'n')); add('shift', [A(), B()], lambda u: u.shift('z', 'a').hoist('y')); add('fix', [A(), B(), C()], lambda u: u.fix('y', 'a')); add('fix2', [A(), B(), C()], lambda u: u.fix('z', 'a').rev('y')); add('step', [A(), B()], lambda u: u.step('y', 'a', 'k')); add('revo', [A(), B()], lambda u: u.rev('y').rev('z'))
    add('blocks', [A(), B()], lambda u: u.blocks('y', 'Y', 'q', 2)); add('tile', [V('x', 'y'), V('y')], lambda u: u.blocks('y', 'Y', 'q', 2).hoist('x')); add('dyn', [V('x', 'y'), V('y')], lambda u: u.blocks_dyn('y', 'Y', 'q', 'p', 'L')); add('stat', [V('x', 'y'), V('y')], lambda u: u.blocks_static('y', 'b', 'Y', 'q', 'L')); add('merge', [A(), B()], lambda u: u.merge('z', 'y', 'm')); add('mergex', [V('x'), V('y')], lambda u: u.merge('x', 'y', 'm')); add('renu', [A(), B()], lambda u: u.ren(y='w').hoist('w')); add('spanu', [A(), B()], lambda u: u.span('z', 'a', 'b'))
    lim = lambda **k: ''.join(f'  vp_assume({p} <= {v});\n' for p, v in k.items())
    add('bigx', [A(), B()], bits=(5, 6), kbits=(7, 8), pre=lim(ny=2, nz=2)); add('bigy', [A(), B()], bits=(5, 6), kbits=(7, 8), pre=lim(nx=2, nz=2)); add('bigz', [A(), B()], lambda u: u.rev('z'), bits=(5, 6), kbits=(7, 8), pre=lim(nx=2, ny=2)); add('bigv', [V('x'), V('x', ty='char')], bits=(6, 7), kbits=(6, 7)); add('bigblk', [V('x'), V('x', ty='char')], lambda u: u.blocks('x', 'X', 'q', 'L'), bits=(5, 6), kbits=(5, 6))
    # sections of the joint traversal, bags in place of structures
    add('secdims', [A(), B(), C()], call="t.template for_dims<'y', 'x'>([&](auto in) { in.for_each(visit); });", tree=('dyn', 'y', ('dyn', 'x', ('dyn', 'z', None))))
    add('secsect', [A(), B(), C()], call="t.template for_sections<'x'>([&](auto in) { in.for_each(visit); });", tree=('dyn', 'x', ('dyn', 'z', ('dyn', 'y', None))))
    add('secpipe', [A(), B()], call="t | noarr::for_dims<'y'>([&](auto in) { in | visit; });", tree=('dyn', 'y', ('dyn', 'z', ('dyn', 'x', None))))
    add('bags', [A(), B(), C()], wrap='noarr::make_bag({}, (void *)vp_buf)'); add('bagmix', [A(), C()], lambda u: u.hoist('x'), wrap='noarr::make_bag({}, (const void *)vp_buf).get_ref()')
    man = r"""
// lengths of the joint structure, all 64-bit values
HARNESS(lengths) { vp_size nx = NDW(), ny = NDW(), nz = NDW(), x = NDW(), y = NDW(), z = NDW(); auto a = scalar<int>() ^ vector<'x'>(nx) ^ vector<'y'>(ny); auto b = scalar<short>() ^ vector<'z'>(nz) ^ vector<'y'>(ny); auto d = scalar<char>() ^ vector<'z'>(nz) ^ vector<'x'>(nx);
  auto t = traverser(a, b, d); auto u = t.get_struct(); auto top = t.top_struct();
  vp_check(all(u.template length<'x'>(empty_state) == nx, u.template length<'y'>(empty_state) == ny, u.template length<'z'>(empty_state) == nz), "lengths of the union"); vp_check(all(top.template length<'x'>(empty_state) == nx, top.template length<'y'>(empty_state) == ny, top.template length<'z'>(empty_state) == nz), "lengths of the traverser");
  auto f = t ^ fix<'x', 'z'>(x, z) ^ fix<'y'>(y); auto st = f.state();
  vp_check(all(get_index<'x'>(st) == x, get_index<'y'>(st) == y, get_index<'z'>(st) == z), "state"); vp_check(all((a | offset(st)) == (y * nx + x) * 4, (b | offset(st)) == (y * nz + z) * 2, (d | offset(st)) == x * nz + z), "elements");
  vp_check(all((a ^ fix(f) | offset()) == (y * nx + x) * 4, (b ^ fix(f) | offset()) == (y * nz + z) * 2), "traverser in place of a state");
}
HARNESS(range_multi) { vp_size nx = NDW(), ny = NDW(), nz = NDW(), k = NDW(); auto a = scalar<int>() ^ vector<'x'>(nx) ^ vector<'y'>(ny); auto b = scalar<short>() ^ vector<'z'>(nz) ^ vector<'y'>(ny); auto t = traverser(a, b); auto r = t.range(); vp_assume(k < nz);
  vp_check(r.size() == nz, "outermost dimension of the union"); vp_check(get_index<'z'>(r[k]) == k, "k-th section");
}
"""
    return dict(tus=pack_tus('c10_', hs, 5, PL) + [tu('c10_m', man, PL)])
