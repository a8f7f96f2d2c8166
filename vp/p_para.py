"""C22: parallel traversals under every schedule (oneTBB, OpenMP and <execution> replaced by stand-ins whose scheduling decisions are solver variables)"""
from .gen import *
from .p_trav import V, SEQ, PL, protos
S = scalar
HITS = r"""
// number of calls with one arbitrary index (hence: with every index), and in total
template<auto... D> struct Hits {
  vp_size v[sizeof...(D) + 1] = {}, off, n = 0, c = 0;
  template<class S, class St> void at(const S &s, St st) { vp_size k = 0; bool h = true; ((h = vp_and(h, v[k++] == vp_ix<D>(st))), ...); h = vp_and(h, (vp_size)(s | noarr::offset(st)) == off); c += h; n++; }
};
"""
TBB = ('tbb', ['stubs'], '#include <noarr/structures/interop/tbb.hpp>\n', [], [])
OMP = ('omp', ['stubs/omp'], '#include <noarr/structures/interop/omp.hpp>\n', ['-Xclang', '-fopenmp'], [])
STD = ('std', ['stubs/stdpar'], '#include <noarr/structures/interop/std_para.hpp>\n', ['-D_GLIBCXX_USE_TBB_PAR_BACKEND=0'], [])

def h_hits(name, o, m, call, bits, lens=None, pre='', tree=None):
    if 'merge' in m.cpp: pre += ''.join(f'  {p} = vp_case({p});\n' for p in m.params)
    od = tree_dims(o.tree)
    t = f'HARNESS({name}) {{\n' + decl(m, bits, lens) + pre + assume(m, lens) + f'  auto s = {o.cpp};\n'
    t += f"  Hits<{', '.join(repr(d) for d in od)}> g, e; g.off = e.off = NDW();" + ''.join(f' g.v[{i}] = e.v[{i}] = ND(14, 14);' for i in range(len(od))) + '\n'
    t += f"  auto t = noarr::traverser(s){''.join(' ^ ' + p for p in protos(o, m))};\n  auto visit = [&](auto st) {{ g.at(s, st); }};\n  {call}\n"
    def body(idx, ind):
        q = up_to(m, o, idx)
        return f'{ind}{{ e.n++; bool h = true;' + ''.join(f" h = vp_and(h, e.v[{i}] == {ex(q[d]) if d in q else '9999'});" for i, d in enumerate(od)) + f' h = vp_and(h, e.off == {o.off(q)}); e.c += h; }}\n'
    t += loops(m, tree if tree is not None else m.tree, lenv(lens), body)
    t += f'  vp_check(g.n == e.n, "{name}: number of calls");\n  vp_check(g.c == e.c, "{name}: each index exactly once, with its element");\n'
    return t + '}\n'

def cases():
    R = {}
    def add(k, o, f=lambda m: m, **kw): R[k] = (o, f(o), kw)
    add('v1', V('x')); add('v2', V('x', 'y')); add('v3', V('x', 'y', 'z')); add('arr', S('int').vec('y', 'ny').arr('x', 3)); add('bc', S('int').vec('x', 'nx').bcast('b', 'nb'))
    add('soa', tup('t', S('int').vec('x', 'nx'), S('int')).vec('z', 'nz'))
    add('hoist', V('x', 'y'), lambda m: m.hoist('x')); add('shift', V('x', 'y'), lambda m: m.shift('y', 'a')); add('slice', V('x', 'y'), lambda m: m.slice('y', 'a', 'n')); add('span', V('x'), lambda m: m.span('x', 'a', 'b')); add('step', V('x'), lambda m: m.step('x', 'a', 'k')); add('rev', V('x', 'y'), lambda m: m.rev('y').rev('x')); add('fix', V('x', 'y'), lambda m: m.fix('y', 'a')); add('ren', V('x', 'y'), lambda m: m.ren(x='y', y='x'))
    add('blk', V('x'), lambda m: m.blocks('x', 'X', 'q', 2)); add('blkq', V('x'), lambda m: m.blocks('x', 'X', 'q', 'L').hoist('q')); add('dyn', V('x'), lambda m: m.blocks_dyn('x', 'X', 'q', 'p', 'L')); add('merge', V('x', 'y'), lambda m: m.merge('y', 'x', 'm')); add('mergerev', V('x', 'y'), lambda m: m.merge('x', 'y', 'm').rev('m').shift('m', 'a'))
    return R

def c22(T):
    tus = []
    for nm, stubs, inc, flags, link in (TBB, OMP, STD):
        head = PL + inc + HITS; fl = dict(stubs=stubs, flags=flags)
        hs = []
        for k, (o, m, kw) in cases().items():
            kw = dict(kw); big = (1, 2) if k in ('v3', 'mergerev') else (2, 3) if nm != 'std' else (2, 2)
            hs.append(h_hits(f'{nm}_each_{k}', o, m, f'noarr::{nm}_for_each(t, visit);', big, **kw))
            if k in ('v2', 'v3', 'arr', 'hoist', 'shift', 'rev', 'ren', 'blk', 'dyn', 'mergerev') or k == 'soa' and nm != 'tbb':
                hs.append(h_hits(f'{nm}_sec_{k}', o, m, f'noarr::{nm}_for_sections(t, [&](auto in) {{ in.for_each(visit); }});', big, **kw))
                hs.append(h_hits(f'{nm}_plan_{k}', o, m, 'auto bg = noarr::make_bag(s, (void *)vp_buf); (noarr::planner(bg)' + ''.join(f' ^ {p}' for p in protos(o, m)) + f' ^ noarr::for_each(visit)) | noarr::planner_{nm}_execute();', big, **kw))
        # longer loops (one long dimension at a time)
        lim = lambda **k: ''.join(f'  vp_assume({p} <= {v});\n' for p, v in k.items())
        for k, o, f, b, lm in (('v1', V('x'), lambda m: m, (4, 6), {}), ('in', V('x', 'y'), lambda m: m, (4, 6), dict(ny=1)), ('out', V('x', 'y'), lambda m: m, (3, 5), dict(nx=1)), ('shrev', V('x'), lambda m: m.shift('x', 'a').rev('x'), (3, 5), dict(a=2))):
            hs.append(h_hits(f'{nm}_big_{k}', o, f(o), f'noarr::{nm}_for_each(t, visit);', b if nm == 'tbb' else (3, b[1] - 1), pre=lim(**lm)))
        man = r"""
// sections handed over: one per index of the outermost dimension, with that index
HARNESS(NM_sections) { vp_size nx = ND(2, 2), ny = ND(3, 3), a = ND(2, 3), T = ND(3, 3); vp_assume(a <= ny); auto s = scalar<int>() ^ vector<'x'>(nx) ^ vector<'y'>(ny); vp_size c = 0, n = 0, bad = 0;
  NM_for_sections(traverser(s) ^ shift<'y'>(a), [&](auto in) { vp_size y = get_index<'y'>(in); c += y == T; n++; bad += in.top_struct().template length<'x'>(empty_state) != nx; });
  vp_check(n == ny - a, "number of sections"); vp_check(c == (vp_size)vp_and(T >= a, T < ny), "each section once"); vp_check(bad == 0, "length inside a section");
}
// sections of a one-dimensional structure
HARNESS(NM_sections1) { vp_size nx = ND(3, 3), T = ND(3, 3), c = 0, n = 0; auto s = scalar<int>() ^ vector<'x'>(nx);
  NM_for_sections(traverser(s), [&](auto in) { c += get_index<'x'>(in) == T; n++; }); vp_check(n == nx, "number of sections"); vp_check(c == (vp_size)(T < nx), "each section once"); }
// several structures
HARNESS(NM_union) { vp_size nx = ND(2, 2), ny = ND(2, 2), nz = ND(2, 2), X = ND(2, 2), Y = ND(2, 2), Z = ND(2, 2), c = 0, n = 0; auto a = scalar<int>() ^ vector<'x'>(nx) ^ vector<'y'>(ny); auto b = scalar<int>() ^ vector<'z'>(nz) ^ vector<'y'>(ny);
  NM_for_each(traverser(a, b) ^ hoist<'x'>(), [&](auto st) { auto [x, y, z] = get_indices<'x', 'y', 'z'>(st); c += all(x == X, y == Y, z == Z); n++; });
  vp_check(n == nx * ny * nz, "number of calls"); vp_check(c == (vp_size)all(X < nx, Y < ny, Z < nz), "each index once"); }
// two traversals, one after another
HARNESS(NM_twice) { vp_size nx = ND(2, 2), X = ND(2, 2), c = 0, d = 0; auto s = scalar<int>() ^ vector<'x'>(nx); auto t = traverser(s);
  NM_for_each(t, [&](auto st) { c += get_index<'x'>(st) == X; }); vp_check(c == (vp_size)(X < nx), "first"); NM_for_each(t ^ reverse<'x'>(), [&](auto st) { d += get_index<'x'>(st) == X; }); vp_check(d == (vp_size)(X < nx), "second"); }
// planner: sections and elements
HARNESS(NM_plan_sections) { vp_size nx = ND(2, 2), ny = ND(2, 2), X = ND(2, 2), Y = ND(2, 2), c = 0, n = 0, m = 0, d = 0; auto bg = make_bag(scalar<int>() ^ vector<'x'>(nx) ^ vector<'y'>(ny), (void *)vp_buf);
  (planner(bg) ^ for_each_elem([&](auto st, int &e) { auto [x, y] = get_indices<'x', 'y'>(st); c += all(x == X, y == Y, AT(e) == (y * nx + x) * 4); n++; }) ^ for_sections<'y'>([&](auto in) { d += get_index<'y'>(in) == Y; m++; in(); })) | planner_NM_execute();
  vp_check(n == nx * ny, "number of elements"); vp_check(m == ny, "number of sections"); vp_check(c == (vp_size)vp_and(X < nx, Y < ny), "each element once"); vp_check(d == (vp_size)(Y < ny), "each section once"); }
// no two concurrent calls get the same element
HARNESS(NM_disjoint) { vp_size nx = vp_case(ND(1, 2)), ny = vp_case(ND(2, 2)), P = ND(4, 4), Q = ND(4, 4), n = 0, op = 0, oq = 0, tp = 0, tq = 0; auto s = scalar<int>() ^ vector<'x'>(nx) ^ vector<'y'>(ny);
  NM_for_each(traverser(s) ^ merge_blocks<'y', 'x', 'm'>(), [&](auto st) { vp_size o = s | offset(st); vp_pick(op, n == P, o); vp_pick(tp, n == P, vp_thread); vp_pick(oq, n == Q, o); vp_pick(tq, n == Q, vp_thread); n++; });
  vp_assume(vp_and(P < n, Q < n)); vp_check(vp_or(P == Q, op != oq), "different calls get different elements"); vp_check(vp_or(tp == tq, op != oq), "different threads get different elements"); }
""".replace('NM', nm)
        tus += pack_tus(f'c22_{nm}_', hs, 4, head, **fl) + [tu(f'c22_{nm}_m', man, head, **fl)]
    tus += [dict(x, stubs=['stubs']) for x in reduce_tus(T)]
    return dict(tus=tus)

RED = '#ifndef VP_TBB_DEPTH\n#define VP_TBB_DEPTH (VP_TIER ? 2 : 1)\n#endif\n' + PL + '#include <noarr/structures/interop/tbb.hpp>\n' + r"""
// input values and initial contents of the output are arbitrary; the sums of 16-bit values are compared per element
typedef unsigned short u16;
alignas(16) static u16 vp_in[16], vp_out[16], vp_exp[16];
static void vp_fill() { for (int i = 0; i < 12; i++) { vp_in[i] = (u16)vp_nondet(__COUNTER__, 16); vp_exp[i] = vp_out[i] = (u16)vp_nondet(__COUNTER__, 16); } }
#define SUM_NEUT [](auto st, auto &out) { out[st] = 0; }
#define SUM_JOIN [](auto st, auto &l, const auto &r) { l[st] += r[st]; }
#define OUT_IS(l) do { bool ok = true; for (int i = 0; i < 12; i++) ok = vp_and(ok, vp_out[i] == vp_exp[i]); vp_check(ok, l); } while (0)
"""
def reduce_tus(T):
    hs = []
    # (name, input structure, order, output structure, output element of an input index x/y)
    C = [
        ('rows', "vector<'x'>(nx) ^ vector<'y'>(ny)", '', "vector<'y'>(ny)", 'y'), ('cols', "vector<'x'>(nx) ^ vector<'y'>(ny)", '', "vector<'x'>(nx)", 'x'),
        ('all', "vector<'x'>(nx) ^ vector<'y'>(ny)", '', None, '0'), ('both', "vector<'x'>(nx) ^ vector<'y'>(ny)", '', "vector<'x'>(nx) ^ vector<'y'>(ny)", 'y * nx + x'), ('transposed', "vector<'x'>(nx) ^ vector<'y'>(ny)", '', "vector<'y'>(ny) ^ vector<'x'>(nx)", 'x * ny + y'),
        ('hrows', "vector<'x'>(nx) ^ vector<'y'>(ny)", " ^ hoist<'x'>()", "vector<'y'>(ny)", 'y'), ('hcols', "vector<'x'>(nx) ^ vector<'y'>(ny)", " ^ hoist<'x'>()", "vector<'x'>(nx)", 'x'),
        ('rev', "vector<'x'>(nx) ^ vector<'y'>(ny)", " ^ reverse<'y'>()", "vector<'y'>(ny)", 'y'), ('revo', "vector<'x'>(nx) ^ vector<'y'>(ny)", '', "vector<'y'>(ny) ^ reverse<'y'>()", '(ny - 1 - y)'),
        ('pad', "vector<'x'>(nx) ^ vector<'y'>(ny)", '', "vector<'x'>(nx) ^ vector<'p'>(2) ^ fix<'p'>(1)", 'nx + x'), ('blk', "vector<'x'>(nx) ^ vector<'y'>(ny)", " ^ into_blocks_dynamic<'y', 'Y', 'b', 'p'>(2)", "vector<'y'>(ny)", 'y'), ('blkc', "vector<'x'>(nx) ^ vector<'y'>(ny)", " ^ into_blocks_dynamic<'y', 'y', 'b', 'p'>(2)", "vector<'y'>(ny)", 'y'), ('inner', "vector<'x'>(nx) ^ vector<'y'>(ny)", " ^ into_blocks_dynamic<'y', 'Y', 'y', 'p'>(2) ^ hoist<'y'>()", "vector<'y'>(ny)", 'y'),
    ]
    # the outermost dimension of the traversal has the name of a dimension of the output, but is not that dimension
    K = [('renamed', "vector<'x'>(nx) ^ vector<'y'>(ny)", " ^ rename<'x', 'y', 'y', 'x'>()", "vector<'x'>(nx)", 'x'), ('merged', "vector<'x'>(nx) ^ vector<'y'>(ny)", " ^ merge_blocks<'x', 'y', 'y'>()", "vector<'y'>(ny)", 'y'), ('bcast', "vector<'x'>(nx) ^ vector<'y'>(ny)", '', "vector<'x'>(nx) ^ bcast<'y'>(ny)", 'x')]
    for name, i, order, out, ix in C + K:
        o = f'scalar<u16>()' + (f' ^ {out}' if out else '')
        pre = f'vp_size nx = vp_case(ND(1, 1)) + 1, ny = vp_case(ND(2, 2)); vp_fill(); auto in = make_bag(scalar<u16>() ^ {i}, (const void *)vp_in); auto os = {o};'
        exp = f'FOR(y, ny) FOR(x, nx) vp_exp[{ix}] += vp_in[y * nx + x];'
        hs.append(f"""
HARNESS(red_{name}) {{ {pre} auto out = make_bag(os, (void *)vp_out); vp_size calls = 0;
  tbb_reduce(traverser(in){order}, SUM_NEUT, [&](auto st, auto &o) {{ o[st] += in[st]; calls++; }}, SUM_JOIN, out); {exp}
  vp_check(calls == nx * ny, "{name}: every element accumulated once"); OUT_IS("{name}: result"); }}
HARNESS(redp_{name}) {{ {pre}
  tbb_reduce(traverser(in){order}, [&](auto st, void *o) {{ (os | get_at(o, st)) = 0; }}, [&](auto st, void *o) {{ (os | get_at(o, st)) += in[st]; }}, [&](auto st, void *l, const void *r) {{ (os | get_at(l, st)) += (os | get_at(r, st)); }}, os, (void *)vp_out); {exp}
  OUT_IS("{name}: result (pointers)"); }}
HARNESS(race_{name}) {{ {pre} auto out = make_bag(os, (void *)vp_out); vp_size P = ND(3, 3), Q = ND(3, 3), n = 0; u16 *ap = 0, *aq = 0; unsigned tp = 0, tq = 0;
  tbb_reduce(traverser(in){order}, SUM_NEUT, [&](auto st, auto &o) {{ u16 *a = &o[st]; if (n == P) {{ ap = a; tp = vp_thread; }} if (n == Q) {{ aq = a; tq = vp_thread; }} n++; }}, SUM_JOIN, out);
  vp_assume(vp_and(P < n, Q < n)); vp_check(vp_or(tp == tq, ap != aq), "{name}: concurrent accumulations never touch the same element"); }}
""")
    hs.append(r"""
HARNESS(red_hist) { vp_size n = vp_case(ND(2, 2)), nb = 4; vp_fill(); auto in = make_bag(scalar<u16>() ^ vector<'x'>(n), (const void *)vp_in); auto out = make_bag(scalar<u16>() ^ vector<'v'>(nb), (void *)vp_out);
  FOR(i, n) vp_in[i] = (u16)vp_case(vp_in[i] & 3);
  tbb_reduce(traverser(in), SUM_NEUT, [&](auto st, auto &h) { h[idx<'v'>((vp_size)in[st])] += 1; }, SUM_JOIN, out); FOR(i, n) vp_exp[vp_in[i]]++; OUT_IS("histogram"); }
HARNESS(red_max) { vp_size nx = 2, ny = vp_case(ND(2, 2)); vp_fill(); auto in = make_bag(scalar<u16>() ^ vector<'x'>(nx) ^ vector<'y'>(ny), (const void *)vp_in); auto out = make_bag(scalar<u16>() ^ vector<'x'>(nx), (void *)vp_out);
  auto mx = [](u16 a, u16 b) { return (u16)(a > b ? a : b); };
  tbb_reduce(traverser(in), SUM_NEUT, [&](auto st, auto &o) { o[st] = mx(o[st], in[st]); }, [&](auto st, auto &l, const auto &r) { l[st] = mx(l[st], r[st]); }, out); FOR(y, ny) FOR(x, nx) vp_exp[x] = mx(vp_exp[x], vp_in[y * nx + x]); OUT_IS("maximum"); }
""")
    # the output is a record: the outermost dimension indexes all, some or none of its fields
    for name, f0, f1 in (('rec_first', "scalar<u16>() ^ vector<'y'>(ny)", 'scalar<u16>()'), ('rec_second', 'scalar<u16>()', "scalar<u16>() ^ vector<'y'>(ny)"), ('rec_none', 'scalar<u16>()', "scalar<u16>() ^ vector<'x'>(nx)"), ('rec_both', "scalar<u16>() ^ vector<'y'>(ny)", "scalar<u16>() ^ vector<'y'>(ny)")):
        ii = ["noarr::idx<'t', 'y'>(lit<%d>, y)" % k if "'y'" in f else "noarr::idx<'t', 'x'>(lit<%d>, x)" % k if "'x'" in f else "noarr::idx<'t'>(lit<%d>)" % k for k, f in enumerate((f0, f1))]
        pre = f"vp_size nx = vp_case(ND(1, 1)) + 1, ny = vp_case(ND(2, 2)); vp_fill(); auto in = make_bag(scalar<u16>() ^ vector<'x'>(nx) ^ vector<'y'>(ny), (const void *)vp_in); auto os = pack({f0}, {f1}) ^ tuple<'t'>(); auto out = make_bag(os, (void *)vp_out);"
        off = [f'(os | offset({i})) / 2' for i in ii]
        acc = lambda fn: f"auto [x, y] = get_indices<'x', 'y'>(st); (void)x; (void)y; " + fn
        hs.append(f"""
HARNESS(red_{name}) {{ {pre} vp_size calls = 0;
  tbb_reduce(traverser(in), SUM_NEUT, [&](auto st, auto &o) {{ {acc(f'o[{ii[0]}] += in[st]; o[{ii[1]}] += 1; calls++;')} }}, SUM_JOIN, out); FOR(y, ny) FOR(x, nx) {{ vp_exp[{off[0]}] += vp_in[y * nx + x]; vp_exp[{off[1]}] += 1; }}
  vp_check(calls == nx * ny, "{name}: every element accumulated once"); OUT_IS("{name}: result"); }}
HARNESS(race_{name}) {{ {pre} vp_size P = ND(4, 4), Q = ND(4, 4), n = 0; u16 *ap = 0, *aq = 0; unsigned tp = 0, tq = 0;
  auto touch = [&](u16 *a) {{ if (n == P) {{ ap = a; tp = vp_thread; }} if (n == Q) {{ aq = a; tq = vp_thread; }} n++; }};
  tbb_reduce(traverser(in), SUM_NEUT, [&](auto st, auto &o) {{ {acc(f'touch(&o[{ii[0]}]); touch(&o[{ii[1]}]);')} }}, SUM_JOIN, out);
  vp_assume(vp_and(P < n, Q < n)); vp_check(vp_or(tp == tq, ap != aq), "{name}: concurrent accumulations never touch the same element"); }}
""")
    return pack_tus('c22_red_', hs, 2, RED)
