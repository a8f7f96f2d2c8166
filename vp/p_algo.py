"""C24: programs written against logical dimensions compute the same result for every layout and traversal order"""
from .gen import *
import itertools, random
ALGO = HEAD + r'''#include <noarr/structures/interop/bag.hpp>
#include <noarr/structures/interop/traverser_iter.hpp>
#include <noarr/structures/extra/planner.hpp>
#include <noarr/structures/extra/shortcuts.hpp>
#include <cassert>
#define assert_ assert
#include "../examples/matrix/noarr_matrix_functions.hpp"
using namespace noarr;
using u32 = std::uint32_t;
#define FOR(i, n) for (vp_size i = 0; i < (n); i++)
constexpr vp_size MX = 4;
struct Mat { u32 v[MX][MX] = {}; };
template<unsigned ID> static inline Mat any(vp_size n, vp_size m) { Mat r; FOR(i, n) FOR(j, m) r.v[i][j] = (u32)vp_nondet(ID, 32); return r; }
template<char I, char J, class B> static inline void put(const B &b, const Mat &a, vp_size n, vp_size m) { FOR(i, n) FOR(j, m) b[idx<I, J>(i, j)] = a.v[i][j]; }
template<char I, char J, class B> static inline bool has(const B &b, const Mat &a, vp_size n, vp_size m) { bool r = true; FOR(i, n) FOR(j, m) r = vp_and(r, (u32)b[idx<I, J>(i, j)] == a.v[i][j]); return r; }
'''
def L_(k, a, na, b, nb, ty='u32'):
    """a layout of a table with dimensions a (na) and b (nb)"""
    s = f'scalar<{ty}>()'; va, vb = (lambda n: f"vector<'{a}'>({n})"), (lambda n: f"vector<'{b}'>({n})")
    return {
        'row': f'{s} ^ {vb(nb)} ^ {va(na)}', 'col': f'{s} ^ {va(na)} ^ {vb(nb)}',
        'ren': f"{s} ^ vector<'P'>({na}) ^ vector<'Q'>({nb}) ^ rename<'P', '{a}', 'Q', '{b}'>()",
        'swap': f"{s} ^ {va(nb)} ^ {vb(na)} ^ rename<'{a}', '{b}', '{b}', '{a}'>()",
        'rev': f"{s} ^ {vb(nb)} ^ {va(na)} ^ reverse<'{a}'>()", 'revb': f"{s} ^ {va(na)} ^ {vb(nb)} ^ reverse<'{b}'>() ^ reverse<'{a}'>()",
        'sub': f"{s} ^ {va(na + ' + 2')} ^ {vb(nb + ' + 1')} ^ slice<'{a}'>(1, {na}) ^ shift<'{b}'>(1)",
        'span': f"{s} ^ {vb(nb + ' + 3')} ^ {va(na + ' + 1')} ^ span<'{b}'>(2, {nb} + 2) ^ span<'{a}'>(0, {na})",
        'step': f"{s} ^ {va('2 * ' + na)} ^ {vb('3 * ' + nb)} ^ step<'{a}'>(1, 2) ^ step<'{b}'>(0, 3)",
        'tile': f"{s} ^ vector<'q'>(2) ^ {vb(nb)} ^ vector<'Q'>(({na} + 1) / 2) ^ merge_blocks<'Q', 'q', '{a}'>() ^ slice<'{a}'>(0, {na})",
        'tile2': f"{s} ^ vector<'q'>(2) ^ vector<'r'>(2) ^ vector<'Q'>(({na} + 1) / 2) ^ vector<'R'>(({nb} + 1) / 2) ^ merge_blocks<'Q', 'q', '{a}'>() ^ merge_blocks<'R', 'r', '{b}'>() ^ span<'{a}'>(0, {na}) ^ span<'{b}'>(0, {nb})",
        'flat': f"{s} ^ vector<'f'>({na} * ({nb} + 1)) ^ into_blocks<'f', '{a}', '{b}'>({nb} + 1) ^ slice<'{b}'>(1, {nb})",
        'field': f"pack({s}, {s}) ^ tuple<'t'>() ^ {vb(nb)} ^ {va(na)} ^ fix<'t'>(lit<1>)", 'field0': f"pack({s} ^ {va(na)} ^ {vb(nb)}, {s}) ^ tuple<'t'>() ^ fix<'t'>(lit<0>)",
        'plane': f"{s} ^ {vb(nb)} ^ vector<'t'>(3) ^ {va(na)} ^ fix<'t'>(2)",
        'hoist': f"{s} ^ {va(na)} ^ {vb(nb)} ^ hoist<'{a}'>()", 'set': f"{s} ^ vector<'{b}'>() ^ vector<'{a}'>() ^ set_length<'{a}', '{b}'>({na}, {nb})",
        'mref': f"{s} ^ {va(na)} ^ vector<'P'>(1) ^ {vb(nb)} ^ merge_blocks<'P', '{a}', '{a}'>()",
        'rw': f"{s} ^ {va(na)} ^ {vb(nb)} ^ reorder<'{a}', '{b}'>()",
    }[k]
LAYS = ['row', 'col', 'ren', 'swap', 'rev', 'revb', 'sub', 'span', 'step', 'tile', 'tile2', 'flat', 'field', 'field0', 'plane', 'hoist', 'set', 'mref', 'rw']
PAIR = "traverser({S})"
# orders over dimensions i, j: name -> (list of successive orders (each visits a part), needs non-zero lengths)
def ords(i, j, ni, nj):
    I, J = i.upper(), j.upper()
    return {
        'none': [''], 'hi': [f" ^ hoist<'{i}'>()"], 'hj': [f" ^ hoist<'{j}'>()"], 're': [f" ^ reorder<'{j}', '{i}'>()"], 'hh': [f" ^ hoist<'{i}'>() ^ hoist<'{j}'>()"], 'hij': [f" ^ hoist<'{i}', '{j}'>()"],
        'revi': [f" ^ reverse<'{i}'>()"], 'revij': [f" ^ reverse<'{j}'>() ^ hoist<'{i}'>() ^ reverse<'{i}'>()"], 'ren': [f" ^ rename<'{i}', '{j}', '{j}', '{i}'>() ^ hoist<'{j}'>()"],
        'dyn': [f" ^ into_blocks_dynamic<'{i}', '{I}', '{i}', 'p'>(2)"], 'dyn2': [f" ^ strip_mine_dynamic<'{i}', '{I}', '{i}', 'p'>(2) ^ strip_mine_dynamic<'{j}', '{J}', '{j}', 'r'>(lit<2>)"], 'dynh': [f" ^ into_blocks_dynamic<'{j}', '{J}', 'q', 'p'>(2) ^ hoist<'{J}'>() ^ reverse<'{J}'>()"],
        'stat': [f" ^ into_blocks_static<'{i}', 'b', '{I}', 'q'>(2)"], 'statj': [f" ^ hoist<'{j}'>() ^ into_blocks_static<'{j}', 'b', '{J}', 'q'>(lit<2>)"],
        'blk1': [f" ^ into_blocks<'{i}', '{I}', 'q'>(1) ^ hoist<'q'>()"], 'blkn': [f" ^ into_blocks<'{j}', '{J}', 'q'>({nj}) ^ hoist<'q'>()"], 'strip': [f" ^ strip_mine<'{i}', '{I}', 'q'>(lit<1>)"],
        'mij': [f" ^ merge_blocks<'{i}', '{j}', 'm'>()"], 'mji': [f" ^ merge_blocks<'{j}', '{i}', 'm'>() ^ reverse<'m'>()"], 'mdyn': [f" ^ merge_blocks<'{j}', '{i}', 'm'>() ^ into_blocks_dynamic<'m', 'M', 'n', 'p'>(3)"],
        'z': [f" ^ merge_zcurve<'{i}', '{j}', 'z'>::maxlen_alignment<4, 1>()"], 'zrev': [f" ^ merge_zcurve<'{j}', '{i}', 'z'>::maxlen_alignment<4, 1>() ^ reverse<'z'>()"],
        'slices': [f" ^ slice<'{i}'>(0, {ni} / 2)", f" ^ shift<'{i}'>({ni} / 2)"], 'spans': [f" ^ span<'{j}'>(1, {nj})", f" ^ span<'{j}'>(0, lit<1>) ^ hoist<'{j}'>()"], 'steps': [f" ^ step<'{i}'>(0, lit<2>)", f" ^ step<'{i}'>(1, 2) ^ hoist<'{i}'>()"], 'stepr': [f" ^ reverse<'{j}'>() ^ step<'{j}'>(lit<1>, lit<3>)", f" ^ reverse<'{j}'>() ^ step<'{j}'>(0, 3)", f" ^ reverse<'{j}'>() ^ step<'{j}'>(2, 3)"],
        'fixs': ['@' + f" ^ fix<'{i}'>(o_)"], 'fixij': ['@@' + f" ^ fix<'{j}', '{i}'>(o_, p_)"],
    }
NZ = ('z', 'zrev', 'blkn', 'spans', 'stepr', 'steps')
NODIMS = ('ren', 'dyn', 'dyn2', 'dynh', 'stat', 'statj', 'blk1', 'blkn', 'strip', 'mij', 'mji', 'mdyn', 'z', 'zrev')
def runs(structs, order, ni, nj, go):
    """statements: each part of the order is traversed; go(expr of the ordered traverser)"""
    out = ''
    for o in order:
        if o[:2] == '@@': out += f'  FOR(o_, {nj}) FOR(p_, {ni}) {{ auto t = traverser({structs}){o[2:]}; {go} }}\n'
        elif o[:1] == '@': out += f'  FOR(o_, {ni}) {{ auto t = traverser({structs}){o[1:]}; {go} }}\n'
        else: out += f'  {{ auto t = traverser({structs}){o}; {go} }}\n'
    return out
def sizes(names, key, q=(2, 2), base=None):
    t = ''.join(f'  vp_size {n} = vp_case({nd(q)});\n' for n in names)
    if key in NZ: t += ''.join(f'  vp_assume({n} != 0);\n' for n in names)
    if key in ('spans',): pass
    return t
def cap(names, c): return ''.join(f'  vp_assume({n} <= {c});\n' for n in names)

def h_copy(la, lb, key, way, maxn):
    o = ords('i', 'j', 'ni', 'nj')[key]; nm = f'copy_{la}_{lb}_{key}_{way}'
    t = f"HARNESS({nm}) {{\n" + sizes(['ni', 'nj'], key) + cap(['ni', 'nj'], maxn) + '  Mat A = any<900>(ni, nj), B = any<901>(ni, nj);\n'
    t += f"  auto a = make_bag({L_(la, 'i', 'ni', 'j', 'nj')}); auto b = make_bag({L_(lb, 'i', 'ni', 'j', 'nj')}); put<'i', 'j'>(a.get_ref(), A, ni, nj); put<'i', 'j'>(b.get_ref(), B, ni, nj);\n"
    elem = 'b[st] = b[st] * 3 + a[st];'
    go = {'each': f't.for_each([&](auto st) {{ {elem} }});', 'pipe': f't | [&](auto st) {{ {elem} }};',
          'dims': f"t.template for_dims<'j'>([&](auto in) {{ in.for_each([&](auto st) {{ {elem} }}); }});", 'dims2': f"t.template for_dims<'i', 'j'>([&](auto st) {{ b[st.state()] = b[st.state()] * 3 + a[st.state()]; }});",
          'iter': f't.range().for_each([&](auto st) {{ {elem} }});', 'loop': f'for (auto in : t) in.for_each([&](auto st) {{ {elem} }});'}
    if way == 'plan':
        for x in o: t += '' if x[:1] == '@' else f"  (planner(a, b){x} ^ for_each_elem([](const u32 &x, u32 &y) {{ y = y * 3 + x; }})).execute();\n"
    else: t += runs('a, b', o, 'ni', 'nj', go[way])
    t += f"  Mat R; FOR(i, ni) FOR(j, nj) R.v[i][j] = B.v[i][j] * 3 + A.v[i][j];\n  vp_check(has<'i', 'j'>(b, R, ni, nj), \"{nm}: result\"); vp_check(has<'i', 'j'>(a, A, ni, nj), \"{nm}: source unchanged\");\n"
    return t + '}\n'

def h_tr(la, lb, key):
    """transposition into another layout: the destination's dimensions are renamed"""
    o = ords('i', 'j', 'ni', 'nj')[key]; nm = f'tr_{la}_{lb}_{key}'
    t = f"HARNESS({nm}) {{\n" + sizes(['ni', 'nj'], key) + "  Mat A = any<900>(ni, nj);\n"
    t += f"  auto a = make_bag({L_(la, 'i', 'ni', 'j', 'nj')}); auto b_ = make_bag({L_(lb, 'x', 'nj', 'y', 'ni')}); put<'i', 'j'>(a.get_ref(), A, ni, nj); auto b = b_.get_ref() ^ rename<'x', 'j', 'y', 'i'>();\n"
    t += runs('a, b', o, 'ni', 'nj', 't.for_each([&](auto st) { b[st] += a[st]; });')
    t += f"  Mat R; FOR(i, nj) FOR(j, ni) R.v[i][j] = A.v[j][i];\n  vp_check(has<'x', 'y'>(b_, R, nj, ni), \"{nm}: result\");\n"
    return t + '}\n'

MMO = {
 'none': [''], 'revi': [" ^ reverse<'i'>() ^ reverse<'k'>()"], 'ji': [" ^ hoist<'i'>() ^ hoist<'j'>() ^ reverse<'i'>()"], 'hk': [" ^ hoist<'k'>()"], 'hj': [" ^ hoist<'j'>()"], 'ikj': [" ^ hoist<'i', 'k', 'j'>()"], 're': [" ^ reorder<'j', 'k', 'i'>()"], 'rek': [" ^ hoist<'k'>() ^ reverse<'k'>() ^ reverse<'i'>()"],
 'dynk': [" ^ strip_mine_dynamic<'k', 'K', 'k', 'p'>(2)"], 'dyn3': [" ^ strip_mine_dynamic<'i', 'I', 'i', 'p'>(2) ^ strip_mine_dynamic<'j', 'J', 'j', 'q'>(2) ^ strip_mine_dynamic<'k', 'K', 'k', 'r'>(2)"], 'til': [" ^ into_blocks_dynamic<'i', 'I', 'i', 'p'>(2) ^ into_blocks_dynamic<'k', 'K', 'k', 'q'>(2) ^ hoist<'K'>() ^ hoist<'I'>()"],
 'stat': [" ^ into_blocks_static<'k', 'b', 'K', 'k'>(2)"], 'statj': [" ^ hoist<'k'>() ^ hoist<'j'>() ^ into_blocks_static<'j', 'b', 'J', 'j'>(lit<2>)"],
 'mij': [" ^ merge_blocks<'i', 'j', 'm'>()"], 'mjk': [" ^ merge_blocks<'k', 'j', 'm'>() ^ hoist<'i'>()"], 'mall': [" ^ merge_blocks<'i', 'j', 'm'>() ^ merge_blocks<'k', 'm', 'm'>() ^ reverse<'m'>()"],
 'z': [" ^ merge_zcurve<'i', 'j', 'z'>::maxlen_alignment<4, 1>()"], 'zk': [" ^ merge_zcurve<'k', 'i', 'z'>::maxlen_alignment<4, 1>() ^ hoist<'z'>()"], 'z3': [" ^ merge_zcurve<'i', 'j', 'k', 'z'>::maxlen_alignment<4, 1>()"],
 'slk': [" ^ slice<'k'>(0, nk / 2)", " ^ shift<'k'>(nk / 2) ^ hoist<'k'>()"], 'stk': [" ^ step<'k'>(0, 2)", " ^ step<'k'>(lit<1>, 2) ^ hoist<'i'>()"], 'spk': [" ^ span<'k'>(1, nk) ^ reverse<'k'>()", " ^ slice<'k'>(lit<0>, lit<1>)"], 'fixk': ["@ ^ fix<'k'>(o_)"], 'renk': [" ^ rename<'i', 'k', 'k', 'i'>() ^ hoist<'i'>()"],
}
MMNZ = ('z', 'zk', 'z3', 'stk', 'spk')
MMNOD = ('dynk', 'dyn3', 'til', 'stat', 'statj', 'mij', 'mjk', 'mall', 'z', 'zk', 'z3', 'renk')
def h_mm(la, lb, lc, key, way):
    nm = f'mm_{la}_{lb}_{lc}_{key}_{way}'; z = key in MMNZ
    t = f"HARNESS({nm}) {{\n" + ''.join(f'  vp_size {n} = vp_case(ND(2, 2)); vp_assume({n} <= {3 if n == "nk" else "(VP_TIER ? 3 : 2)"});' + (f' vp_assume({n} != 0);' if z else '') + '\n' for n in ('ni', 'nj', 'nk'))
    if not z: t += '  vp_assume(vp_or(nk == 2, vp_or(ni == 2, nj == 2)));\n'
    t += f"  Mat A = any<900>(ni, nk), B = any<901>(nk, nj), C = any<902>(ni, nj);\n  auto a = make_bag({L_(la, 'i', 'ni', 'k', 'nk')}); auto b = make_bag({L_(lb, 'k', 'nk', 'j', 'nj')}); auto c = make_bag({L_(lc, 'i', 'ni', 'j', 'nj')}); put<'i', 'k'>(a.get_ref(), A, ni, nk); put<'k', 'j'>(b.get_ref(), B, nk, nj); put<'i', 'j'>(c.get_ref(), C, ni, nj);\n"
    o = MMO[key]
    e = 'c[st] += a[st] * b[st];'
    for x in o:
        loop = ''
        if x[:1] == '@': loop = '  FOR(o_, nk)'; x = x[1:]
        if way == 'each': t += f'{loop}  (traverser(c, a, b){x}).for_each([&](auto st) {{ {e} }});\n'
        elif way == 'abc': t += f'{loop}  (traverser(a, b, c){x}) | [&](auto st) {{ {e} }};\n'
        elif way == 'dims': t += f"{loop}  (traverser(b, a, c){x}).template for_dims<'i', 'j'>([&](auto in) {{ u32 acc = 0; in.for_each([&](auto st) {{ acc += a[st] * b[st]; }}); c[in.state()] += acc; }});\n"
        elif way == 'nest': t += f"{loop}  traverser(c) | for_dims<'j'>([&](auto o1) {{ o1 | for_dims<'i'>([&](auto o2) {{ u32 acc = c[o2.state()]; auto av = a.structure() ^ fix(o2); (traverser(av, b.get_ref() ^ fix(o2)){x}).for_each([&](auto st) {{ auto full = o2.state() & st; acc += a[full] * b[full]; }}); c[o2.state()] = acc; }}); }});\n"
        elif way == 'plan': t += f'{loop}  (planner(c, a, b){x} ^ for_each_elem([](u32 &r, const u32 &p, const u32 &q) {{ r += p * q; }})).execute();\n'
        elif way == 'psec': t += f"{loop}  (planner(c, a, b) ^ hoist<'i', 'j'>() ^ for_each([&](auto st) {{ {e} }}) ^ for_sections<'i', 'j'>([&](auto in) {{ u32 was = c[in.state()]; c[in.state()] = 0; in(); c[in.state()] += was; }})){x} | planner_execute();\n"
    t += f"  Mat R = C; FOR(i, ni) FOR(j, nj) FOR(k, nk) R.v[i][j] += A.v[i][k] * B.v[k][j];\n  vp_check(has<'i', 'j'>(c, R, ni, nj), \"{nm}: product\"); vp_check(vp_and(has<'i', 'k'>(a, A, ni, nk), has<'k', 'j'>(b, B, nk, nj)), \"{nm}: operands unchanged\");\n"
    return t + '}\n'

def h_red(la, key, way):
    """row sums, broadcast of a row, maxima"""
    o = ords('i', 'j', 'ni', 'nj')[key]; nm = f'red_{la}_{key}_{way}'
    t = f"HARNESS({nm}) {{\n" + sizes(['ni', 'nj'], key) + "  Mat A = any<900>(ni, nj), V = any<901>(ni, 1), W = any<902>(1, nj);\n"
    t += f"  auto a = make_bag({L_(la, 'i', 'ni', 'j', 'nj')}); auto r = make_bag(scalar<u32>() ^ vector<'i'>(ni)); auto w = make_bag(scalar<u32>() ^ vector<'j'>(nj)); put<'i', 'j'>(a.get_ref(), A, ni, nj); FOR(i, ni) r[idx<'i'>(i)] = V.v[i][0]; FOR(j, nj) w[idx<'j'>(j)] = W.v[0][j];\n"
    if way == 'sum': e = 'r[st] += a[st];'
    elif way == 'bias': e = 'a[st] += w[st] - r[st];'
    elif way == 'bc': e = 'rb[st] += a[st];'
    pre = ''
    if way == 'bc': t += "  auto rb = r.get_ref() ^ bcast<'j'>(nj);\n"
    t += runs({'sum': 'a, r', 'bias': 'w, a, r', 'bc': 'rb, a'}[way], o, 'ni', 'nj', f't.for_each([&](auto st) {{ {e} }});')
    if way == 'bias': t += f"  Mat R; FOR(i, ni) FOR(j, nj) R.v[i][j] = A.v[i][j] + W.v[0][j] - V.v[i][0];\n  vp_check(has<'i', 'j'>(a, R, ni, nj), \"{nm}: result\");\n"
    else: t += f"  bool ok = true; FOR(i, ni) {{ u32 x = V.v[i][0]; FOR(j, nj) x += A.v[i][j]; ok = vp_and(ok, (u32)r[idx<'i'>(i)] == x); }} vp_check(ok, \"{nm}: sums\"); vp_check(has<'i', 'j'>(a, A, ni, nj), \"{nm}: source unchanged\");\n"
    return t + '}\n'

def h_scan(la, key):
    """prefix sums along j: rows in any order, elements of a row in order"""
    o = {'each': " ^ hoist<'i'>()", 'hj': " ^ hoist<'j'>()", 'rev': " ^ reverse<'i'>() ^ hoist<'i'>()", 'none': '', 'dyn': " ^ strip_mine_dynamic<'j', 'J', 'q', 'p'>(2)", 'dyni': " ^ into_blocks_dynamic<'i', 'I', 'q', 'p'>(2) ^ hoist<'j'>()", 'blk': " ^ hoist<'j'>() ^ into_blocks_static<'j', 'b', 'J', 'q'>(2)", 'shift': " ^ shift<'j'>(0)", 'm': " ^ merge_blocks<'j', 'i', 'm'>()", 'mi': " ^ merge_blocks<'i', 'j', 'm'>()", 'sp': " ^ span<'i'>(0, ni)"}[key]
    nm = f'scan_{la}_{key}'
    t = f"HARNESS({nm}) {{\n" + sizes(['ni', 'nj'], '') + "  Mat A = any<900>(ni, nj);\n"
    t += f"  auto a = make_bag({L_(la, 'i', 'ni', 'j', 'nj')}); auto r = make_bag(scalar<u32>() ^ vector<'i'>(ni)); put<'i', 'j'>(a.get_ref(), A, ni, nj);\n"
    t += f"  (traverser(a, r){o}).for_each([&](auto st) {{ r[st] = r[st] * 2 + a[st]; a[st] = r[st]; }});\n"
    t += f"  Mat R; FOR(i, ni) {{ u32 x = 0; FOR(j, nj) {{ x = x * 2 + A.v[i][j]; R.v[i][j] = x; }} }} vp_check(has<'i', 'j'>(a, R, ni, nj), \"{nm}: prefix sums\");\n"
    return t + '}\n'

def h_sten(la, lb, key, how):
    o = ords('i', 'j', 'ni', 'nj')[key]; nm = f'sten_{la}_{lb}_{key}_{how}'
    z = 'symmetric_spans<\'i\', \'j\'>(a.structure(), (vp_size)1, (vp_size)1)' if how == 'sym' else "span<'i'>((vp_size)1, ni - 1) ^ span<'j'>(lit<1>, nj - 1)" if how == 'span' else "slice<'i'>(1, ni - 2) ^ shift<'j'>(1) ^ slice<'j'>(0, nj - 2)"
    o = [x for x in ords('i', 'j', '(ni - 2)', '(nj - 2)')[key]]
    t = f"HARNESS({nm}) {{\n  vp_size ni = vp_case(ND(1, 2)) + {3 if key in NZ else 2}, nj = vp_case(ND(1, 2)) + {3 if key in NZ else 2}; vp_assume(ni <= 4); vp_assume(nj <= 4);\n" + "  Mat A = any<900>(ni, nj), B = any<901>(ni, nj);\n"
    t += f"  auto a = make_bag({L_(la, 'i', 'ni', 'j', 'nj')}); auto b = make_bag({L_(lb, 'i', 'ni', 'j', 'nj')}); put<'i', 'j'>(a.get_ref(), A, ni, nj); put<'i', 'j'>(b.get_ref(), B, ni, nj);\n"
    body = "b[st] = a[neighbor<'i'>(st, -1)] + 3 * a[neighbor<'i'>(st, 1)] + 5 * a[neighbor<'j'>(st, -1)] + 7 * a[neighbor<'j'>(st, 1)] + 11 * a[neighbor<'i', 'j'>(st, 1, -1)];"
    for x in o:
        pr = ''
        if x[:2] == '@@': pr = 'FOR(o_, nj - 2) FOR(p_, ni - 2) '; x = x[2:]
        elif x[:1] == '@': pr = 'FOR(o_, ni - 2) '; x = x[1:]
        t += f"  {pr}(traverser(a, b) ^ {z}{x}).for_each([&](auto st) {{ {body} }});\n"
    t += f"  Mat R = B; for (vp_size i = 1; i + 1 < ni; i++) for (vp_size j = 1; j + 1 < nj; j++) R.v[i][j] = A.v[i - 1][j] + 3 * A.v[i + 1][j] + 5 * A.v[i][j - 1] + 7 * A.v[i][j + 1] + 11 * A.v[i + 1][j - 1];\n  vp_check(has<'i', 'j'>(b, R, ni, nj), \"{nm}: result\");\n"
    return t + '}\n'

OTHER = r"""
// records with two fields, in four layouts, any order
template<class S, class O> static inline void records(S s, O o, vp_size n) { Mat A = any<900>(n, 2); auto b = make_bag(s);
  FOR(i, n) { b[idx<'i'>(i).template with<index_in<'f'>>(lit<0>)] = A.v[i][0]; b[idx<'i'>(i).template with<index_in<'f'>>(lit<1>)] = A.v[i][1]; }
  (traverser(b) ^ o).for_each([&](auto st) { b[st] = b[st] * 2 + get_index<'f'>(st); });
  (traverser(b.get_ref() ^ fix<'f'>(lit<0>)) ^ reverse<'i'>()).for_each([&](auto st) { b[st.template with<index_in<'f'>>(lit<0>)] += b[st.template with<index_in<'f'>>(lit<1>)]; });
  bool ok = true; FOR(i, n) { u32 y = A.v[i][1] * 2 + 1, x = A.v[i][0] * 2 + y; ok = all(ok, (u32)b[idx<'i'>(i).template with<index_in<'f'>>(lit<0>)] == x, (u32)b[idx<'i'>(i).template with<index_in<'f'>>(lit<1>)] == y); }
  vp_check(ok, "records: fields"); }
#define REC(nm, L, O) HARNESS(rec_##nm) { vp_size n = vp_case(ND(2, 2)); records(L, O, n); }
#define AOS (pack(scalar<u32>(), scalar<u32>()) ^ tuple<'f'>() ^ vector<'i'>(n))
#define SOA (pack(scalar<u32>() ^ vector<'i'>(n), scalar<u32>() ^ vector<'i'>(n)) ^ tuple<'f'>())
#define SOAR (pack(scalar<u32>() ^ vector<'i'>(n) ^ reverse<'i'>(), scalar<u32>() ^ vector<'i'>(n + 1) ^ shift<'i'>(1)) ^ tuple<'f'>())
#define AOSOA (pack(scalar<u32>() ^ vector<'q'>(2), scalar<u32>() ^ vector<'q'>(2)) ^ tuple<'f'>() ^ vector<'Q'>((n + 1) / 2) ^ merge_blocks<'Q', 'q', 'i'>() ^ slice<'i'>(0, n))
#define ORD0 reverse<'i'>()
#define ORD1 reorder<'f', 'i'>()
#define ORD2 into_blocks_dynamic<'i', 'I', 'q', 'p'>(2)
#define ORD3 reverse<'f'>()
REC(aos0, AOS, ORD0) REC(aos1, AOS, ORD1) REC(aos2, AOS, ORD2) REC(aos3, AOS, ORD3) REC(soa0, SOA, ORD0) REC(soa2, SOA, ORD2) REC(soa3, SOA, ORD3) REC(soar0, SOAR, ORD0) REC(soar2, SOAR, ORD2) REC(aosoa0, AOSOA, ORD0) REC(aosoa1, AOSOA, ORD1) REC(aosoa3, AOSOA, ORD3)
"""
OTHER2 = r"""
// histogram: the values become indices
template<class S, class H, class O> static inline void histo(S s, H h, O o, vp_size n, vp_size m) { Mat A = any<900>(n, m); auto a = make_bag(s); auto r = make_bag(h); FOR(i, n) FOR(j, m) A.v[i][j] = vp_case(A.v[i][j] & 1); put<'i', 'j'>(a.get_ref(), A, n, m);
  (traverser(a) ^ o).for_each([&](auto st) { r[idx<'v'>((vp_size)a[st])]++; });
  u32 c[2] = {}; FOR(i, n) FOR(j, m) c[A.v[i][j]]++;
  vp_check(vp_and((u32)r[idx<'v'>(0)] == c[0], (u32)r[idx<'v'>(1)] == c[1]), "histogram"); }
HARNESS(hist0) { vp_size n = vp_case(ND(1, 2)) + 1, m = 2; histo(scalar<u32>() ^ vector<'i'>(n) ^ vector<'j'>(m), scalar<u32>() ^ array<'v', 2>(), hoist<'i'>(), n, m); }
HARNESS(hist1) { vp_size n = vp_case(ND(1, 2)) + 1, m = 2; histo(scalar<u32>() ^ vector<'j'>(m) ^ vector<'i'>(n) ^ reverse<'i'>(), scalar<u32>() ^ vector<'v'>(2) ^ reverse<'v'>(), into_blocks_dynamic<'i', 'I', 'q', 'p'>(2), n, m); }
// the functions of examples/matrix (int elements; compiled with -fwrapv)
template<class A, class B, class C> static inline void example_mul(A sa, B sb, C sc, vp_size n, vp_size m, vp_size k) { Mat a = any<900>(n, m), b = any<901>(k, n); auto x = make_bag(sa); auto y = make_bag(sb); put<'n', 'm'>(x.get_ref(), a, n, m); put<'n', 'm'>(y.get_ref(), b, k, n); auto r = noarr_matrix_multiply(x, y, sc);
  Mat e; FOR(i, k) FOR(j, m) FOR(l, n) e.v[i][j] += a.v[l][j] * b.v[i][l]; vp_check(has<'n', 'm'>(r, e, k, m), "matrix multiplication of the examples");
  noarr_matrix_scalar_multiplication(r, 7); auto c = noarr_matrix_copy(r, sc); FOR(i, k) FOR(j, m) e.v[i][j] *= 7; vp_check(vp_and(has<'n', 'm'>(r, e, k, m), has<'n', 'm'>(c, e, k, m)), "scalar multiple and copy of the examples"); }
#define EX(nm, LA, LB, LC) HARNESS(ex_##nm) { vp_size n = vp_case(ND(2, 2)), m = vp_case(ND(2, 2)), k = vp_case(ND(2, 2)); vp_assume(all(n <= 2, m <= 2, k <= 2)); example_mul(LA, LB, LC, n, m, k); }
#define RI(a, b) (scalar<int>() ^ vector<'n'>(a) ^ vector<'m'>(b))
#define CI(a, b) (scalar<int>() ^ vector<'m'>(b) ^ vector<'n'>(a))
EX(rrr, RI(n, m), RI(k, n), RI(k, m)) EX(rcr, RI(n, m), CI(k, n), RI(k, m)) EX(crc, CI(n, m), RI(k, n), CI(k, m))
HARNESS(ex_transpose) { vp_size n = vp_case(ND(2, 2)); Mat a = any<900>(n, n), e; auto x = make_bag(RI(n, n)); auto y = make_bag(CI(n, n)); put<'n', 'm'>(x.get_ref(), a, n, n); put<'n', 'm'>(y.get_ref(), a, n, n); noarr_matrix_transpose(x); noarr_matrix_transpose(y); FOR(i, n) FOR(j, n) e.v[i][j] = a.v[j][i]; vp_check(has<'n', 'm'>(x, e, n, n), "transposition"); vp_check(has<'n', 'm'>(y, e, n, n), "transposition, other layout"); }
// static sizes
template<class A, class B, class O> static inline void st_copy(A sa, B sb, O o) { Mat m = any<900>(3, 2), r = any<901>(3, 2); auto a = make_bag(sa); auto b = make_bag(sb); put<'i', 'j'>(a.get_ref(), m, 3, 2); put<'i', 'j'>(b.get_ref(), r, 3, 2); (traverser(a, b) ^ o).for_each([&](auto st) { b[st] += a[st]; }); FOR(i, 3) FOR(j, 2) r.v[i][j] += m.v[i][j]; vp_check(has<'i', 'j'>(b, r, 3, 2), "static sizes: result"); }
#define A0 (scalar<u32>() ^ array<'i', 3>() ^ array<'j', 2>())
#define A1 (scalar<u32>() ^ array<'j', 2>() ^ array<'i', 3>() ^ reverse<'i'>())
#define A2 (scalar<u32>() ^ array<'i', 5>() ^ array<'j', 4>() ^ slice<'i'>(lit<1>, lit<3>) ^ step<'j'>(lit<1>, lit<2>))
#define A3 (scalar<u32>() ^ array<'P', 6>() ^ into_blocks<'P', 'i', 'j'>(lit<2>))
#define A4 (scalar<u32>() ^ array<'i', 3>() ^ array<'t', 2>() ^ array<'j', 2>() ^ fix<'t'>(lit<1>))
#define SC(k, X, Y, ...) HARNESS(st_##k) { st_copy(X, Y, __VA_ARGS__); }
SC(0, A0, A1, hoist<'i'>()) SC(1, A1, A2, into_blocks_static<'i', 'b', 'I', 'q'>(lit<2>)) SC(2, A2, A3, into_blocks_dynamic<'i', 'I', 'q', 'p'>(lit<2>)) SC(3, A3, A4, merge_blocks<'j', 'i', 'm'>()) SC(4, A4, A0, merge_zcurve<'i', 'j', 'z'>::maxlen_alignment<4, 1>()) SC(5, A0, A3, into_blocks<'j', 'J', 'q'>(lit<2>)) SC(6, A2, A1, merge_blocks<'i', 'j', 'm'>() ^ into_blocks_static<'m', 'b', 'M', 'q'>(lit<4>)) SC(7, A3, A2, reorder<'j', 'i'>())
"""
def c24(T):
    rnd = random.Random(24); hs = []
    O2 = list(ords('i', 'j', 'ni', 'nj')); WAYS = ['each', 'pipe', 'plan', 'iter', 'loop', 'dims', 'dims2']
    def way(k, w):
        while w in ('dims', 'dims2') and k in NODIMS or k in ('fixs', 'fixij') and w in ('plan', 'dims', 'dims2', 'loop', 'iter') or k in ('stat', 'statj') and w in ('loop', 'iter'): w = rnd.choice(WAYS)
        return w
    n = 0
    for la in LAYS:                                      # every pair of layouts, orders and ways in turn
        for d, lb in enumerate(LAYS):
            if not T and (LAYS.index(la) + d) % 3: continue
            k = O2[n % len(O2)]; hs.append(h_copy(la, lb, k, way(k, WAYS[(n * 3 + n // 7) % len(WAYS)]), 3)); n += 1
    for k in O2:
        for w in WAYS:
            if way(k, w) == w: hs.append(h_copy(rnd.choice(LAYS), rnd.choice(LAYS), k, w, 3))
    for k in O2: hs.append(h_tr(rnd.choice(LAYS), rnd.choice(LAYS), k))
    for k in O2:
        for w in ('sum', 'bias', 'bc'): hs.append(h_red(rnd.choice(LAYS), k, w))
    for i, k in enumerate(('each', 'hj', 'rev', 'none', 'dyn', 'dyni', 'blk', 'shift', 'm', 'mi', 'sp')): hs.append(h_scan(LAYS[(5 * i) % len(LAYS)], k)); hs.append(h_scan(LAYS[(7 * i + 3) % len(LAYS)], k))
    for i, k in enumerate(O2): hs.append(h_sten(rnd.choice(LAYS), rnd.choice(LAYS), k, ('sym', 'span', 'slice')[i % 3]))
    for i, k in enumerate(MMO):
        for w in ('each', 'abc', 'dims', 'plan', 'nest', 'psec'):
            if w in ('dims', 'nest', 'psec') and (k in MMNOD or w == 'psec' and k not in ('none', 'hj', 'revi', 'stk', 'spk', 'ji')): continue
            if w == 'nest' and k not in ('none', 'hk', 'slk', 'spk', 'fixk'): continue
            hs.append(h_mm(rnd.choice(LAYS), rnd.choice(LAYS), rnd.choice(LAYS), k, w))
    seen = set(); u = []
    for h in hs:
        nm = h.split('(')[1].split(')')[0]
        if nm not in seen: seen.add(nm); u.append(h)
    u += [OTHER]
    u = [h for h in u if h]; return dict(tus=pack_tus('c24_', u, 8, ALGO) + [tu('c24_ex', OTHER2, ALGO, flags=['-fwrapv'])])
