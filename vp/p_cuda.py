"""C15 (striped layout), C16 (GPU traversal); the CUDA built-ins are the repository's own test dummies"""
from .gen import *
CUDA = HEAD + r'''
#include "seq.h"
#include "noarr_test_cuda_dummy.hpp"
#include <noarr/structures/interop/cuda_striped.cuh>
#include <noarr/structures/interop/cuda_traverser.cuh>
#include <noarr/structures/interop/cuda_step.cuh>
using namespace noarr;
'''
STRIPED = r'''
// bytes of elements: b bytes starting at the offsets; cells: BW-byte units
template<std::size_t NS, std::size_t BC, std::size_t BW, std::size_t ES, class Off> static inline void striped(Off off, vp_size i, vp_size j, vp_size a, vp_size b, vp_size z) {
  vp_size oa = off(i, a), ob = off(j, b); bool same = vp_and(i == j, a == b);
  vp_check(vp_or(same, vp_or(oa + ES <= ob, ob + ES <= oa)), "elements are disjoint"); vp_check(vp_or(!same, oa == ob), "same element");
  vp_check(oa + ES <= z, "inside the reported size");
  vp_check(vp_or(a == b, vp_or((oa + ES - 1) / BW < ob / BW, (ob + ES - 1) / BW < oa / BW)), "no memory cell holds data of two stripes");
  if constexpr ((BC / NS) * BW >= ES) {       // possible without conflicts
    vp_size p = ND(3, 3), q = ND(3, 3); vp_size ca = oa / BW + p, cb = ob / BW + q; vp_assume(ca <= (oa + ES - 1) / BW); vp_assume(cb <= (ob + ES - 1) / BW);
    vp_check(vp_or(a == b, ca % BC != cb % BC), "no bank holds data of two stripes");
  }
  vp_size d0 = off(i, a + 1) - oa, d1 = off(j, b + 1) - ob; vp_check(vp_or(!vp_and(a + 1 < NS, b + 1 < NS), d0 == d1), "constant distance between neighbouring stripes");
}
template<std::size_t NS, class S> static inline void threads(S s, vp_size i) {
  unsigned t = (unsigned)ND(12, 16), n = (unsigned)ND(12, 16), r = (unsigned)ND(12, 16); vp_assume(t < n); threadIdx.x = t; blockDim.x = n;
  vp_check((s | offset(idx<'x'>(i))) == (s | offset(idx<'x'>(i) & cuda_stripe_idx(t % NS))), "the stripe of a thread"); vp_check(S::current_stripe_index() == t % NS, "current_stripe_index"); vp_check(S::num_stripes() == NS, "num_stripes");
  auto cg = S::current_stripe_cg(); vp_size st = t % NS; vp_check(cg.thread_rank() < cg.num_threads(), "rank is less than the number of threads"); vp_check(cg.thread_rank() * NS + st == t, "rank enumerates the stripe's threads");
  vp_check((r < cg.num_threads()) == ((vp_size)r * NS + st < n), "number of threads of the stripe");
}
'''
def c15(T):
    hs = []
    conf = [('int', 32), ('int', 1), ('int', 8), ('int', 5), ('int', 33), ('double', 32), ('double', 16), ('double', 3), ('short', 32), ('short', 8), ('char', 32), ('char', 3), ('char', 7), ('int', 31), ('int', 64), ('double', 24)]
    SZ = {'int': 4, 'double': 8, 'short': 2, 'char': 1}
    def h(name, elem, es, struct, ns, bc=32, bw=4, arg=None, n='n', bits=(6, 10), type_=''):
        args = ', '.join([str(ns)] + ([type_] if type_ else []) + ([str(bc), str(bw)] if (bc, bw) != (32, 4) else []))
        return f'''
HARNESS(d_{name}) {{ vp_size n = ND({bits[0]}, {bits[1]}), i = ND({bits[0]}, {bits[1]}), j = ND({bits[0]}, {bits[1]}), a = ND(6, 6), b = ND(6, 6); vp_assume(all(i < n, j < n, a < {ns}, b < {ns}));
  auto s = {struct} ^ cuda_striped<{args}>(); vp_check((s | get_length<'x'>()) == n, "length");
  striped<{ns}, {bc}, {bw}, {es}>([&](vp_size x, vp_size st) {{ return (vp_size)(s | offset{elem}(idx<'x'>(x) & cuda_stripe_idx(st))); }}, i, j, a, b, s | get_size()); }}
HARNESS(t_{name}) {{ vp_size n = ND(8, 12), i = ND(8, 12); vp_assume(i < n); auto s = {struct} ^ cuda_striped<{args}>(); {f'threads<{ns}>(s, i);' if not elem else 'vp_check(true, "reached");'} }}
''' + conflicts(name, elem, es, struct, args, ns, bc, bw, bits)
    def conflicts(name, elem, es, struct, args, ns, bc, bw, bits):
        # the documented bound: at most max_conflict_size stripes share a bank
        w = (bc // ns) * bw
        spw = -(-es // bw) * bw if w < es else w
        mc = -(-spw * ns // (bc * bw))
        if mc == 1 or mc > (3 if T else 2): return f'static_assert(decltype({struct.replace("(n)", "(vp_size())")} ^ cuda_striped<{args}>())::max_conflict_size == {mc});\n'
        k = mc + 1; r = range(k)
        return f'''
HARNESS(c_{name}) {{ vp_size n = ND(3, 4); auto s = {struct} ^ cuda_striped<{args}>(); vp_check(s.max_conflict_size == {mc}, "fewest conflicts"); vp_size bank = ND(6, 6);
''' + ''.join(f'  vp_size i{q} = ND(3, 4), a{q} = ND(6, 6), p{q} = ND(2, 2); vp_assume(vp_and(i{q} < n, a{q} < {ns})); vp_size o{q} = s | offset{elem}(idx<\'x\'>(i{q}) & cuda_stripe_idx(a{q})); vp_size c{q} = o{q} / {bw} + p{q}; vp_assume(c{q} <= (o{q} + {es - 1}) / {bw});\n' for q in r) + f'''
  vp_assume(all({', '.join(f'a{q} < a{q + 1}' for q in r if q + 1 < k)})); vp_check(!all({', '.join(f'c{q} % {bc} == bank' for q in r)}), "at most max_conflict_size stripes share a bank"); }}
'''
    for ty, ns in conf: hs.append(h(f'{ty}_{ns}', '', SZ[ty], f"scalar<{ty}>() ^ vector<'x'>(n)", ns))
    for ty, ns, bc, bw in [('int', 4, 16, 4), ('short', 4, 8, 8), ('double', 2, 32, 8), ('char', 5, 16, 2), ('int', 3, 10, 4), ('short', 6, 5, 4), ('int', 2, 8, 6)]: hs.append(h(f'{ty}_{ns}_{bc}_{bw}', '', SZ[ty], f"scalar<{ty}>() ^ vector<'x'>(n)", ns, bc, bw))
    hs.append(h('arr', "<scalar<int>>", 12, "scalar<int>() ^ array<'e', 3>() ^ vector<'x'>(n)", 8, type_="decltype(scalar<int>() ^ array<'e', 3>())").replace("offset<scalar<int>>", "offset<decltype(scalar<int>() ^ array<'e', 3>())>"))
    hs.append(h('arr5', "<scalar<short>>", 10, "scalar<short>() ^ array<'e', 5>() ^ vector<'x'>(n)", 16, type_="decltype(scalar<short>() ^ array<'e', 5>())").replace("offset<scalar<short>>", "offset<decltype(scalar<short>() ^ array<'e', 5>())>"))
    hs.append(r'''
HARNESS(two_dims) { vp_size n = ND(4, 6), m = ND(3, 4), x = ND(4, 6), y = ND(3, 4), x2 = ND(4, 6), y2 = ND(3, 4), a = ND(4, 4), b = ND(4, 4); vp_assume(all(x < n, x2 < n, y < m, y2 < m, a < 12, b < 12));
  auto o = scalar<short>() ^ vector<'x'>(n) ^ vector<'y'>(m); auto s = o ^ cuda_striped<12>(); vp_size z = s | get_size();
  vp_check(all((s | get_length<'x'>()) == n, (s | get_length<'y'>()) == m), "lengths"); vp_size p = s | offset(idx<'x', 'y'>(x, y) & cuda_stripe_idx(a)), q = s | offset(idx<'y', 'x'>(y2, x2) & cuda_stripe_idx(b));
  vp_check(vp_or(all(x == x2, y == y2, a == b), vp_or(p + 2 <= q, q + 2 <= p)), "elements are disjoint"); vp_check(p + 2 <= z, "inside the reported size"); vp_check(vp_or(a == b, p / 4 != q / 4), "no cell holds data of two stripes"); vp_check(vp_or(a == b, p / 4 % 32 != q / 4 % 32), "no bank holds data of two stripes");
}
HARNESS(views) { vp_size n = ND(6, 8), i = ND(6, 8), k = ND(6, 8), a = ND(3, 3); vp_assume(k <= n); vp_assume(i < n - k); vp_assume(a < 8);
  auto s = scalar<int>() ^ vector<'x'>(n) ^ cuda_striped<8>(); vp_check((s ^ shift<'x'>(k) | offset(idx<'x'>(i) & cuda_stripe_idx(a))) == (s | offset(idx<'x'>(i + k) & cuda_stripe_idx(a))), "view of a striped structure"); vp_check((s ^ fix<'x'>(i) | offset(cuda_stripe_idx(a))) == (s | offset(idx<'x'>(i) & cuda_stripe_idx(a))), "fixed"); vp_check((s ^ shift<'x'>(k) | get_size()) == (s | get_size()), "size"); vp_check((s | offset(idx<'x'>(i) & cuda_stripe_idx(lit<3>))) == (s | offset(idx<'x'>(i) & cuda_stripe_idx(3))), "static stripe index"); }
HARNESS(fixed_size) { vp_size i = ND(8, 8), j = ND(8, 8), a = ND(5, 5), b = ND(5, 5); vp_assume(all(i < 100, j < 100)); auto s = scalar<double>() ^ array<'x', 100>() ^ cuda_striped<32>(); auto r = scalar<double>() ^ vector<'x'>(100) ^ cuda_striped<32>();
  vp_check((s | offset(idx<'x'>(i) & cuda_stripe_idx(a))) == (r | offset(idx<'x'>(i) & cuda_stripe_idx(a))), "static length"); vp_check((s | get_size()) == (r | get_size()), "static size"); vp_check((s | offset(idx<'x'>(i) & cuda_stripe_idx(a))) + 8 <= (s | get_size()), "inside"); }
HARNESS(in_tuple) { vp_size n = ND(6, 8), i = ND(6, 8), a = ND(3, 3); vp_assume(i < n); auto s = scalar<int>() ^ vector<'x'>(n) ^ cuda_striped<8>(); auto t = pack(s, scalar<int>()) ^ tuple<'t'>();
  vp_check((t | get_size()) == (s | get_size()) + 4, "size of a tuple with a striped field"); vp_check((t | offset(idx<'t', 'x'>(lit<0>, i) & cuda_stripe_idx(a))) == (s | offset(idx<'x'>(i) & cuda_stripe_idx(a))), "striped field"); vp_check((t | offset<'t'>(lit<1>)) == (s | get_size()), "field after a striped one"); vp_check(decltype(s.align(empty_state))::value == 4, "alignment"); vp_check(decltype((scalar<char>() ^ vector<'x'>(n) ^ cuda_striped<8>()).align(empty_state))::value == 4, "alignment is at least the bank width"); vp_check(decltype((scalar<double>() ^ vector<'x'>(n) ^ cuda_striped<8>()).align(empty_state))::value == 8, "alignment is at least the element's"); }
''')
    return dict(tus=pack_tus('c15_', [STRIPED_ONCE(h) for h in hs], 3, CUDA + STRIPED, stubs=['stubs/cuda']))
def STRIPED_ONCE(h): return h

def c16(T):
    b2 = '(2, 3)'
    def run(name, n_dims, struct, order, threads, mapped, rest, decls, off, lens):
        """mapped: [(dim, coordinate)]; rest: remaining dims in order (oracle loops); lens: dim -> length expr"""
        t = f'HARNESS({name}) {{ {decls}\n  auto s = {struct}; auto t = traverser(s){order}; auto c = cuda_threads<{threads}>(t);\n'
        g = {'x': '1', 'y': '1', 'z': '1'}; b = dict(g)
        for d, co in mapped:
            k, ax = co.split('.'); (g if k == 'blockIdx' else b)[ax] = lens[d]
        t += '  auto gd = c.grid_dim(); auto bd = c.block_dim();\n'
        t += f'  vp_check(all({", ".join(f"gd.{a} == {v}" for a, v in g.items())}), "{name}: grid dimensions"); vp_check(all({", ".join(f"bd.{a} == {v}" for a, v in b.items())}), "{name}: block dimensions");\n'
        t += f'  vp_check((bool)c == all({", ".join(f"{lens[d]} != 0" for d, _ in mapped)}), "{name}: empty launch");\n'
        for d, co in mapped: t += f'  vp_size {co.replace(".", "_")} = {nd((2, 3))}; vp_assume({co.replace(".", "_")} < {lens[d]}); {co} = (uint){co.replace(".", "_")};\n'
        t += f'  vp_size K = {nd((5, 8))}; Seq<{", ".join(repr(d) for d in n_dims)}> got(K), want(K);\n  auto in = c.inner(); in.for_each([&](auto st) {{ got.at(st, s | offset(st)); }});\n'
        idx = {d: co.replace('.', '_') for d, co in mapped}
        for d in rest: t += f'  FOR(r_{d}, {lens[d]}) '; idx[d] = f'r_{d}'
        t += f'  want.put({", ".join(off(idx)[0][d] for d in n_dims)}, {off(idx)[1]});\n  SAME(got, want, "{name}");\n'
        return t + '}\n'
    D = lambda *v, b=(2, 3): ' '.join(f'vp_size {x} = {nd(b)};' for x in v)
    hs = [CUT]
    ident = lambda dims, sizes: (lambda i: ({d: i[d] for d in dims}, ' + '.join(f"{i[d]} * {sizes[d]}" for d in dims)))
    v2 = "scalar<int>() ^ vector<'x'>(n) ^ vector<'y'>(m)"; z2 = {'x': '4', 'y': '(4 * n)'}
    hs.append(run('xy', 'xy', v2, '', "'x', 'y'", [('x', 'blockIdx.x'), ('y', 'threadIdx.x')], [], D('n', 'm'), ident('xy', z2), {'x': 'n', 'y': 'm'}))
    hs.append(run('yx', 'xy', v2, '', "'y', 'x'", [('y', 'blockIdx.x'), ('x', 'threadIdx.x')], [], D('n', 'm'), ident('xy', z2), {'x': 'n', 'y': 'm'}))
    v3 = v2 + " ^ vector<'z'>(o)"; z3 = {**z2, 'z': '(4 * n * m)'}; l3 = {'x': 'n', 'y': 'm', 'z': 'o'}
    hs.append(run('rest_z', 'xyz', v3, '', "'y', 'x'", [('y', 'blockIdx.x'), ('x', 'threadIdx.x')], ['z'], D('n', 'm', 'o'), ident('xyz', z3), l3))
    hs.append(run('rest_x', 'xyz', v3, '', "'z', 'y'", [('z', 'blockIdx.x'), ('y', 'threadIdx.x')], ['x'], D('n', 'm', 'o'), ident('xyz', z3), l3))
    v4 = v3 + " ^ vector<'w'>(p)"; z4 = {**z3, 'w': '(4 * n * m * o)'}; l4 = {**l3, 'w': 'p'}
    hs.append(run('two', 'xyzw', v4, '', "'x', 'y', 'z', 'w'", [('x', 'blockIdx.x'), ('y', 'threadIdx.x'), ('z', 'blockIdx.y'), ('w', 'threadIdx.y')], [], D('n', 'm', 'o', 'p'), ident('xyzw', z4), l4))
    hs.append(run('rest2', 'xyzw', v4, '', "'w', 'x'", [('w', 'blockIdx.x'), ('x', 'threadIdx.x')], ['z', 'y'], D('n', 'm', 'o', 'p', b=(2, 2)), ident('xyzw', z4), l4))
    hs.append(run('rest2h', 'xyzw', v4, " ^ hoist<'y'>()", "'w', 'x'", [('w', 'blockIdx.x'), ('x', 'threadIdx.x')], ['y', 'z'], D('n', 'm', 'o', 'p', b=(2, 2)), ident('xyzw', z4), l4))
    v6 = v4 + " ^ vector<'u'>(q) ^ vector<'v'>(r)"; z6 = {**z4, 'u': '(4 * n * m * o * p)', 'v': '(4 * n * m * o * p * q)'}; l6 = {**l4, 'u': 'q', 'v': 'r'}
    hs.append(run('three', 'xyzwuv', v6, '', "'x', 'y', 'z', 'w', 'u', 'v'", [('x', 'blockIdx.x'), ('y', 'threadIdx.x'), ('z', 'blockIdx.y'), ('w', 'threadIdx.y'), ('u', 'blockIdx.z'), ('v', 'threadIdx.z')], [], D('n', 'm', 'o', 'p', 'q', 'r', b=(2, 3)), ident('xyzwuv', z6), l6))
    v7 = v6 + " ^ vector<'s'>(k)"; z7 = {**z6, 's': '(4 * n * m * o * p * q * r)'}; l7 = {**l6, 's': 'k'}
    hs.append(run('three1', 'xyzwuvs', v7, '', "'v', 'y', 'z', 'w', 'u', 'x'", [('v', 'blockIdx.x'), ('y', 'threadIdx.x'), ('z', 'blockIdx.y'), ('w', 'threadIdx.y'), ('u', 'blockIdx.z'), ('x', 'threadIdx.z')], ['s'], D('n', 'm', 'o', 'p', 'q', 'r', 'k', b=(2, 2)), ident('xyzwuvs', z7), l7))
    # blocked dimensions
    blk = lambda L: (lambda i: ({'x': f"({i['X']} * {L} + {i['q']})"}, f"({i['X']} * {L} + {i['q']}) * 4"))
    hs.append(run('blocks', 'x', "scalar<int>() ^ vector<'x'>(n)", " ^ into_blocks<'x', 'X', 'q'>(L)", "'X', 'q'", [('X', 'blockIdx.x'), ('q', 'threadIdx.x')], [], D('n') + f' vp_size L = {nd((2, 2))}; vp_assume(L != 0); vp_assume(n % L == 0);', blk('L'), {'X': '(n / L)', 'q': 'L'}))
    blky = lambda L: (lambda i: ({'x': f"({i['X']} * {L} + {i['q']})", 'y': i['y']}, f"({i['X']} * {L} + {i['q']}) * 4 + {i['y']} * 4 * n"))
    hs.append(run('blocks2', 'xy', v2, " ^ into_blocks<'x', 'X', 'q'>(lit<2>)", "'X', 'q'", [('X', 'blockIdx.x'), ('q', 'threadIdx.x')], ['y'], D('n', 'm') + ' vp_assume(n % 2 == 0);', blky('2'), {'X': '(n / 2)', 'q': '2', 'y': 'm'}))
    hs.append(run('dynamic', 'x', "scalar<int>() ^ vector<'x'>(n)", " ^ into_blocks_dynamic<'x', 'X', 'q', 'p'>(L)", "'X', 'q'", [('X', 'blockIdx.x'), ('q', 'threadIdx.x')], ['p'], D('n', b=(3, 4)) + f' vp_size L = {nd((2, 3))}; vp_assume(L != 0);', blk('L'), {'X': '((n + L - 1) / L)', 'q': 'L', 'p': '(vp_size)(blockIdx_x * L + threadIdx_x < n)'}))
    tile = lambda i: ({'x': f"({i['X']} * 2 + {i['q']})", 'y': f"({i['Y']} * 3 + {i['r']})"}, f"({i['X']} * 2 + {i['q']}) * 4 + ({i['Y']} * 3 + {i['r']}) * 4 * n")
    hs.append(run('tile', 'xy', v2, " ^ into_blocks<'x', 'X', 'q'>(lit<2>) ^ into_blocks<'y', 'Y', 'r'>(lit<3>)", "'X', 'q', 'Y', 'r'", [('X', 'blockIdx.x'), ('q', 'threadIdx.x'), ('Y', 'blockIdx.y'), ('r', 'threadIdx.y')], [], D('n', 'm', b=(3, 4)) + ' vp_assume(n % 2 == 0); vp_assume(m % 3 == 0);', tile, {'X': '(n / 2)', 'q': '2', 'Y': '(m / 3)', 'r': '3'}))
    shf = lambda i: ({'x': f"({i['x']} + k)", 'y': f"(m - 1 - {i['y']})"}, f"({i['x']} + k) * 4 + (m - 1 - {i['y']}) * 4 * n")
    hs.append(run('views', 'xy', v2, " ^ shift<'x'>(k) ^ reverse<'y'>()", "'y', 'x'", [('y', 'blockIdx.x'), ('x', 'threadIdx.x')], [], D('n', 'm', 'k') + ' vp_assume(k <= n);', shf, {'x': '(n - k)', 'y': 'm'}))
    bc = lambda i: ({'b': i['b'], 'x': i['x'], 'y': i['y']}, f"{i['x']} * 4 + {i['y']} * 4 * n")
    hs.append(run('bcast', 'bxy', v2, " ^ bcast<'b'>(k)", "'b', 'x'", [('b', 'blockIdx.x'), ('x', 'threadIdx.x')], ['y'], D('n', 'm', 'k'), (lambda i: ({'b': '9999', 'x': i['x'], 'y': i['y']}, bc(i)[1])), {'b': 'k', 'x': 'n', 'y': 'm'}))
    mrg = lambda i: ({'x': f"({i['m']} % n)", 'y': f"({i['m']} / n)", 'z': i['z']}, f"{i['m']} * 4 + {i['z']} * 4 * n * m")
    hs.append(run('merged', 'xyz', v3, " ^ merge_blocks<'y', 'x', 'm'>()", "'z', 'm'", [('z', 'blockIdx.x'), ('m', 'threadIdx.x')], [], D('n', 'm', 'o', b=(2, 2)) + ' vp_assume(n != 0);', mrg, {'m': '(n * m)', 'z': 'o'}))
    hs.append(OTHER16)
    return dict(tus=pack_tus('c16_', hs, 3, CUDA, stubs=['stubs/cuda']))
CUT = ''
OTHER16 = r'''
// inner traverser: sections, state and offsets of the thread's part
HARNESS(inner_state) { vp_size n = ND(2, 3), m = ND(2, 3), o = ND(2, 3), b = ND(2, 3), t = ND(2, 3), z = ND(2, 3); vp_assume(all(b < m, t < n, z < o)); blockIdx.x = (uint)b; threadIdx.x = (uint)t;
  auto s = scalar<int>() ^ vector<'x'>(n) ^ vector<'y'>(m) ^ vector<'z'>(o); auto in = cuda_threads<'y', 'x'>(traverser(s)).inner(); auto st = in.state(); vp_check(vp_and(get_index<'y'>(st) == b, get_index<'x'>(st) == t), "state of the thread");
  vp_check((s ^ fix(st) | offset<'z'>(z)) == 4 * (t + n * (b + m * z)), "structure of the thread"); vp_check((in.top_struct() | get_length<'z'>()) == o, "remaining length");
  vp_size c = 0, bad = 0; in.for_sections<'z'>([&](auto sec) { auto q = sec.state(); bad += !all(get_index<'x'>(q) == t, get_index<'y'>(q) == b, get_index<'z'>(q) == c); c++; sec.for_each([&](auto r) { bad += get_index<'z'>(r) != c - 1; }); }); vp_check(vp_and(c == o, bad == 0), "sections of the thread");
  auto in2 = cuda_threads<'y', 'x'>(traverser(s)).inner() ^ shift<'z'>(lit<0>) ; vp_size c2 = 0; in2.for_each([&](auto) { c2++; }); vp_check(c2 == o, "further order");
}
// every index is covered by exactly one (block, thread) pair of the launch
HARNESS(cover) { vp_size n = ND(3, 4), L = ND(2, 3), i = ND(3, 4); vp_assume(L != 0); vp_assume(i < n); auto s = scalar<int>() ^ vector<'x'>(n); auto c = cuda_threads<'X', 'q'>(traverser(s) ^ into_blocks_dynamic<'x', 'X', 'q', 'p'>(L)); auto g = c.grid_dim(); auto b = c.block_dim();
  vp_check(vp_and(i / L < g.x, i % L < b.x), "the pair is launched"); blockIdx.x = (uint)(i / L); threadIdx.x = (uint)(i % L); vp_size hit = 0, others = 0; c.inner().for_each([&](auto st) { if (get_index<'x'>(st) == i) hit++; else others++; }); vp_check(vp_and(hit == 1, others == 0), "covered by its pair");
  vp_size X = ND(3, 4), q = ND(2, 3); vp_assume(X < g.x); vp_assume(q < b.x); vp_assume(!vp_and(X == i / L, q == i % L)); blockIdx.x = (uint)X; threadIdx.x = (uint)q; vp_size again = 0; c.inner().for_each([&](auto st) { again += get_index<'x'>(st) == i; }); vp_check(again == 0, "and by no other pair"); }
HARNESS(big) { vp_size n = ND(31, 32), m = ND(31, 32), b = ND(31, 32), t = ND(31, 32); vp_assume(vp_and(b < m, t < n)); auto s = scalar<int>() ^ vector<'x'>(n) ^ vector<'y'>(m); auto c = cuda_threads<'y', 'x'>(traverser(s)); blockIdx.x = (uint)b; threadIdx.x = (uint)t;
  vp_check(vp_and(c.grid_dim().x == m, c.block_dim().x == n), "32-bit launch dimensions"); vp_size off = 0, cnt = 0; c.inner().for_each([&](auto st) { off = s | offset(st); cnt++; }); vp_check(vp_and(cnt == 1, off == (b * n + t) * 4), "32-bit coordinates do not overflow the offset"); }
struct group { vp_size r, n; vp_size thread_rank() const { return r; } vp_size num_threads() const { return n; } };
struct sgroup { static inline vp_size r, n; static vp_size thread_rank() { return r; } static vp_size num_threads() { return n; } };
#define STEP(name, expr, dim, setup) HARNESS(step_##name) { vp_size n = ND(3, 4), m = ND(2, 2), N = ND(3, 4), R = ND(3, 4), K = ND(5, 6); vp_assume(R < N); setup; \
  auto s = scalar<int>() ^ vector<'x'>(n) ^ vector<'y'>(m); Seq<'x', 'y'> got(K), want(K); (traverser(s) ^ expr).for_each([&](auto st) { got.at(st, s | offset(st)); }); \
  FOR(y, m) FOR(x, n) if ((dim) % N == R) want.put(x, y, (x + y * n) * 4); SAME(got, want, "cuda_step " #name); }
STEP(cg_x, cuda_step<'x'>(group{R, N}), x, ) STEP(cg_y, cuda_step<'y'>(group{R, N}), y, ) STEP(cg, cuda_step(group{R, N}), y, )
STEP(scg_x, (cuda_step<'x', sgroup>()), x, (sgroup::r = R, sgroup::n = N)) STEP(scg, cuda_step<sgroup>(), y, (sgroup::r = R, sgroup::n = N))
STEP(block_x, cuda_step_block<'x'>(), x, (::cooperative_groups::thread_block::r = (unsigned)R, ::cooperative_groups::thread_block::n = (unsigned)N)) STEP(block, cuda_step_block(), y, (::cooperative_groups::thread_block::r = (unsigned)R, ::cooperative_groups::thread_block::n = (unsigned)N))
STEP(grid_x, cuda_step_grid<'x'>(), x, (::cooperative_groups::grid_group::r = R, ::cooperative_groups::grid_group::n = N)) STEP(grid, cuda_step_grid(), y, (::cooperative_groups::grid_group::r = R, ::cooperative_groups::grid_group::n = N))
'''
