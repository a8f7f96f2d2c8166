"""C05: z-curve merging"""
from .gen import *
from .gen import tu, pack_tus

def zc(dims, maxlen, align, bits, tag, ty='int', order=None, elig=True, types=None):
    """lengths n_d <= maxlen, multiples of align; bits: width of the length/index inputs"""
    n = len(dims); A = align; k = A.bit_length() - 1
    lay = f'noarr::scalar<{ty}>()' + ''.join(f" ^ noarr::vector<'{d}'>(n{d})" for d in (order or dims))
    q = ', '.join(f"'{d}'" for d in dims)
    proto = f"noarr::merge_zcurve<{q}, 'Z'>::template maxlen_alignment<{maxlen}, {A}>()"
    ln = ''.join(f'  vp_size n{d} = {nd(bits)}; vp_assume(n{d} <= {maxlen}); vp_assume(n{d} % {A} == 0); vp_assume(n{d} != 0);\n' for d in dims)
    prod = ' * '.join('n' + d for d in dims); zb = (bits[0] * n, bits[1] * n)
    def ind(p): return ''.join(f", {p}{d} = (vp_size){p}.template get<noarr::index_in<'{d}'>>()" for d in dims)[2:]
    get = lambda p, z: f"  auto {p} = noarr::state_at<decltype(o)>(s, noarr::idx<'Z'>({z})); vp_size {ind(p)};\n"
    t = f'HARNESS(z_{tag}) {{\n{ln}  auto o = {lay}; auto s = o ^ {proto};\n'
    t += f"  vp_check((s | noarr::get_length<'Z'>()) == {prod}, \"merged length\");\n"
    t += f'  vp_check((s | noarr::get_size()) == {prod} * sizeof({ty}), "size is unchanged");\n'
    t += f'  vp_size z = {nd(zb)}, w = {nd(zb)}; vp_assume(z < {prod}); vp_assume(w < {prod});\n' + get('a', 'z') + get('b', 'w')
    t += f"  vp_check(all({', '.join(f'a{d} < n{d}' for d in dims)}), \"indices are valid\");\n"
    t += f"  vp_check(vp_or(z == w, !all({', '.join(f'a{d} == b{d}' for d in dims)})), \"each tuple once\");\n"
    t += f"  vp_check((s | noarr::offset<'Z'>(z)) == (o | noarr::offset<{q}>({', '.join('a' + d for d in dims)})), \"offset of the merged index\");\n"
    if A > 1:
        t += f"  vp_check(vp_or((z >> {k * n}) != (w >> {k * n}), all({', '.join(f'(a{d} >> {k}) == (b{d} >> {k})' for d in dims)})), \"aligned blocks stay contiguous\");\n"
        for i, d in enumerate(dims):
            m = ' | '.join(f'(((z >> {x * n + n - 1 - i}) & 1) << {x})' for x in range(k))
            t += f'  vp_check((a{d} & {A - 1}) == ({m}), "Morton order inside an aligned block");\n'
    return t + '}\n'

def morton(dims, lev, align, tag, wide=False):
    """equal power-of-two lengths 2^lev: bit interleaving, first dimension most significant"""
    n = len(dims); q = ', '.join(f"'{d}'" for d in dims); A = align; N = 1 << lev
    lay = 'noarr::scalar<char>()' + ''.join(f" ^ noarr::bcast<'{d}'>(N)" for d in dims)
    t = f'HARNESS(m_{tag}) {{\n  vp_size N = (vp_size)1 << {lev}; vp_size z = vp_nondet(__COUNTER__, {lev * n});\n'
    t += f"  auto o = {lay}; auto s = o ^ noarr::merge_zcurve<{q}, 'Z'>::template maxlen_alignment<((vp_size)1 << {lev}), ((vp_size)1 << {A})>();\n"
    t += f"  auto a = noarr::state_at<decltype(o)>(s, noarr::idx<'Z'>(z));\n"
    for i, d in enumerate(dims):
        m = ' | '.join(f'(((z >> {x * n + n - 1 - i}) & 1) << {x})' for x in range(lev)) or '(vp_size)0'
        t += f"  vp_check((vp_size)a.template get<noarr::index_in<'{d}'>>() == ({m}), \"Morton order\");\n"
    return t + '}\n'

def c05(T):
    hs = [
        zc('xy', 8, 1, (4, 4), 'xy8'), zc('xy', 16, 1, (4, 5), 'xy16'), zc('xy', 16, 4, (4, 5), 'xy16a4'), zc('xy', 8, 8, (4, 4), 'xy8a8'), zc('xy', 16, 2, (4, 5), 'xy16a2', order='yx', ty='double'),
        zc('xyz', 4, 1, (3, 3), 'xyz4'), zc('xyz', 8, 2, (4, 4), 'xyz8a2'), zc('xyz', 8, 4, (4, 4), 'xyz8a4', order='zxy'), zc('xyzw', 4, 2, (3, 3), 'xyzw4a2'), zc('xyzw', 2, 1, (2, 2), 'xyzw2'), zc('x', 8, 1, (4, 4), 'x8'), zc('x', 16, 4, (5, 5), 'x16a4'), zc('xy', 1, 1, (1, 1), 'xy1'),
        zc('xy', 64, 16, (7, 7), 'xy64a16'),
        morton('xy', 4, 0, 'xy4_0'), morton('xy', 8, 0, 'xy8_0'), morton('xy', 8, 3, 'xy8_3'), morton('xy', 15, 15, 'xy15_15'), morton('xy', 16, 16, 'xy16_16'), morton('xy', 20, 18, 'xy20_18'), morton('xy', 31, 31, 'xy31_31'), morton('xyz', 5, 2, 'xyz5_2'), morton('xyz', 10, 10, 'xyz10_10'), morton('xyz', 11, 11, 'xyz11_11'), morton('xyz', 20, 20, 'xyz20_20'), morton('xyzw', 8, 8, 'xyzw8_8'), morton('xyzw', 12, 10, 'xyzw12_10'), morton('x', 9, 9, 'x9_9'), morton('x', 9, 4, 'x9_4'), morton('xyzwu', 6, 4, 'xyzwu6_4'), morton('xyzwuv', 6, 6, 'v6_6'), morton('xyzwuvt', 3, 2, 'v7_3_2'), morton('xyzwuvts', 4, 4, 'v8_4_4'),
    ]
    if T: hs += [zc('xy', 32, 1, (6, 6), 'xy32'), zc('xyz', 8, 1, (4, 4), 'xyz8'), zc('xyzw', 8, 4, (4, 4), 'xyzw8a4'), morton('xyz', 8, 0, 'xyz8_0'), morton('xy', 16, 0, 'xy16_0'), morton('xyzw', 6, 0, 'xyzw6_0')]
    hs.append(r"""
HARNESS(z_mixed) { vp_size nx = ND(3, 4), ny = ND(3, 4), nt = ND(2, 3); vp_assume(nx <= 8); vp_assume(ny <= 8); vp_assume(nx != 0); vp_assume(ny != 0);
  auto o = noarr::scalar<short>() ^ noarr::vector<'x'>(nx) ^ noarr::vector<'t'>(nt) ^ noarr::vector<'y'>(ny); auto s = o ^ noarr::merge_zcurve<'x', 'y', 'x'>::maxlen_alignment<8, 1>();
  vp_size z = ND(6, 8), t = ND(2, 3); vp_assume(z < nx * ny); vp_assume(t < nt);
  auto a = noarr::state_at<decltype(o)>(s, noarr::idx<'x', 't'>(z, t));
  vp_size ax = a.get<noarr::index_in<'x'>>(), ay = a.get<noarr::index_in<'y'>>(), at = a.get<noarr::index_in<'t'>>();
  vp_check(at == t, "other dimensions are unaffected"); vp_check((s | noarr::get_length<'t'>()) == nt, "other lengths are unaffected");
  vp_check((s | noarr::get_length<'x'>()) == nx * ny, "merged length under an old name");
  vp_check((s | noarr::offset<'x', 't'>(z, t)) == ((ay * nt + t) * nx + ax) * 2, "offset");
}
HARNESS(z_static) { vp_size z = ND(5, 5); auto o = noarr::scalar<int>() ^ noarr::array<'x', 4>() ^ noarr::array<'y', 8>(); auto s = o ^ noarr::merge_zcurve<'x', 'y', 'z'>::maxlen_alignment<8, 4>();
  vp_size nx = 4, ny = 8; auto d = noarr::scalar<int>() ^ noarr::vector<'x'>(nx) ^ noarr::vector<'y'>(ny) ^ noarr::merge_zcurve<'x', 'y', 'z'>::maxlen_alignment<8, 4>();
  vp_check((s | noarr::get_length<'z'>()) == 32, "length"); vp_check((s | noarr::offset<'z'>(z)) == (d | noarr::offset<'z'>(z)), "static lengths");
}
""")
    return dict(tus=pack_tus('c05_', hs, 5), budget_quick=600,
        bounds=['general curve: 1-4 dimensions, every combination of lengths up to the declared maximum (2, 4, 8, 16, 64; thorough 32 for two dimensions) that is a multiple of the declared alignment (1, 2, 4, 8, 16), every pair of merged indices',
                'Morton order: 1-8 dimensions, equal lengths 2^k with up to 62 bits of merged index, every merged index'],
        outside=['larger maxima with non-power-of-two lengths', 'more than 8 merged dimensions'],
        assumptions=['lengths are non-zero, at most the declared maximum and multiples of the declared alignment, as merge_zcurve requires'])
