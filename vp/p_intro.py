"""C12: layout introspection (stride_along, offset_along, lower_bound_along/at, is_contiguous, is_uniform_along)"""
from .gen import *
from .chains import chains, DIV
from . import props as P

B = (3, 4)
def stx(idx, lens, without=()):
    return st_expr({d: v for d, v in idx.items() if d not in without}, lens)

def h_along(name, m, bits=B, lens=None, sum_=True, diff_skip=(), lb=True, pre=None, fixed=(), stride=None):
    out = ''
    for bi, (st, dims) in enumerate(m.branches()):
        dyn = [d for d in dims if d not in st]
        t = f'HARNESS({name}_{bi}) {{\n' + decl(m, bits, lens) + (pre or '') + assume(m, lens) + f'  auto s_ = {m.cpp}; [&](auto s) {{ using S = decltype(s);\n'
        it, idx = indices(m, st, dims, 'i_', bits, lens); t += it
        full = st_expr(idx, lens)
        t += f'  auto st = {full}; auto base = {st_expr(st, lens)}; (void)base; vp_size o = s | noarr::offset(st);\n'
        # stride and variation of the offset along each dimension
        for d in dyn:
            if d in diff_skip: continue
            jdx = {**idx, d: f'j_{d}'}
            others = {x: v for x, v in idx.items() if x != d}
            t += f'  {{ vp_size j_{d} = {nd(bits)}; vp_assume(j_{d} < {m.lens[d](jdx)});\n'
            t += f'    auto sj = {st_expr(jdx, lens)}; vp_size oj = s | noarr::offset(sj); auto rest = {st_expr(others, lens)};\n'
            for w, q in () if stride is not None and d not in stride else (('rest', 'with the other indices'), ('base', 'without the other indices')):
                t += f"    if constexpr (noarr::HasStrideAlong<S, '{d}', decltype({w})>) {{ vp_size k = (vp_size)noarr::stride_along<'{d}'>(s, {w}); vp_check(oj - o == (j_{d} - {idx[d]}) * k, \"{name}: stride along {d} {q}\"); }}\n"
            t += f"    if constexpr (noarr::HasOffsetAlong<S, '{d}', decltype(st)>) vp_check(oj - o == (vp_size)noarr::offset_along<'{d}'>(s, sj) - (vp_size)noarr::offset_along<'{d}'>(s, st), \"{name}: offset along {d} changes as the offset\");\n"
            for x in dyn:
                if x != d: t += f"    if constexpr (noarr::HasOffsetAlong<S, '{x}', decltype(st)>) vp_check((vp_size)noarr::offset_along<'{x}'>(s, sj) == (vp_size)noarr::offset_along<'{x}'>(s, st), \"{name}: offset along {x} does not depend on {d}\");\n"
            if lb is True:
                # a range of indices
                t += f"    if constexpr (noarr::HasLowerBoundAlong<S, '{d}', decltype(base)>) {{ vp_size lo = {nd(bits)}, hi = {nd(bits)}; vp_assume(lo <= {idx[d]}); vp_assume({idx[d]} < hi); vp_assume(hi <= {m.lens[d](idx)});\n"
                t += f"      vp_size at = noarr::lower_bound_at<'{d}'>(s, base, lo, hi); vp_check(vp_and(lo <= at, at < hi), \"{name}: lower bound index along {d} is in the range\"); vp_size oa = s | noarr::offset({st_expr({**idx, d: 'at'}, lens)}); vp_check(oa <= o, \"{name}: lower bound index along {d} attains the minimum of the range\");\n"
                t += f"      vp_size bt = noarr::lower_bound_at<'{d}'>(s, base); vp_size ob = s | noarr::offset({st_expr({**idx, d: 'bt'}, lens)}); vp_check((vp_size)noarr::lower_bound_along<'{d}'>(s, base, lo, hi) - (vp_size)noarr::lower_bound_along<'{d}'>(s, base) == oa - ob, \"{name}: lower bound of a range along {d}\"); }}\n"
            t += '  }\n'
        if sum_ and dims:
            conj = ' && '.join(f"noarr::HasOffsetAlong<S, '{d}', decltype(st)>" for d in list(dims) + list(fixed))
            t += f"  if constexpr ({conj}) vp_check(o == {' + '.join(f'''(vp_size)noarr::offset_along<'{d}'>(s, st)''' for d in list(dims) + list(fixed))}, \"{name}: the offsets along all dimensions add up\");\n"
        if lb and dyn:
            conj = ' && '.join([f"noarr::HasLowerBoundAlong<S, '{d}', decltype(base)>" for d in dyn] + [f"noarr::HasOffsetAlong<S, '{d}', decltype(st)>" for d in list(dims) + list(fixed) if d in st or d in fixed])
            t += f'  if constexpr ({conj}) {{\n'
            for d in dyn: t += f"    vp_size at_{d} = noarr::lower_bound_at<'{d}'>(s, base), lb_{d} = (vp_size)noarr::lower_bound_along<'{d}'>(s, base);\n"
            adx = {**idx, **{d: f'at_{d}' for d in dyn}}
            t += f"    vp_check(all({', '.join(f'at_{d} < {m.lens[d](adx)}' for d in dyn)}), \"{name}: lower bound indices are valid\");\n"
            terms = ' + '.join([f'lb_{d}' for d in dyn] + [f"(vp_size)noarr::offset_along<'{d}'>(s, st)" for d in list(dims) + list(fixed) if d in st or d in fixed])
            t += f"    vp_size lbs = {terms}; vp_check(lbs == (s | noarr::offset({st_expr(adx, lens)})), \"{name}: lower bounds are attained at the reported indices\"); vp_check(lbs <= o, \"{name}: lower bounds bound every element\");\n  }}\n"
        out += t + '  vp_check(true, "reached"); }(s_); }\n'
    return out

def h_contig(name, m, bits=B, lens=None, whole=True):
    """a structure reported contiguous has no holes: with distinct elements disjoint (C01), the elements' sizes add up to the size"""
    br = m.branches()
    t = f'HARNESS({name}) {{\n' + decl(m, bits, lens) + assume(m, lens) + f'  auto s_ = {m.cpp}; [&](auto s) {{\n  auto st = {st_expr({}, lens)};\n'
    t += '  if constexpr (noarr::IsContiguous<decltype(s), decltype(st)>) {\n'
    e = lenv(lens)
    if whole:
        t += f"    vp_check((s | noarr::get_size(st)) == {' + '.join(' * '.join([f'(vp_size){m.elem({**e, **b})[1]}'] + [m.lens[d]({**e, **b}) for d in dims if d not in b and d not in m.bc]) for b, dims in br)}, \"{name}: elements fill the structure\");\n"
    else:
        b, dims = br[0]; ln = {d: m.lens[d]({**e, **b}) for d in dims if d not in m.bc}
        for d in ln: t += f'    vp_assume({ln[d]} != 0);\n'
        lo = {**e, **b, **{d: '(vp_size)0' for d in dims}}; hi = {**lo, **{d: f'({ln[d]} - 1)' for d in ln}}
        es = m.elem(lo)[1]
        t += f"    vp_check((s | noarr::offset({st_expr(hi, lens)})) - (s | noarr::offset({st_expr(lo, lens)})) + {es} == {' * '.join([f'(vp_size){es}'] + list(ln.values()))}, \"{name}: elements fill the range they span\");\n"
    return t + '  } vp_check(true, "reached"); }(s_); }\n'

def h_uniform(name, m, bits=B, lens=None, skip=(), strict=False):
    out = ''
    for bi, (st, dims) in enumerate(m.branches()):
        dyn = [d for d in dims if d not in st and d not in skip]
        t = f'HARNESS({name}_{bi}) {{\n' + decl(m, bits, lens) + assume(m, lens) + f'  auto s_ = {m.cpp}; [&](auto s) {{ using S = decltype(s); auto none = {st_expr({}, lens)};\n'
        for d in dims:
            if d in st and d not in skip: t += f"  vp_check(!noarr::IsUniformAlong<S, '{d}', decltype(none)>, \"{name}: tuple dimension {d} is not uniform\");\n"
        for d in dyn:
            it, ia = indices(m, st, [x for x in dims if x != d and x not in skip], f'a{d}_', bits, lens); jt, ja = indices(m, st, [x for x in dims if x != d and x not in skip], f'b{d}_', bits, lens)
            t += f"  vp_check(!noarr::IsUniformAlong<S, '{d}', decltype(none)> || S::template has_length<'{d}', decltype(none)>(), \"{name}: uniform {d} has a length\");\n"
            if strict: t += f"  vp_check(!noarr::IsUniformAlong<S, '{d}', noarr::state<>> || S::template has_length<'{d}', noarr::state<>>(), \"{name}: uniform {d} has a length without state\");\n"
            if strict: wi = f"decltype(none.template with<noarr::index_in<'{d}'>>((vp_size)0))"; t += f"  vp_check(!noarr::IsUniformAlong<S, '{d}', {wi}>, \"{name}: {d} is not uniform once its index is given\");\n"
            t += f'  {{\n{it}{jt}'
            t += f"    auto sa = {st_expr(ia, lens)}; auto sb = {st_expr(ja, lens)};\n"
            t += f"    if constexpr (noarr::IsUniformAlong<S, '{d}', decltype(none)>) {{ vp_check((s | noarr::get_length<'{d}'>(sa)) == (s | noarr::get_length<'{d}'>(none)), \"{name}: length {d} with and without other indices\"); vp_check((s | noarr::get_length<'{d}'>(sa)) == (s | noarr::get_length<'{d}'>(sb)), \"{name}: length {d} does not depend on other indices\"); }}\n"
            t += '  }\n'
        out += t + '  vp_check(true, "reached"); }(s_); }\n'
    return out

FIXED = {'fix': 'x', 'fixo': 'y', 'fixl': 'x', 'fix2': 'xy', 'slfix': 'x', 'ufix': 'y', 'fixrev': 'y', 'bfix': 'X', 'bfix2': 'q', 'tfix': 't', 'tfixv': 'tz'}
BASED = ('sfix', 'bsh', 'bsl', 'brev', 'dsh', 'drev', 'ssh', 'srev', 'revb', 'shb')       # blocks of a dimension that does not start at offset zero
def c12(T):
    hs = []
    L = {k: (m, None) for k, m in P.layouts().items() if k != 'sc'}; L.update(P.unsized_layouts())
    V = dict(P.views()); V.update({k: (m, None) for k, m in P.step_views().items()}); V.update({k: (m, None) for k, m in P.tuple_views().items()})
    hastup = lambda m: any(st for st, _ in m.branches()) or 'tuple<' in m.cpp
    for k, (m, l) in L.items():
        hs.append(h_along('a_' + k, m, lens=l, lb='norange' if hastup(m) else True)); hs.append(h_contig('c_' + k, m, lens=l)); hs.append(h_uniform('u_' + k, m, lens=l, strict=True))
    for k, (m, l) in V.items():
        if k == 'fixall': continue
        hs.append(h_along('a_' + k, m, lens=l, bits=(2, 3) if 'step' in k else B, stride=('y' if k in ('stepo', 'stepll') else 'x') if 'step' in k else None, lb=False if k == 'tfixv' else 'norange' if hastup(m) else True, fixed=FIXED.get(k, ''))); hs.append(h_uniform('u_' + k, m, lens=l))
    for k in ('rev', 'revo', 'rev2', 'rev12', 'ren', 'ren2', 'ren3', 'hoist', 'hoist2', 'reo', 'reo2', 'trev', 'tren'): hs.append(h_contig('c_' + k, V[k][0]))
    for k in ('shifto', 'shiftl', 'sliceo', 'spano', 'fixo', 'spanl', 'span2'): hs.append(h_contig('c_' + k, V[k][0], whole=False))
    Bk = P.blocks()
    v2 = scalar('int').vec('x', 'nx').vec('y', 'ny')
    Bk['mrevM'] = (v2.rev('y').merge('y', 'x', 'm'), None); Bk['mrevr'] = (v2.rev('y').rev('x').merge('y', 'x', 'm'), None); Bk['mi'] = (v2.merge('x', 'y', 'm'), None)
    Bk['bren'] = (v2.blocks('x', 'X', 'q', 'L').ren(q='x', X='q'), None)
    for k, (m, l) in Bk.items():
        nolb = k in BASED + ('ss', 'mb', 'dd', 'bb', 'bbx')
        skip = ('p', 's') if k[0] == 'd' else ('b',) if k[0] == 's' else ()
        hs.append(h_along('a_' + k, m, lens=l, bits=(3, 4) if k == 'bl' else (2, 3), sum_=k not in BASED, diff_skip=skip, lb=False if nolb else True if k in ('b', 'b2', 'bo', 'bM') else 'norange', fixed=FIXED.get(k, '')))
        if k[0] in 'bm': hs.append(h_uniform('u_' + k, m, lens=l, bits=(3, 4) if k == 'bl' else (2, 3)))
    for k in ('b', 'b2', 'bo', 'bl', 'bh', 'bM', 'bb', 'both', 'buM', 'bum', 'bumM', 'buset', 'bm'): hs.append(h_contig('c_' + k, *([Bk[k][0]]), lens=Bk[k][1]))
    for k, (o, m) in chains('c12', 40 if T else 12, ['shift', 'slice', 'span', 'rev', 'hoist', 'reorder', 'ren', 'ren'], (1, 3), 3, tuples=False).items(): hs.append(h_along('r_' + k, m)); hs.append(h_uniform('ru_' + k, m))
    hs.append(OTHER)
    return dict(tus=pack_tus('c12_', hs, 8, HEAD + '#include <noarr/structures/introspection/offset_along.hpp>\n'))
OTHER = r"""
template<char D, class St, class State> static inline void gone(St s, State st) {
  vp_check(!noarr::HasOffsetAlong<St, D, State>, "no offset along a dimension that is not there"); vp_check(!noarr::HasStrideAlong<St, D, State>, "no stride along a dimension that is not there");
  vp_check(!noarr::HasLowerBoundAlong<St, D, State>, "no lower bound along a dimension that is not there"); vp_check(!noarr::IsUniformAlong<St, D, State>, "not uniform along a dimension that is not there"); }
HARNESS(consumed) { vp_size n = NDW(), m = NDW(), i = NDW(), j = NDW();
  auto s = noarr::scalar<int>() ^ noarr::vector<'x'>(n) ^ noarr::vector<'y'>(m);
  gone<'x'>(s ^ noarr::rename<'x', 'u'>(), noarr::idx<'u', 'y'>(i, j)); gone<'x'>(s ^ noarr::rename<'x', 'u'>(), noarr::empty_state); gone<'x'>(s ^ noarr::into_blocks<'x', 'X', 'q'>(lit_(m)), noarr::idx<'X', 'q', 'y'>(i, j, i)); gone<'x'>(s ^ noarr::merge_blocks<'y', 'x', 'm'>(), noarr::empty_state); gone<'y'>(s ^ noarr::merge_blocks<'y', 'x', 'm'>(), noarr::idx<'m'>(i)); gone<'w'>(s, noarr::idx<'x', 'y'>(i, j)); gone<'w'>(s, noarr::empty_state);
  auto z = noarr::scalar<int>() ^ noarr::array<'x', 4>() ^ noarr::array<'y', 4>() ^ noarr::merge_zcurve<'x', 'y', 'z'>::maxlen_alignment<4, 1>(); gone<'x'>(z, noarr::idx<'z'>(i)); gone<'y'>(z, noarr::empty_state); gone<'x'>(z, noarr::empty_state);
}
HARNESS(consumed2) { vp_size n = NDW(), m = NDW(), i = NDW(), j = NDW(), k = NDW();
  auto s = noarr::scalar<int>() ^ noarr::vector<'x'>(n) ^ noarr::vector<'y'>(m);
  auto both = [&](auto v, auto st, auto lst) { gone<'x'>(v, st); gone<'x'>(v, lst); gone<'x'>(v, noarr::empty_state); gone<'w'>(v, st); gone<'w'>(v, lst); gone<'w'>(v, noarr::empty_state); };
  both(s ^ noarr::into_blocks<'x', 'X', 'q'>(lit_(m)), noarr::idx<'X', 'q', 'y'>(i, j, k), noarr::idx<'y'>(k));
  both(s ^ noarr::into_blocks_static<'x', 'B', 'X', 'q'>(noarr::lit<2>), noarr::idx<'B', 'X', 'q', 'y'>(noarr::lit<0>, i, j, k), noarr::idx<'B'>(noarr::lit<1>));
  both(s ^ noarr::into_blocks_dynamic<'x', 'X', 'q', 'p'>(m), noarr::idx<'X', 'q', 'p', 'y'>(i, j, k, k), noarr::idx<'y', 'X'>(k, i));
  both(s ^ noarr::join<'x', 'y', 'd'>(), noarr::idx<'d'>(i), noarr::idx<'z'>(i)); gone<'y'>(s ^ noarr::join<'x', 'y', 'd'>(), noarr::idx<'d'>(i)); gone<'y'>(s ^ noarr::join<'x', 'y', 'd'>(), noarr::empty_state);
  both(s ^ noarr::merge_blocks<'x', 'y', 'd'>(), noarr::idx<'d'>(i), noarr::idx<'z'>(i));
  both(s ^ noarr::rename<'x', 'u'>(), noarr::idx<'u', 'y'>(i, j), noarr::idx<'u'>(i));
  both(noarr::scalar<int>() ^ noarr::array<'u', 4>() ^ noarr::bcast<'y'>(m), noarr::idx<'u', 'y'>(i, j), noarr::idx<'u'>(i));
  auto W = [&](auto v) { gone<'w'>(v, noarr::idx<'x', 'y'>(i, j)); gone<'w'>(v, noarr::idx<'y'>(j)); gone<'w'>(v, noarr::empty_state); };
  W(s ^ noarr::shift<'x'>(k)); W(s ^ noarr::slice<'x'>(i, j)); W(s ^ noarr::span<'x'>(i, j)); W(s ^ noarr::step<'x'>(i, j)); W(s ^ noarr::reverse<'x'>()); W(s ^ noarr::hoist<'x'>()); W(s ^ noarr::fix<'x'>(k)); W(s ^ noarr::set_length<'x'>(k)); W(s ^ noarr::bcast<'z'>(k)); W(s ^ noarr::reorder<'x', 'y'>());
  auto t = noarr::pack(noarr::scalar<int>() ^ noarr::array<'u', 4>(), noarr::scalar<char>()) ^ noarr::tuple<'t'>(); gone<'w'>(t, noarr::idx<'t'>(noarr::lit<0>)); gone<'w'>(t, noarr::empty_state); gone<'u'>(t, noarr::idx<'t'>(noarr::lit<1>)); gone<'u'>(t, noarr::empty_state);
}
// ranges along a dimension inside / across the fields of a tuple
HARNESS(range_tuple) { vp_size n = ND(3, 4), m = ND(3, 4), i = ND(3, 4), x = ND(3, 4); vp_assume(i < m); auto lo = noarr::lit<1>; auto hi = noarr::lit<5>; vp_assume(1 <= x); vp_assume(x < 5); vp_assume(5 <= n);
  auto s = noarr::pack(noarr::scalar<int>(), noarr::scalar<char>() ^ noarr::vector<'y'>(m), noarr::scalar<int>() ^ noarr::vector<'x'>(n) ^ noarr::vector<'y'>(m)) ^ noarr::tuple<'t'>();
  auto st = noarr::idx<'t', 'y'>(noarr::lit<2>, i); (void)lo; (void)hi; auto of = [&](vp_size x) { return s | noarr::offset(noarr::idx<'t', 'x', 'y'>(noarr::lit<2>, x, i)); };
  if constexpr (noarr::HasLowerBoundAlong<decltype(s), 'x', decltype(st)>) { vp_size at = noarr::lower_bound_at<'x'>(s, st, lo, hi), lb = noarr::lower_bound_along<'x'>(s, st, lo, hi), l0 = noarr::lower_bound_along<'x'>(s, st); vp_check(vp_and(at >= 1, at < 5), "lower bound index of a range of a field");
    vp_check(lb - l0 == of(at) - of(0), "lower bound of a range of a field"); vp_check(of(at) <= of(x), "lower bound of a range of a field attains the minimum"); } else vp_check(true, "reached");
}
// shifted dimension of a merged dimension whose major part is the outer one
HARNESS(range_merge) { vp_size n = ND(2, 3), m = ND(2, 3), i = ND(3, 4), lo = ND(3, 4), hi = ND(3, 4); vp_assume(n != 0); vp_assume(lo <= i); vp_assume(i < hi); vp_assume(hi <= n * m);
  auto s = noarr::scalar<int>() ^ noarr::vector<'x'>(n) ^ noarr::vector<'y'>(m) ^ noarr::merge_blocks<'y', 'x', 'm'>();
  vp_size at = noarr::lower_bound_at<'m'>(s, noarr::empty_state, lo, hi), lb = noarr::lower_bound_along<'m'>(s, noarr::empty_state, lo, hi);
  vp_check(vp_and(at >= lo, at < hi), "lower bound index of a range is in it"); vp_check((s | noarr::offset<'m'>(at)) == lb, "lower bound of a range is attained"); vp_check(lb <= (s | noarr::offset<'m'>(i)), "lower bound of a range");
}
// ---- recorded findings
HARNESS(step_other) { vp_size n = ND(3, 5), m = ND(3, 5), k = ND(2, 4), x = ND(3, 5), y = ND(3, 5); vp_assume(k != 0); vp_assume(y + 1 < m); vp_assume(x * k < n);
  auto s = noarr::scalar<int>() ^ noarr::vector<'x'>(n) ^ noarr::vector<'y'>(m) ^ noarr::step<'x'>(0, k);
  vp_check((s | noarr::offset<'x', 'y'>(x, y + 1)) - (s | noarr::offset<'x', 'y'>(x, y)) == (vp_size)noarr::stride_along<'y'>(s, noarr::empty_state), "stride along a dimension that is not stepped");
}
HARNESS(range_merge_inner) { vp_size n = ND(2, 3), m = ND(2, 3), i = ND(3, 4), lo = ND(3, 4), hi = ND(3, 4); vp_assume(m != 0); vp_assume(lo <= i); vp_assume(i < hi); vp_assume(hi <= n * m);
  auto s = noarr::scalar<int>() ^ noarr::vector<'x'>(n) ^ noarr::vector<'y'>(m) ^ noarr::merge_blocks<'x', 'y', 'm'>();
  vp_size lb = noarr::lower_bound_along<'m'>(s, noarr::empty_state, lo, hi);
  vp_check(lb <= (s | noarr::offset<'m'>(i)), "lower bound of a range of a merged dimension whose major part is stored inside");
}
HARNESS(blocks_of_reversed) { vp_size n = ND(3, 4), L = ND(2, 3), X = ND(3, 4), q = ND(3, 4); vp_assume(L != 0); vp_assume(n % L == 0); vp_assume(X < n / L); vp_assume(q < L);
  auto s = noarr::scalar<int>() ^ noarr::vector<'x'>(n) ^ noarr::reverse<'x'>() ^ noarr::into_blocks<'x', 'X', 'q'>(L);
  vp_size lb = (vp_size)noarr::lower_bound_along<'X'>(s, noarr::empty_state) + (vp_size)noarr::lower_bound_along<'q'>(s, noarr::empty_state);
  vp_check(lb <= (s | noarr::offset<'X', 'q'>(X, q)), "lower bounds of the blocks of a reversed dimension");
}
template<class St, class F> static inline void no_holes(St s, vp_size span, F count) { if constexpr (noarr::IsContiguous<St, noarr::state<>>) vp_check(span == count(), "reported contiguous although it has holes"); else vp_check(true, "reached"); }
#define C2 vp_size n = ND(3, 4), m = ND(3, 4), a = ND(3, 4), b = ND(3, 4); vp_assume(n != 0); vp_assume(m != 0); auto s = noarr::scalar<int>() ^ noarr::vector<'x'>(n) ^ noarr::vector<'y'>(m);
#define LAST(v, x, y) ((v | noarr::offset<'x', 'y'>(x, y)) - (v | noarr::offset<'x', 'y'>(0, 0)) + 4)
HARNESS(contig_join) { C2 vp_assume(n == m); auto v = s ^ noarr::join<'x', 'y', 'd'>(); no_holes(v, (v | noarr::offset<'d'>(n - 1)) + 4, [&] { return n * 4; }); }
HARNESS(contig_slice) { C2 vp_assume(b != 0); vp_assume(a + b <= n); auto v = s ^ noarr::slice<'x'>(a, b); no_holes(v, LAST(v, b - 1, m - 1), [&] { return b * m * 4; }); }
HARNESS(contig_span) { C2 vp_assume(a < b); vp_assume(b <= n); auto v = s ^ noarr::span<'x'>(a, b); no_holes(v, LAST(v, b - a - 1, m - 1), [&] { return (b - a) * m * 4; }); }
HARNESS(contig_shift) { C2 vp_assume(a < n); auto v = s ^ noarr::shift<'x'>(a); no_holes(v, LAST(v, n - a - 1, m - 1), [&] { return (n - a) * m * 4; }); }
HARNESS(contig_fix) { C2 vp_assume(a < n); auto v = s ^ noarr::fix<'x'>(a); no_holes(v, (v | noarr::offset<'y'>(m - 1)) - (v | noarr::offset<'y'>(0)) + 4, [&] { return m * 4; }); }
""".replace('lit_(m)', 'm')
