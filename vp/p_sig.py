"""C23: signatures describe the interface truthfully"""
from .gen import *
from .chains import chains, DIV
from .p_static import good, subst
import itertools, random
SIG = r'''
#include <noarr/structures/extra/struct_concepts.hpp>
#include <type_traits>
using namespace noarr;
// the documented dimension tree
template<auto D, class T> struct Dy {};
template<auto D, class... T> struct De {};
template<class T> struct Le {};
template<class Sig, class T> constexpr bool same_tree = false;
template<auto D, class AL, class R, class T> constexpr bool same_tree<function_sig<D, AL, R>, Dy<D, T>> = same_tree<R, T>;
template<auto D, class... R, class... T> requires (sizeof...(R) == sizeof...(T)) constexpr bool same_tree<dep_function_sig<D, R...>, De<D, T...>> = (true && ... && same_tree<R, T>);
template<class T> constexpr bool same_tree<scalar_sig<T>, Le<T>> = true;
// walks the signature along an arbitrary index; counts what was decided
struct Tally { vp_size stat = 0, dyn = 0, dep = 0, leaf = 0; };
template<bool Data, class S, class St, class Sig> struct walk;
template<bool Data, class S, class St, class T> struct walk<Data, S, St, scalar_sig<T>> { static void go(const S &s, St st, const vp_size *, Tally &n) { n.leaf++;
  vp_check(std::is_same_v<scalar_t<S, St>, T>, "scalar_t is the type at the end of the signature"); if constexpr (Data) { static char b[1]; vp_check(std::is_same_v<decltype(s | get_at((void *)b, st)), T &>, "the element addressed has the type at the end of the signature"); } } };
template<bool Data, class S, class St, auto D, class AL, class R> struct walk<Data, S, St, function_sig<D, AL, R>> { static void go(const S &s, St st, const vp_size *iv, Tally &n) {
  if constexpr (S::template has_length<D, St>()) { vp_size l = s | get_length<D>(st); if constexpr (AL::is_static) { n.stat++; vp_check(l == AL::value, "static length in the signature equals the reported length"); } else n.dyn++; vp_assume(*iv < l); }
  else { n.dyn++; vp_check(!AL::is_static, "a static length in the signature is known"); }
  auto nx = st.template with<index_in<D>>(*iv); walk<Data, S, decltype(nx), R>::go(s, nx, iv + 1, n); } };
template<bool Data, class S, class St, auto D, class... R> struct walk<Data, S, St, dep_function_sig<D, R...>> { static void go(const S &s, St st, const vp_size *iv, Tally &n) {
  vp_check((s | get_length<D>(st)) == sizeof...(R), "number of alternatives of a tuple dimension"); n.dep++; each(s, st, iv, n, std::make_index_sequence<sizeof...(R)>()); }
  template<std::size_t... K> static void each(const S &s, St st, const vp_size *iv, Tally &n, std::index_sequence<K...>) { (one<K>(s, st, iv, n), ...); }
  template<std::size_t K> static void one(const S &s, St st, const vp_size *iv, Tally &n) { auto nx = st.template with<index_in<D>>(lit<K>); walk<Data, S, decltype(nx), typename dep_function_sig<D, R...>::template ret_sig<K>>::go(s, nx, iv + 1, n); } };
template<class Tree, bool Data = true, class S, class St> static inline void truth(const S &s, St st, const vp_size *iv) { using Sig = typename S::signature; Tally n;
  vp_check(same_tree<Sig, Tree>, "the signature lists the dimensions in their documented nesting"); walk<Data, S, St, Sig>::go(s, st, iv, n); }
'''
def ctree(m, t, idx):
    if t is None: return f'Le<{m.elem(idx)[0]}>'
    if t[0] == 'dyn': return f"Dy<'{t[1]}', {ctree(m, t[2], {**idx, t[1]: '0'})}>"
    return f"De<'{t[1]}', {', '.join(ctree(m, x, {**idx, t[1]: k}) for k, x in enumerate(t[2]))}>"
def has_stat(t): return t is not None and (t[0] == 'stat' or has_stat(t[2]))
def depth(t): return 0 if t is None else 1 + (depth(t[2]) if t[0] == 'dyn' else max(depth(x) for x in t[2]))
def accepts(t, d, f):
    if t is None: return False
    return t[1] == d or (accepts(t[2], d, f) if t[0] == 'dyn' else f(accepts(x, d, f) for x in t[2]))
def h_sig(name, m, bits, vals, lens=None, s=None):
    """vals: parameters given as compile-time constants"""
    lens2 = {d: (vals[v] if v in vals else v) for d, v in (lens or {}).items()}
    paths = m.branches(); n = depth(m.tree)
    t = f'HARNESS({name}) {{\n' + decl(m, bits, lens) + ''.join(f'  vp_assume({p} == {v});\n' for p, v in vals.items()) + assume(m, lens)
    t += f'  vp_size iv[{n + 1}] = {{' + ', '.join(nd(bits) for _ in range(n)) + f'}}; auto s = {s or subst(m.cpp, vals)}; using S = decltype(s);\n'
    t += f'  truth<{ctree(m, m.tree, lenv(lens))}>(s, {st_expr({}, lens2)}, iv);\n'
    t += f'  vp_check(is_point<S>::value == {"true" if m.tree is None else "false"}, "{name}: is_point"); ' + (f'vp_check(is_cube<S>::value == {str(not has_stat(m.tree)).lower()}, "{name}: is_cube");\n' if not lens or has_stat(m.tree) else '\n')
    for d in tree_dims(m.tree) + ['#']:
        t += f"  vp_check(S::signature::template any_accept<'{d}'> == {str(accepts(m.tree, d, any)).lower()}, \"{name}: any_accept {d}\"); vp_check(S::signature::template all_accept<'{d}'> == {str(accepts(m.tree, d, all)).lower()}, \"{name}: all_accept {d}\");\n"
    ds = tree_dims(m.tree)
    if ds: t += f"  vp_check(HasDims<S, {', '.join(repr(d) for d in ds[::-1])}>, \"{name}: HasDims\"); vp_check(!HasDims<S, {', '.join(repr(d) for d in ds)}, '#'>, \"{name}: HasDims with an absent dimension\"); vp_check(!HasDims<S, '#', {', '.join(repr(d) for d in ds)}>, \"{name}: HasDims with an absent dimension first\");\n"
    t += f'  vp_check(all(IsStruct<S>, !IsProtoStruct<S>, !IsState<S>, !IsTraverser<S>, ToStruct<S>, IsSignature<typename S::signature>, !HasDims<S, \'#\'>), "{name}: concepts");\n'
    return t + '}\n'
def h_order(name, o, m, bits, vals):
    order = [subst(p, vals) for p in m.protos[len(o.protos):]]; n = depth(m.tree)
    t = f'HARNESS({name}) {{\n' + decl(m, bits) + ''.join(f'  vp_assume({p} == {v});\n' for p, v in vals.items()) + assume(m)
    t += f'  vp_size iv[{n + 1}] = {{' + ', '.join(nd(bits) for _ in range(n)) + f"}}; auto s = {subst(o.cpp, vals)}; auto t = traverser(s){''.join(' ^ ' + p for p in order)}; auto q = t.top_struct();\n"
    t += f'  vp_check(std::is_same_v<typename decltype(t)::signature, typename decltype(q)::signature>, "{name}: signature of the traverser"); truth<{ctree(m, m.tree, {})}, false>(q, empty_state, iv);\n'
    return t + '}\n'
def known(f, *a):
    try: f(*a); return True
    except KeyError: return False
def h_avail(name, m, lens):
    """has_length / has_size / has_offset are true exactly when everything needed has been supplied"""
    out = ''
    for bi, (st, dims) in enumerate(m.branches()):
        t = f'HARNESS({name}_{bi}) {{\n' + decl(m, 'W', lens) + ''.join(f'  vp_size i_{d} = NDW();\n' for d in dims if d not in st) + f'  auto s = {m.cpp}; (void)s;\n'
        idx = {d: st.get(d, f'i_{d}') for d in dims}
        for r in range(len(lens or {}) + 1):
            for sub in itertools.combinations(lens or {}, r):
                L = {d: lens[d] for d in sub}; e = lenv(L); tag = f"{name}, given {' '.join(sub) or 'no'} lengths"
                if bi == 0: t += f'  {{ auto q = {st_expr({}, L)}; vp_check((s | has_size<decltype(q)>()) == {str(known(m.size, e)).lower()}, "{tag}: has_size"); vp_check(!(s | has_length<\'#\', decltype(q)>()), "{tag}: no length of an absent dimension"); }}\n'
                for k, d in enumerate(dims):
                    up = {x: idx[x] for x in dims[:k]}
                    kn = True if d in st else known(m.lens[d], {**e, **up})
                    t += f"  {{ auto q = {st_expr(up, L)}; vp_check((s | has_length<'{d}', decltype(q)>()) == {str(kn).lower()}, \"{tag}: has_length {d}\"); }}\n"
                for drop in [None] + [d for d in dims if d not in m.bc]:
                    ix = {d: v for d, v in idx.items() if d != drop}
                    # (a length that no offset needs may still be demanded: without all lengths, only a wrong yes is a violation)
                    exp = drop is None and known(m.off, {**e, **ix}); full = r == len(lens or {})
                    cond = '(s | has_offset<decltype(q)>())' + (f' == {str(exp).lower()}' if full or not exp else ' || true')
                    t += f'  {{ auto q = {st_expr(ix, L)}; vp_check({cond}, "{tag}: has_offset {"with all indices" if drop is None else "without " + drop}"); }}\n'
        out += t + '}\n'
    return out
UNION = r'''
HARNESS(union2) { vp_size n = NDW(), m = NDW(), iv[4] = {NDW(), NDW(), NDW(), 0}; auto a = scalar<int>() ^ vector<'x'>(n) ^ array<'y', 5>(); auto b = scalar<char>() ^ array<'y', 5>() ^ vector<'z'>(m); auto c = scalar<double>() ^ array<'z', 7>() ^ array<'w', 2>();
  truth<Dy<'z', Dy<'y', Dy<'x', Le<int>>>>, false>(traverser(a, b).top_struct(), empty_state, iv); truth<Dy<'x', Dy<'z', Dy<'y', Le<char>>>>, false>(traverser(b, a).top_struct(), empty_state, iv); }
HARNESS(union3) { vp_size n = NDW(), iv[5] = {NDW(), NDW(), NDW(), NDW(), 0}; auto a = scalar<int>() ^ vector<'x'>(n) ^ array<'y', 5>(); auto b = scalar<char>() ^ array<'y', 5>() ^ array<'z', 7>(); auto c = scalar<double>() ^ array<'z', 7>() ^ array<'w', 2>();
  truth<Dy<'w', Dy<'z', Dy<'y', Dy<'x', Le<int>>>>>, false>(traverser(a, b, c).top_struct(), empty_state, iv); truth<Dy<'z', Dy<'w', Dy<'y', Dy<'x', Le<int>>>>>, false>((traverser(a, b, c) ^ hoist<'z'>()).top_struct(), empty_state, iv);
  truth<Dy<'w', Dy<'z', Dy<'y', Dy<'x', Le<int>>>>>, false>((traverser(a, b, c) ^ span<'z'>(lit<2>, lit<6>) ^ step<'w'>(lit<1>, lit<2>)).top_struct(), empty_state, iv); }
'''
def fam(props):
    L = {}
    for k, m in props.layouts().items(): L['l_' + k] = (m, None, 'W')
    for k, m in props.mixed().items(): L['l_' + k] = (m, None, 'W')
    for k, (m, l) in props.unsized_layouts().items(): L['u_' + k] = (m, l, 'W')
    for k, (m, l) in props.views().items(): L['v_' + k] = (m, l, 'W')
    for k, m in props.step_views().items(): L['w_' + k] = (m, None, (8, 12))
    for k, m in props.tuple_views().items(): L['t_' + k] = (m, None, 'W')
    for k, (m, l) in props.blocks().items(): L['b_' + k] = (m, l, (5, 6))
    return L
def c23(T):
    from . import props
    rnd = random.Random(23); hs = []
    for k, (m, l, bits) in fam(props).items():
        names = list(dict.fromkeys(list(m.params) + [v for v in (l or {}).values() if isinstance(v, str)]))
        sets = [()] + [tuple(names)] * bool(names)
        if len(names) > 1 and 'join<' not in m.cpp: sets += [c for r in range(1, len(names)) for c in itertools.combinations(names, r) if T or r in (1, len(names) - 1)]
        for j, c in enumerate(dict.fromkeys(sets)):
            for v in range(3 if T and c else 1):
                env = good(m, l, rnd)
                if env is None: raise Exception('no assignment for ' + k)
                hs.append(h_sig(f'{k}_{j}_{v}', m, bits, {p: env[p] for p in c}, l))
    for pre, T_, kw, bits in (('r', (60, 16), dict(views=(1, 4)), 'W'), ('q', (60, 16), dict(ops=DIV, views=(1, 4), maxd=3), (5, 6))):
        for k, (o, m) in chains('c23' + pre, T_[not T], **kw).items():
            env = good(m, None, rnd)
            if env is None: continue
            for j, c in enumerate([(), tuple(m.params)] + [tuple(p for p in m.params if rnd.random() < .5) for _ in range(4 if T else 1)]): hs.append(h_sig(f'{pre}{k}_{j}', m, bits, {p: env[p] for p in c}))
    for k, (m, l, bits) in fam(props).items(): hs.append(h_avail('k_' + k, m, l))
    th = [UNION]
    for k, (o, m, kw) in props.orders().items():
        for v in range(4 if T else 2):
            for _ in range(400):
                env = good(m, None, rnd)
                if max(env.values(), default=0) <= 7: break
            else: continue
            if v and not m.params: continue
            c = [p for p in m.params if v != 1 or 'join<' not in m.cpp and rnd.random() < .5]
            th.append(h_order(f'o_{k}_{v}', o, m, (5, 6), {p: env[p] for p in c}))
    return dict(tus=pack_tus('c23_', hs, 14, HEAD + SIG) + pack_tus('c23t_', th, 14, HEAD + SIG))
