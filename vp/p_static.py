"""C17: compile-time and run-time parameters give identical results"""
from .gen import *
from .chains import chains, DIV
import itertools, random, re
VALS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 12]
def py(e, env):
    e = re.sub(r'\(vp_size\)', '', e); e = re.sub(r'/', '//', e)
    return eval(re.sub(r'\b(\d+)(?:UL|u)?\b', r'\1', e), {}, env)
def good(m, lens, rnd, tries=4000):
    """a random assignment of the parameters (and of the lengths in the state) that satisfies the model's preconditions and leaves at least one element if possible"""
    names = list(dict.fromkeys(list(m.params) + [v for v in (lens or {}).values() if isinstance(v, str)]))
    best = None
    for _ in range(tries):
        env = {p: rnd.choice(VALS) for p in names}
        try:
            if not all(py(c(lenv(lens)), env) for c in m.pre): continue
        except (ZeroDivisionError, KeyError): continue
        try:
            nz = all(n > 0 for n in (py(m.lens[d](z), env) for st, dims in m.branches() for z in [{**lenv(lens), **{d: st.get(d, '0') for d in dims}}] for d in dims if d not in st))
        except Exception: nz = False
        if nz: return env
        best = best or env
    return best
def pick_idx(m, st, dims, sv, lens):
    best = {}; rnd = random.Random(5)
    for _ in range(12):
        env = good(m, lens, rnd)
        if env is None: return {}
        z = {**lenv(lens), **st}; si = {}
        for d in dims:
            if d in st: continue
            try: n = py(m.lens[d](z), env)
            except ZeroDivisionError: n = 0
            if n <= 0: si = {}; break
            if d in sv: si[d] = min(sv[d], n - 1); z[d] = str(si[d])
            else: z[d] = '0'
        if not best or sum(si.values()) > sum(best.values()): best = si
    return best
def subst(cpp, vals):
    for p, v in vals.items(): cpp = re.sub(rf"(?<!')\b{p}\b(?!')", f'noarr::lit<{v}>', cpp)
    return cpp
def queries(m, st, dims, idx, lens, lens2, lab, si=None):
    """all queries on s (static) and d (dynamic)"""
    t = ''
    ix2 = dict(idx); ix2.update(si or {})
    for k, d in enumerate(dims):
        up = {x: idx[x] for x in dims[:k]}; up2 = {x: ix2[x] for x in dims[:k]}
        t += f"  vp_check((sx | noarr::get_length<'{d}'>({st_expr(up2, lens2)})) == (dy | noarr::get_length<'{d}'>({st_expr(up, lens)})), \"{lab}: length {d}\");\n"
    t += f'  vp_check((sx | noarr::offset({st_expr(ix2, lens2)})) == (dy | noarr::offset({st_expr(idx, lens)})), "{lab}: offset");\n'
    return t
def h_static(name, m, bits, vals, lens=None):
    """the parameters in vals are static in s, dynamic in d"""
    out = ''
    lens2 = {d: (vals[v] if v in vals else v) for d, v in (lens or {}).items()}
    for bi, (st, dims) in enumerate(m.branches()):
        t = f'HARNESS({name}_{bi}) {{\n' + decl(m, bits, lens) + ''.join(f'  vp_assume({p} == {v});\n' for p, v in vals.items()) + assume(m, lens) + f'  auto dy = {m.cpp}; auto sx = {subst(m.cpp, vals)};\n'
        it, idx = indices(m, st, dims, 'i_', bits, lens)
        if bi == 0: t += f'  vp_check((sx | noarr::get_size({st_expr({}, lens2)})) == (dy | noarr::get_size({st_expr({}, lens)})), "{name}: size");\n'
        out += t + it + queries(m, st, dims, idx, lens, lens2, name) + '}\n'
    return out
def h_statidx(name, m, bits, sv, vals, lens=None):
    """the indices in sv (dim -> value) are static for s; so are the parameters in vals"""
    out = ''
    lens2 = {d: (vals[v] if v in vals else v) for d, v in (lens or {}).items()}
    for bi, (st, dims) in enumerate(m.branches()):
        si = pick_idx(m, st, dims, sv, lens)
        if not si: continue
        t = f'HARNESS({name}_{bi}) {{\n' + decl(m, bits, lens) + ''.join(f'  vp_assume({p} == {v});\n' for p, v in vals.items()) + assume(m, lens) + f'  auto dy = {m.cpp}; auto sx = {subst(m.cpp, vals)};\n'
        it, idx = indices(m, st, dims, 'i_', bits, lens)
        t += ''.join(l + '\n' for l in it.split('\n') if 'vp_assume' not in l) + ''.join(f'  vp_assume({idx[d]} == {v});\n' for d, v in si.items()) + ''.join(l + '\n' for l in it.split('\n') if 'vp_assume' in l)
        out += t + queries(m, st, dims, idx, lens, lens2, name, si) + '}\n'
    return out
TYPES = ['int', 'unsigned char', 'short', 'unsigned', 'long long', 'signed char', 'unsigned short', 'long']
def h_typed(name, m, bits, rot, lens=None):
    """parameters, lengths in the state and indices given in integer types other than std::size_t"""
    out = ''; k = rot
    lens2 = {}
    for bi, (st, dims) in enumerate(m.branches()):
        t = f'HARNESS({name}_{bi}) {{\n' + decl(m, bits, lens) + assume(m, lens); cpp = m.cpp
        for p in dict.fromkeys(list(m.params) + [v for v in (lens or {}).values() if isinstance(v, str)]):
            ty = TYPES[k % len(TYPES)]; k += 3
            t += f'  {ty} T_{p} = ({ty}){p};\n'; cpp = re.sub(rf"(?<!')\b{p}\b(?!')", f'T_{p}', cpp)
        for d, v in (lens or {}).items(): lens2[d] = f'T_{v}' if isinstance(v, str) else v
        t += f'  auto dy = {m.cpp}; auto sx = {cpp};\n'
        it, idx = indices(m, st, dims, 'i_', bits, lens)
        if bi == 0: t += f'  vp_check((sx | noarr::get_size({st_expr({}, lens2)})) == (dy | noarr::get_size({st_expr({}, lens)})), "{name}: size");\n'
        si = {d: f'({TYPES[(k + j) % len(TYPES)]}){v}' for j, (d, v) in enumerate(idx.items()) if d[0] != '#' and isinstance(v, str)}
        out += t + it + queries(m, st, dims, idx, lens, lens2, name, si) + '}\n'
    return out
def h_trav(name, o, m, vals, bits):
    """the traversal of the structure and the order with static parameters visits the same"""
    od = tree_dims(o.tree); order = m.protos[len(o.protos):]
    t = f'HARNESS({name}) {{\n' + decl(m, bits) + ''.join(f'  vp_assume({p} == {v});\n' for p, v in vals.items()) + assume(m) + f'  vp_size K = ND(6, 10); auto dy = {o.cpp}; auto sx = {subst(o.cpp, vals)};\n'
    v = dict(d='dy', s='sx')
    for s in 'ds':
        t += f'  vp_size {s}c = 0, {s}e = 0' + ''.join(f', {s}_{x} = 0' for x in od) + ';\n'
        f = (lambda x: subst(x, vals)) if s == 's' else (lambda x: x)
        t += f"  (noarr::traverser({v[s]}){''.join(' ^ ' + f(p) for p in order)}).for_each([&](auto st) {{ bool h = {s}c == K; " + ' '.join(f"vp_pick({s}_{x}, h, ix<'{x}'>(st));" for x in od) + f' vp_pick({s}e, h, {v[s]} | noarr::offset(st)); {s}c++; }});\n'
    t += f'  vp_check(dc == sc, "{name}: number of visits"); vp_check(all({", ".join([f"d_{x} == s_{x}" for x in od] + ["de == se"])}), "{name}: k-th visit");\n'
    return t + '}\n'

ARITH = r'''
using namespace noarr; using namespace noarr::constexpr_arithmetic;
template<class T> constexpr bool is_const = false;
template<vp_size A> constexpr bool is_const<std::integral_constant<vp_size, A>> = true;
#define K(n) make_const<n>()
#define BIG (vp_size)0xffffffffffffffff
#define HALF (vp_size)0x8000000000000000
'''
def arith():
    hs = []
    cs = ['(vp_size)0', '(vp_size)1', '(vp_size)2', '(vp_size)3', '(vp_size)10', 'HALF', 'BIG', '(BIG - 6)']
    for on, op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('div', '/'), ('mod', '%')):
        dm = op in '/%'
        t = f'HARNESS(a_{on}) {{ vp_size x = {"ND(16, 24)" if dm else "NDW()"}; vp_size z = x != 0 ? x : 1; (void)z;\n'
        for k, a in enumerate(cs):
            if not (dm and k == 0): t += f'  vp_check((x {op} K({a})) == (vp_size)(x {op} {a}), "run-time {op} {k}");\n'
            t += f'  vp_check((K({a}) {op} {"z" if dm else "x"}) == (vp_size)({a} {op} {"z" if dm else "x"}), "{k} {op} run-time");\n'
            for j, b in enumerate(cs):
                if dm and j == 0: continue
                t += f'  {{ auto r = K({a}) {op} K({b}); static_assert(is_const<decltype(r)>); vp_check(r == (vp_size)({a} {op} {b}), "static {k} {op} {j}"); }}\n'
        hs.append(t + '}\n')
        if not dm: hs.append(f'HARNESS(as_{on}) {{ vp_size x = NDW(); vp_assume(x != HALF); long y = (long)x; int w = (int)(unsigned)x; vp_check((vp_size)(y {op} K(0)) == (x {op} (vp_size)0), "signed {op} 0"); vp_check((vp_size)(K(0) {op} y) == ((vp_size)0 {op} x), "0 {op} signed"); vp_check((vp_size)(w {op} K(0)) == ((vp_size)w {op} (vp_size)0), "int {op} 0"); ' + (f'vp_check((vp_size)(K(0) {op} w) == ((vp_size)0 {op} (vp_size)w), "0 {op} int"); ' if op != '-' else '') + '}\n')
    hs.append('HARNESS(a_chain) { vp_size x = NDW(), y = NDW(); vp_check((x + K(0)) * K(3) - K(0) + y * K(1) + K(7) == x * 3 + y + 7, "chain"); vp_check(K(2) * K(3) * x + K(4) - y == 6 * x + 4 - y, "chain 2"); vp_check((K(0) * x + y) * (K(5) - K(4)) == y, "chain 3"); }\n')
    return hs
def c17(T):
    from . import props
    rnd = random.Random(17)
    L = {}
    for k, m in props.layouts().items(): L['l_' + k] = (m, None, 'W')
    for k, m in props.mixed().items(): L['l_' + k] = (m, None, 'W')
    for k, (m, l) in props.unsized_layouts().items(): L['u_' + k] = (m, l, 'W')
    for k, (m, l) in props.views().items(): L['v_' + k] = (m, l, 'W')
    for k, m in props.step_views().items(): L['w_' + k] = (m, None, (8, 12))
    for k, m in props.tuple_views().items(): L['t_' + k] = (m, None, 'W')
    for k, (m, l) in props.blocks().items(): L['b_' + k] = (m, l, (5, 6))
    hs = []
    for k, (m, l, bits) in L.items():
        names = list(dict.fromkeys(list(m.params) + [v for v in (l or {}).values() if isinstance(v, str)]))
        if names:
            for v in range(4 if T else 1):
                env = good(m, l, rnd)
                if env is None: raise Exception('no assignment for ' + k)
                hs.append(h_static(f'{k}_all{v}', m, bits, env, l))
                for p in names:
                    if len(names) > 1 and 'join<' not in m.cpp: hs.append(h_static(f'{k}_{p}{v}', m, bits, {p: env[p]}, l))
        dd = [d for d in dict.fromkeys(d for st, dims in m.branches() for d in dims if d not in st)]
        for v in ((0, 1) if not T else (0, 1, 2)):
            if dd: hs.append(h_statidx(f'{k}_ix{v}', m, bits, {d: v for d in dd}, {}, l))
        hs.append(h_typed(f'{k}_ty', m, (6, 7) if bits == 'W' else (4, 5), len(hs), l))
        if T:
            for d in dd:
                if len(dd) > 1: hs.append(h_statidx(f'{k}_i{d}', m, bits, {d: 1}, {}, l))
    for pre, T_, kw, bits in (('r', (60, 10), dict(views=(1, 4)), 'W'), ('q', (60, 12), dict(ops=DIV, views=(1, 3), maxd=3), (4, 5))):
        for k, (o, m) in chains('c17' + pre, T_[not T], **kw).items():
            env = good(m, None, rnd)
            if env is None: continue
            hs.append(h_static(f'{pre}{k}_all', m, bits, env)); ps = [p for p in m.params if rnd.random() < .5]
            if ps: hs.append(h_static(f'{pre}{k}_some', m, bits, {p: env[p] for p in ps}))
    th = []
    for k, (o, m, kw) in props.orders().items():
        if not m.params: continue
        for v in range(3 if T else 1):
            for _ in range(400):
                env = good(m, None, rnd)
                if max(env.values()) <= 3: break
            else: continue
            th.append(h_trav(f'o_{k}_all{v}', o, m, env, (3, 3)))
            ps = list(m.params)
            for p in ps if T else ps[:1]:
                if len(ps) > 1 and 'join<' not in m.cpp: th.append(h_trav(f'o_{k}_{p}{v}', o, m, {p: env[p]}, (2, 3)))
    return dict(tus=pack_tus('c17_', hs, 16) + pack_tus('c17t_', th, 6, HEAD + IXS) + pack_tus('c17a_', arith(), 3, HEAD + ARITH))
