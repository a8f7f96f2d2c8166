"""Structure models: each model knows the library expression that builds it and, independently of the library, the
documented meaning of its dimensions, lengths, size and offsets as plain C++ integer expressions over the harness'
variables.  The harness generator turns a model into symbolic harnesses; the library side is the real code."""
import itertools

def P(*xs):
    return ' '.join(xs)

def lit(p):      # library side of a parameter
    return f'noarr::lit<{p}>' if isinstance(p, int) else str(p)
def ex(p):       # oracle side
    return f'(vp_size){p}' if isinstance(p, int) else str(p)

SIZES = {'char': 1, 'short': 2, 'int': 4, 'float': 4, 'double': 8, 'long': 8}

class St:
    """tree: None | ('dyn', d, tree) | ('stat', d, [trees]);  map: idx -> idx of the layout-level base"""
    def __init__(s):
        s.cpp = ''; s.tree = None; s.lens = {}; s.pre = []; s.params = {}; s.bc = set(); s.base = None
        s.sub = None; s.mp = None; s.off = None; s.size = None; s.elem = None; s.protos = []; s.seed = ''
    def copy(s):
        o = St(); o.__dict__.update(s.__dict__)
        o.lens = dict(s.lens); o.pre = list(s.pre); o.params = dict(s.params); o.bc = set(s.bc); o.protos = list(s.protos)
        return o
    def par(s, *ps, pos=False):
        for p in ps:
            if isinstance(p, str): s.params.setdefault(p, None)
    def app(s, proto):
        o = s.copy(); o.cpp = f'{s.cpp} ^ {proto}'; o.protos.append(proto); return o
    # ---------------------------------------------------------------- layouts
    # an index environment maps 'd' -> index in d and '#d' -> length in d that comes with the state
    def layout(o):
        o.base = o; return o
    def vecu(s, d):
        """vector whose length comes with the state"""
        o = s.app(f"noarr::vector<'{d}'>()")
        rm = lambda i: {k: v for k, v in i.items() if k not in (d, '#' + d)}
        o.tree = ('dyn', d, s.tree); o.lens[d] = lambda i: i['#' + d]
        o.size = lambda i: f"({i['#' + d]} * {s.size(rm(i))})"
        o.off = lambda i: f'({i[d]} * {s.size(rm(i))} + {s.off(rm(i))})'; o.sub = o.mp = None
        return o.layout()
    def bcastu(s, d):
        o = s.app(f"noarr::bcast<'{d}'>()")
        o.tree = ('dyn', d, s.tree); o.lens[d] = lambda i: i['#' + d]; o.bc.add(d)
        o.sub = s; o.mp = lambda i: {k: v for k, v in i.items() if k not in (d, '#' + d)}
        return o if s.base is not s else o.layout()
    def setlen(s, d, n):
        o = s.view(f"noarr::set_length<'{d}'>({lit(n)})", lambda i: {**i, '#' + d: ex(n)}, ps=(n,))
        return o.layout() if s.base is s else o
    def vec(s, d, n):
        o = s.vecu(d).setlen(d, n); o.cpp = f"{s.cpp} ^ noarr::vector<'{d}'>({lit(n)})"; o.protos = s.protos + [f"noarr::vector<'{d}'>({lit(n)})"]; return o
    def arr(s, d, n):
        o = s.vec(d, n); o.cpp = f"{s.cpp} ^ noarr::array<'{d}', {n}>()"; o.protos[-1] = f"noarr::array<'{d}', {n}>()"; return o
    def bcast(s, d, n):
        o = s.bcastu(d).setlen(d, n); o.cpp = f"{s.cpp} ^ noarr::bcast<'{d}'>({lit(n)})"; o.protos = s.protos + [f"noarr::bcast<'{d}'>({lit(n)})"]; return o
    # ---------------------------------------------------------------- views
    def view(s, proto, mp, drop=(), add=None, tree=None, pre=(), ps=()):
        """mp: index environment of the view -> of the viewed; drop: dims that disappear; add: lengths of new/changed dims"""
        o = s.app(proto); o.par(*ps)
        o.pre = [(lambda i, f=f: f(mp(i))) for f in s.pre] + list(pre)
        if tree is not None: o.tree = tree
        o.lens = {d: (lambda i, f=f: f(mp(i))) for d, f in s.lens.items() if d not in drop}
        o.lens.update(add or {})
        old, osz, oel = s.off, s.size, s.elem
        o.off = lambda i: old(mp(i)); o.size = lambda i: osz(mp(i)); o.elem = lambda i: oel(mp(i))
        o.sub = s; o.mp = mp
        return o
    def fix(s, d, p):
        mp = lambda i: {**i, d: p if s.isstat(d) else ex(p)}
        pre = [] if s.isstat(d) else [lambda i: f'{ex(p)} < {s.lens[d](i)}']
        o = s.view(f"noarr::fix<'{d}'>({lit(p)})", mp, (d,), tree=tree_fix(s.tree, d, p), pre=pre, ps=(p,))
        if tree_fix(s.tree, d, p) is None: o.tree = None
        o.bc.discard(d); return o
    def _stat(s, proto, d, f, g, **kw):
        mp = lambda i: {**i, d: f(i[d])} if d in i else i
        return s.view(proto, mp, tree=tree_sub(s.tree, d, g))
    def shift(s, d, p):
        proto = f"noarr::shift<'{d}'>({lit(p)})"
        if s.isstat(d): return s._stat(proto, d, lambda x: x + p, lambda l: l[p:])
        def mp(i):
            i = dict(i)
            if d in i: i[d] = f'({i[d]} + {ex(p)})'
            if '#' + d in i: i['#' + d] = f"({i['#' + d]} + {ex(p)})"
            return i
        return s.view(proto, mp, (), {d: lambda i: i['#' + d] if '#' + d in i else f'({s.lens[d](mp(i))} - {ex(p)})'}, pre=[lambda i: f'{ex(p)} <= {s.lens[d](mp(i))}'], ps=(p,))
    def slice(s, d, a, n):
        proto = f"noarr::slice<'{d}'>({lit(a)}, {lit(n)})"
        if s.isstat(d): return s._stat(proto, d, lambda x: x + a, lambda l: l[a:a + n])
        mp = lambda i: {**i, d: f'({i[d]} + {ex(a)})'} if d in i else i
        return s.view(proto, mp, (), {d: lambda i: ex(n)}, pre=[lambda i: f'{ex(a)} <= {s.lens[d](i)}', lambda i: f'{ex(n)} <= {s.lens[d](i)} - {ex(a)}'], ps=(a, n))
    def span(s, d, a, b):
        proto = f"noarr::span<'{d}'>({lit(a)}, {lit(b)})"
        if s.isstat(d): return s._stat(proto, d, lambda x: x + a, lambda l: l[a:b])
        mp = lambda i: {**i, d: f'({i[d]} + {ex(a)})'} if d in i else i
        return s.view(proto, mp, (), {d: lambda i: f'({ex(b)} - {ex(a)})'}, pre=[lambda i: f'{ex(a)} <= {ex(b)}', lambda i: f'{ex(b)} <= {s.lens[d](i)}'], ps=(a, b))
    def step(s, d, a, st):
        proto = f"noarr::step<'{d}'>({lit(a)}, {lit(st)})"
        if s.isstat(d): return s._stat(proto, d, lambda x: x * st + a, lambda l: l[a::st])
        mp = lambda i: {**i, d: f'({i[d]} * {ex(st)} + {ex(a)})'} if d in i else i
        return s.view(proto, mp, (), {d: lambda i: f'(({s.lens[d](i)} + {ex(st)} - {ex(a)} - 1) / {ex(st)})'}, pre=[lambda i: f'({ex(a)} < {ex(st)}) | ({ex(a)} <= {s.lens[d](i)})', lambda i: f'{ex(st)} != 0', lambda i: f'{s.lens[d](i)} <= {s.lens[d](i)} + {ex(st)}'], ps=(a, st))
    def rev(s, d):
        proto = f"noarr::reverse<'{d}'>()"
        if s.isstat(d):
            n = stat_len(s.tree, d); return s._stat(proto, d, lambda x: n - 1 - x, lambda l: l[::-1])
        mp = lambda i: {**i, d: f'({s.lens[d](i)} - 1 - {i[d]})'} if d in i else i
        return s.view(proto, mp)
    def ren(s, **m):
        inv = {v: k for k, v in m.items()}
        mp = lambda i: {('#' + inv.get(d[1:], d[1:]) if d[0] == '#' else inv.get(d, d)): v for d, v in i.items()}
        args = ', '.join(f"'{a}', '{b}'" for a, b in m.items())
        o = s.view(f'noarr::rename<{args}>()', mp, tree=tree_ren(s.tree, m))
        o.lens = {m.get(d, d): (lambda i, f=f: f(mp(i))) for d, f in s.lens.items()}
        o.bc = {m.get(d, d) for d in s.bc}; return o
    def hoist(s, *ds):
        t = s.tree
        for d in reversed(ds): t = tree_hoist(t, d)
        return s.view(f"noarr::hoist<{', '.join(repr(d) for d in ds)}>()", lambda i: i, tree=t)
    def reorder(s, *ds):
        t = s.tree
        for d in reversed(ds): t = tree_hoist(t, d)
        return s.view(f"noarr::reorder<{', '.join(repr(d) for d in ds)}>()", lambda i: i, tree=t)
    def join(s, a, b, d):
        def mp(i):
            r = {k: v for k, v in i.items() if k not in (d, '#' + d)}
            if d in i: r[a] = r[b] = i[d]
            if '#' + d in i: r['#' + a] = r['#' + b] = i['#' + d]
            return r
        o = s.view(f"noarr::join<'{a}', '{b}', '{d}'>()", mp, (a, b), {d: lambda i: s.lens[a](mp(i))}, tree=tree_join(s.tree, a, b, d), pre=[lambda i: f'{s.lens[a](mp(i))} == {s.lens[b](mp(i))}'])
        return o
    # ---------------------------------------------------------------- blocks
    def blocks(s, d, M, m, L=None, dyn=None):
        """into_blocks / into_blocks_dynamic; the block length, the number of blocks or both come with the state ('#m', '#M') or L fixes the block length"""
        kill = {M, m, '#' + M, '#' + m, d, '#' + d} | ({dyn} if dyn else set())
        up = (lambda n, k: f'(({n} + {k} - 1) / {k})') if dyn else (lambda n, k: f'({n} / {k})')
        def rest(i): return {k: v for k, v in i.items() if k not in kill}
        def full(i):      # length of the blocked dimension
            return f"({i['#' + M]} * {i['#' + m]})" if '#' + M in i and '#' + m in i else s.lens[d](rest(i))
        def lm(i): return i['#' + m] if '#' + m in i else up(s.lens[d](rest(i)), i['#' + M])
        def lM(i): return i['#' + M] if '#' + M in i else up(s.lens[d](rest(i)), i['#' + m])
        def mp(i):
            r = rest(i)
            if '#' + M in i and '#' + m in i: r['#' + d] = full(i)
            if M in i and m in i: r[d] = f'({i[M]} * {lm(i)} + {i[m]})'
            return r
        add = {M: lM, m: lm}
        name = f"noarr::into_blocks<'{d}', '{M}', '{m}'>()"
        pre = [lambda i: f"{i['#' + m] if '#' + m in i else i['#' + M]} != 0", lambda i: f'{lm(i)} != 0', lambda i: f'{lM(i)} * {lm(i)} == {full(i)}']
        tr = tree_repl(s.tree, d, lambda t: ('dyn', M, ('dyn', m, t)))
        if dyn:
            name = f"noarr::into_blocks_dynamic<'{d}', '{M}', '{m}', '{dyn}'>()"
            add[dyn] = lambda i: f'(vp_size)({i[M]} * {lm(i)} + {i[m]} < {full(i)})'
            pre = [lambda i: f"{i['#' + m] if '#' + m in i else i['#' + M]} != 0"]
            tr = tree_repl(s.tree, d, lambda t: ('dyn', M, ('dyn', m, ('dyn', dyn, t))))
        o = s.view(name, mp, (d,), add, tree=tr, pre=pre)
        if L is None: return o
        q = o.setlen(m, L)
        pr = name[:-1] + lit(L) + ')'
        q.cpp = f'{s.cpp} ^ {pr}'; q.protos = s.protos + [pr]
        q.sub = s; q.mp = lambda i: mp({**i, '#' + m: ex(L)})
        return q
    def blocks_dyn(s, d, M, m, p, L=None): return s.blocks(d, M, m, L, p)
    def blocks_static(s, d, b, M, m, L):
        kill = (b, M, m)
        def rest(i): return {k: v for k, v in i.items() if k not in kill}
        ln = lambda i: s.lens[d](rest(i))
        def mp(i):
            r = rest(i)
            if b in i and m in i and M in i: r[d] = f'({i[M]} * {ex(L)} + {i[m]})' if i[b] == 0 else f'({ln(i)} / {ex(L)} * {ex(L)} + {i[m]})'
            return r
        return s.view(f"noarr::into_blocks_static<'{d}', '{b}', '{M}', '{m}'>({lit(L)})", mp, (d,),
                      {M: lambda i: f'({ln(i)} / {ex(L)})' if i[b] == 0 else '(vp_size)1', m: lambda i: ex(L) if i[b] == 0 else f'({ln(i)} % {ex(L)})'},
                      tree=tree_repl(s.tree, d, lambda t: ('stat', b, [('dyn', M, ('dyn', m, t)), ('dyn', M, ('dyn', m, t))])), pre=[lambda i: f'{ex(L)} != 0'], ps=(L,))
    def merge(s, M, m, d, known='both'):
        """known: which of the merged lengths the structure knows; the other follows from the length in d that comes with the state"""
        def rest(i): return {k: v for k, v in i.items() if k not in (d, '#' + d, M, m, '#' + M, '#' + m)}
        def lm(i): return s.lens[m](rest(i)) if known in ('both', 'minor') else f"({i['#' + d]} / {s.lens[M](rest(i))})"
        def lM(i): return s.lens[M](rest(i)) if known in ('both', 'major') else f"({i['#' + d]} / {s.lens[m](rest(i))})"
        def mp(i):
            r = rest(i)
            if known == 'minor': r['#' + M] = lM(i)
            if known == 'major': r['#' + m] = lm(i)
            if d in i: r[M] = f'({i[d]} / {lm(i)})'; r[m] = f'({i[d]} % {lm(i)})'
            return r
        pre = [lambda i: f'{lm(i)} != 0']
        if known == 'minor': pre = [lambda i: f'{s.lens[m](rest(i))} != 0', lambda i: f"{lM(i)} * {lm(i)} == {i['#' + d]}"]
        if known == 'major': pre = [lambda i: f'{s.lens[M](rest(i))} != 0', lambda i: f"{lM(i)} * {lm(i)} == {i['#' + d]}", lambda i: f'{lm(i)} != 0']
        return s.view(f"noarr::merge_blocks<'{M}', '{m}', '{d}'>()", mp, (M, m), {d: lambda i: i['#' + d] if '#' + d in i else f'({lM(i)} * {lm(i)})'}, tree=tree_merge(s.tree, M, m, d), pre=pre)
    # ---------------------------------------------------------------- queries
    def isstat(s, d): return tree_isstat(s.tree, d)
    def branches(s):
        """all (static assignment, dynamic dims in order) of the tree"""
        return list(tree_paths(s.tree))

def scalar(ty='int'):
    s = St(); s.cpp = f'noarr::scalar<{ty}>()'; s.seed = s.cpp
    s.size = lambda i: f'(vp_size){SIZES[ty]}'; s.off = lambda i: '(vp_size)0'; s.elem = lambda i: (ty, SIZES[ty]); s.base = s
    return s

def tup(d, *subs):
    s = St(); s.cpp = f"noarr::pack({', '.join(x.cpp for x in subs)}) ^ noarr::tuple<'{d}'>()"; s.seed = s.cpp
    for x in subs:
        s.params.update(x.params); s.pre += x.pre; s.bc |= x.bc
    s.tree = ('stat', d, [x.tree for x in subs])
    names = {k for x in subs for k in x.lens}
    for k in names:
        s.lens[k] = lambda i, k=k: subs[i[d]].lens[k](i)
    s.size = lambda i: '(' + ' + '.join(x.size(i) for x in subs) + ')'
    s.off = lambda i: '(' + ' + '.join([x.size(i) for x in subs[:i[d]]] + [subs[i[d]].off(i)]) + ')'
    s.elem = lambda i: subs[i[d]].elem(i)
    s.base = s
    return s

# -------------------------------------------------------------------- trees
def tree_map(t, f):
    if t is None: return None
    r = f(t)
    if r is not NotImplemented: return r
    return ('dyn', t[1], tree_map(t[2], f)) if t[0] == 'dyn' else ('stat', t[1], [tree_map(x, f) for x in t[2]])
def tree_fix(t, d, p):
    return tree_map(t, lambda n: NotImplemented if n[1] != d else (n[2] if n[0] == 'dyn' else n[2][p]))
def tree_sub(t, d, f): return tree_map(t, lambda n: ('stat', d, f(n[2])) if n[1] == d else NotImplemented)
def tree_ren(t, m):
    if t is None: return None
    return ('dyn', m.get(t[1], t[1]), tree_ren(t[2], m)) if t[0] == 'dyn' else ('stat', m.get(t[1], t[1]), [tree_ren(x, m) for x in t[2]])
def tree_repl(t, d, f): return tree_map(t, lambda n: f(n[2]) if n[1] == d else NotImplemented)
def tree_hoist(t, d):
    if tree_isstat(t, d):
        n = stat_len(t, d); return ('stat', d, [tree_fix(t, d, k) for k in range(n)])
    return ('dyn', d, tree_fix(t, d, None))
def tree_isstat(t, d):
    if t is None: return False
    if t[1] == d: return t[0] == 'stat'
    return tree_isstat(t[2], d) if t[0] == 'dyn' else any(tree_isstat(x, d) for x in t[2])
def stat_len(t, d):
    if t[0] == 'stat' and t[1] == d: return len(t[2])
    return stat_len(t[2], d) if t[0] == 'dyn' else stat_len(t[2][0], d)
def tree_has(t, d): return t is not None and (t[1] == d or (tree_has(t[2], d) if t[0] == 'dyn' else any(tree_has(x, d) for x in t[2])))
def tree_join(t, a, b, d): return ('dyn', d, tree_fix(tree_fix(t, a, None), b, None))
def tree_merge(t, M, m, d):
    def f(n):
        if n[1] in (M, m):
            o = m if n[1] == M else M
            return tree_repl(n[2], o, lambda x: ('dyn', d, x))
        return NotImplemented
    return tree_map(t, f)
def tree_paths(t, st=(), dims=()):
    if t is None: yield dict(st), list(dims); return
    if t[0] == 'dyn': yield from tree_paths(t[2], st, dims + (t[1],))
    else:
        for k, x in enumerate(t[2]): yield from tree_paths(x, st + ((t[1], k),), dims + (t[1],))
