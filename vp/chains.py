"""Compositions of layouts and views drawn by a fixed pseudo-random sequence (the same on every run)."""
import random
from .model import *
S = scalar
def base(r, maxd=4, tuples=True):
    """a layout: (model, dimensions outermost last)"""
    m = S(r.choice(['char', 'short', 'int', 'double'])); names = list('xyzw')[:r.randint(2, maxd)]; r.shuffle(names)
    if tuples and r.random() < .25:
        a, b = names[0], names[-1]
        f = [S('double').vec(a, 'n' + a), S('int').vec(b, 'n' + b).vec(a, 'm' + a), S('int'), S('short').vec(b, 'm' + b)]
        k = r.randint(2, 4); m = tup('t', *f[:k])
        for d in names[1:-1] or ['o']: m = m.vec(d, 'n' + d)
        return m, names
    for d in names:
        c = r.random()
        m = m.arr(d, r.randint(2, 5)) if c < .12 else m.bcast(d, 'n' + d) if c < .22 else m.vec(d, 'n' + d)
    return m, names
def plain(m):
    """dynamic dimensions outside of tuples, outermost first"""
    t, out = m.tree, []
    while t is not None and t[0] == 'dyn': out.append(t[1]); t = t[2]
    return [d for d in out if d != 'p']
def first_stat(t):
    while t[0] == 'dyn': t = t[2]
    return t[2]
def view(r, m, q, ops):
    """one more view of m; q: counter of parameters"""
    p = lambda k: f'p{q[0]}{k}'
    ds = plain(m); q[0] += 1
    op = r.choice(ops)
    if r.random() < .4 and tree_has(m.tree, 't') and m.isstat('t'):
        l = len(first_stat(m.tree)); c = r.random()
        if c < .4 or l < 2: return m.fix('t', r.randrange(l))
        if c < .6: return m.shift('t', 1)
        if c < .8: return m.rev('t')
        return m.slice('t', l // 2, 1)
    if op in ('hoist', 'reorder', 'ren', 'join', 'merge') and len(ds) < 2 or not ds: op = 'rev' if ds else None
    if op is None: return m
    d = r.choice(ds)
    if op == 'fix' and len(ds) < 2: op = 'shift'
    lit1 = r.random() < .15
    if op == 'fix': return m.fix(d, p('a'))
    if op == 'shift': return m.shift(d, 1 if lit1 else p('a'))
    if op == 'slice': return m.slice(d, 1 if lit1 else p('a'), p('n'))
    if op == 'span': return m.span(d, p('a'), p('b'))
    if op == 'rev': return m.rev(d)
    if op == 'step': return m.step(d, p('a'), p('k'))
    if op == 'hoist': return m.hoist(*r.sample(ds, r.randint(1, min(2, len(ds)))))
    if op == 'reorder':
        if m.tree is None or len(m.branches()) > 1 or 'p' in m.lens: return m.hoist(d)
        o = ds[:]; r.shuffle(o); return m.reorder(*o)
    if op == 'ren':
        k = r.randint(1, len(ds)); src = r.sample(ds, k); dst = src[1:] + src[:1] if k > 1 and r.random() < .6 else None
        if not dst: dst = [src[0].upper() if src[0].islower() else src[0].lower()]; src = src[:1]
        if set(dst) & (set(m.lens) - set(src)): return m.rev(d)
        return m.ren(**dict(zip(src, dst)))
    if op == 'blocks': return m.blocks(d, 'B', 'q', p('L')) if not {'B', 'q'} & set(m.lens) else m.rev(d)
    if op == 'dyn': return m.blocks_dyn(d, 'D', 'e', 'p', p('L')) if not {'D', 'e', 'p'} & set(m.lens) else m.rev(d)
    if op == 'static': return m.blocks_static(d, 'b', 'C', 'g', p('L')) if not {'b', 'C', 'g'} & set(m.lens) else m.rev(d)
    if op == 'merge':
        fr = [x for x in ds if x not in 'De']       # the presence of an element depends on both
        if len(fr) < 2 or 'm' in m.lens: return m.rev(d)
        a, b = r.sample(fr, 2); return m.merge(a, b, 'm')
    raise ValueError(op)
LINEAR = ['fix', 'shift', 'slice', 'span', 'rev', 'hoist', 'reorder', 'ren', 'shift', 'rev']
DIV = LINEAR + ['step', 'step', 'blocks', 'blocks', 'dyn', 'static', 'merge', 'merge']
BLK = ['blocks', 'blocks', 'dyn', 'static', 'static', 'merge', 'merge', 'rev', 'shift', 'slice', 'ren', 'hoist', 'reorder', 'fix']
def chains(seed, n, ops=LINEAR, views=(2, 4), maxd=4, tuples=True):
    """name -> (layout, view of it)"""
    R = {}
    for k in range(n):
        r = random.Random(f'{seed}/{k}'); q = [0]; o, _ = base(r, maxd, tuples); m = o
        for _ in range(r.randint(*views)): m = view(r, m, q, ops)
        R[f'{k}'] = (o, m)
    return R
def joint(seed, n, ops=DIV, views=(0, 3)):
    """name -> (structures with common dimensions, function adding drawn views to their union)"""
    R = {}
    for k in range(n):
        r = random.Random(f'{seed}/{k}'); parts = []
        for j in range(r.randint(2, 3)):
            m = S(r.choice(['char', 'short', 'int', 'double']))
            for d in r.sample('xyz', r.randint(1, 3 if j else 2)): m = m.vec(d, 'n' + d)
            ds = plain(m); c = r.random()
            if c < .2 and len(ds) > 1: m = m.fix(r.choice(ds), f'f{j}')
            elif c < .35: m = m.rev(r.choice(ds))
            elif c < .45: d = r.choice(ds); m = m.ren(**{d: 'v'})        # the others may still have the old name
            elif c < .55: m = m.hoist(r.choice(ds))
            elif c < .62: m = m.bcast('b', 'nb')
            parts.append(m)
        # one length per name: v is the renamed dimension in at most one structure
        if sum('v' in m.lens for m in parts) > 1: parts = [m for i, m in enumerate(parts) if 'v' not in m.lens or i == [j for j, x in enumerate(parts) if 'v' in x.lens][0]]
        def f(u, r=r):
            q = [0]
            for _ in range(r.randint(*views)): u = view(r, u, q, ops)
            return u
        R[f'{k}'] = (parts, f)
    return R
