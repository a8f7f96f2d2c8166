"""Symbolic executor for LLVM IR (see ir.py) on top of z3 bit-vectors and arrays.

Integers are python ints (concrete) or z3 BitVecRef; i1 symbolic values are z3 BoolRef.  Pointers are (object, offset).
Every branch on a symbolic condition forks the path if both sides are satisfiable, so loops are unrolled exactly as far as the
path condition allows (there is no silent truncation: exceeding a limit raises BoundExceeded).
"""
import struct, time, re
import z3
from .ir import Module, IRError

class Unsupported(Exception): pass
class BoundExceeded(Exception):
    def __init__(self, msg, state=None): super().__init__(msg); self.state = state
class Undecided(Exception): pass
class Fork(Exception):
    def __init__(self, cond, concr=None): self.cond = cond; self.concr = concr
class PathEnd(Exception): pass
class NoMerge(Exception): pass
MERGE_AFTER = 8         # forks at one branch before its two sides are joined again where possible
class Violation(Exception):
    def __init__(self, kind, label, model): self.kind, self.label, self.model = kind, label, model

class _U:
    def __repr__(self): return 'UNDEF'
UNDEF = _U()

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off): self.obj = obj; self.off = off
    def __repr__(self): return f'Ptr({self.obj},{self.off})'
NULL = Ptr(0, 0)
class Fn:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n

M64 = (1 << 64) - 1
def mask(v, w): return v & ((1 << w) - 1)
def sgn(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v
def isint(v): return isinstance(v, int)
def bv(v, w):
    if isint(v): return z3.BitVecVal(v, w)
    if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v
def boo(v):
    if isint(v): return z3.BoolVal(bool(v & 1))
    if isinstance(v, z3.BoolRef): return v
    return v == z3.BitVecVal(1, v.size())
def norm(e):
    """z3 -> python int when literal"""
    if isinstance(e, z3.BitVecNumRef): return e.as_long()
    if isinstance(e, z3.BoolRef):
        if z3.is_true(e): return 1
        if z3.is_false(e): return 0
    return e

def flat(t, op): return [y for x in t.children() for y in flat(x, op)] if z3.is_app_of(t, op) else [t]
def unalign(d):
    """c*2^k*(E >> k)*rest -> c*(E - v)*rest when the low k bits of E are the constant v (alignment rounding)"""
    w = d.size(); terms = flat(d, z3.Z3_OP_BADD); changed = False
    for n, t in enumerate(terms):
        fs = flat(t, z3.Z3_OP_BMUL)
        if len(fs) < 2 or not z3.is_bv_value(fs[0]): continue
        for j, f in enumerate(fs[1:], 1):
            if not (z3.is_app_of(f, z3.Z3_OP_CONCAT) and f.num_args() == 2 and z3.is_bv_value(f.arg(0)) and f.arg(0).as_long() == 0): continue
            g = f.arg(1)
            if not z3.is_app_of(g, z3.Z3_OP_EXTRACT): continue
            hi, lo = g.params()
            if hi != w - 1 or g.arg(0).size() != w or lo != f.arg(0).size() or fs[0].as_long() % (1 << lo): continue
            E = g.arg(0); v = z3.simplify(z3.Extract(lo - 1, 0, E))
            if not z3.is_bv_value(v): continue
            r = z3.BitVecVal(fs[0].as_long() >> lo, w) * (E - v.as_long())
            for k, x in enumerate(fs[1:], 1):
                if k != j: r = r * x
            terms[n] = r; changed = True; break
    if not changed: return None
    r = terms[0]
    for t in terms[1:]: r = r + t
    return r
def poly(c):
    """discharge polynomial identities (mod 2^w) with z3's sum-of-monomials normal form"""
    if z3.is_and(c):
        r = [poly(x) for x in c.children()]
        r = [x for x in r if not z3.is_true(x)]
        return z3.BoolVal(True) if not r else z3.And(*r)
    if z3.is_eq(c) and z3.is_bv(c.arg(0)) and c.arg(0).size() > 8:
        try:
            d = z3.simplify(c.arg(0) - c.arg(1), som=True, som_blowup=4000)
            for _ in range(12):
                if z3.is_bv_value(d) and d.as_long() == 0: return z3.BoolVal(True)
                d2 = unalign(d)
                if d2 is None: break
                d = z3.simplify(d2, som=True, som_blowup=4000)
        except z3.Z3Exception: pass
    return c
def binop(op, a, b, w):
    if a is UNDEF or b is UNDEF: return UNDEF
    if w == 1:
        if isint(a) and isint(b):
            return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b, 'mul': a & b}[op]
        A, B = boo(a), boo(b)
        if op in ('and', 'mul'): r = z3.And(A, B)
        elif op == 'or': r = z3.Or(A, B)
        elif op in ('xor', 'add', 'sub'): r = z3.Xor(A, B)
        else: raise Unsupported('i1 ' + op)
        return norm(z3.simplify(r))
    if isint(a) and isint(b):
        if op == 'add': return mask(a + b, w)
        if op == 'sub': return mask(a - b, w)
        if op == 'mul': return mask(a * b, w)
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return mask(a << b, w) if b < w else 0
        if op == 'lshr': return a >> b if b < w else 0
        if op == 'ashr': return mask(sgn(a, w) >> min(b, w - 1), w)
        if op == 'udiv': return a // b
        if op == 'urem': return a % b
        if op in ('sdiv', 'srem'):
            x, y = sgn(a, w), sgn(b, w); q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
            return mask(q if op == 'sdiv' else x - q * y, w)
    if op in ('add', 'or', 'xor', 'sub', 'shl', 'lshr', 'ashr') and isint(b) and b == 0: return a
    if op in ('add', 'or', 'xor') and isint(a) and a == 0: return b
    if op in ('mul', 'and'):
        if (isint(a) and a == 0) or (isint(b) and b == 0): return 0
    if op == 'mul':
        if isint(a) and a == 1: return b
        if isint(b) and b == 1: return a
    if op in ('udiv',) and isint(b) and b == 1: return a
    if op in ('urem',) and isint(b) and b == 1: return 0
    A, B = bv(a, w), bv(b, w)
    if op == 'add': r = A + B
    elif op == 'sub': r = A - B
    elif op == 'mul': r = A * B
    elif op == 'and': r = A & B
    elif op == 'or': r = A | B
    elif op == 'xor': r = A ^ B
    elif op == 'shl': r = A << B
    elif op == 'lshr': r = z3.LShR(A, B)
    elif op == 'ashr': r = A >> B
    elif op == 'udiv': r = z3.UDiv(A, B)
    elif op == 'urem': r = z3.URem(A, B)
    elif op == 'sdiv': r = A / B
    elif op == 'srem': r = z3.SRem(A, B)
    else: raise Unsupported(op)
    return r

CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
       'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}
def icmp(p, a, b, w):
    if a is UNDEF or b is UNDEF: return UNDEF
    if isint(a) and isint(b):
        if p[0] == 's': a, b = sgn(a, w), sgn(b, w)
        k = p if p in ('eq', 'ne') else p[1:]
        return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[k])
    if w == 1:
        A, B = boo(a), boo(b)
        if p == 'eq': return norm(z3.simplify(A == B))
        if p == 'ne': return norm(z3.simplify(z3.Xor(A, B)))
        return icmp(p, bv(a, 8), bv(b, 8), 8)
    return CMP[p](bv(a, w), bv(b, w))

class Obj:
    __slots__ = ('size', 'cells', 'arr', 'freed', 'kind')
    def __init__(self, size, kind): self.size = size; self.cells = {}; self.arr = None; self.freed = False; self.kind = kind
    def copy(self):
        o = Obj(self.size, self.kind); o.cells = dict(self.cells); o.arr = self.arr; o.freed = self.freed; return o

class Frame:
    __slots__ = ('fn', 'block', 'prev', 'ip', 'regs', 'res', 'normal', 'allocas')
    def copy(self):
        f = Frame(); f.fn, f.block, f.prev, f.ip, f.res, f.normal = self.fn, self.block, self.prev, self.ip, self.res, self.normal
        f.regs = dict(self.regs); f.allocas = list(self.allocas); return f

class State:
    def __init__(self): self.frames = []; self.objs = {}; self.path = []; self.model = None; self.nd = []; self.concr = {}; self.steps = 0; self.misc = {}
    def clone(self):
        s = State(); s.frames = [f.copy() for f in self.frames]; s.objs = {k: o.copy() for k, o in self.objs.items()}
        s.path = list(self.path); s.model = self.model; s.nd = list(self.nd); s.concr = dict(self.concr); s.steps = self.steps
        s.misc = {k: (list(v) if isinstance(v, list) else v) for k, v in self.misc.items()}
        return s

class Exec:
    def __init__(self, mod, entry, max_steps=400000, max_paths=20000, qtimeout=20.0, deadline=None, degrade=True):
        self.mod = mod; self.entry = entry; self.max_steps = max_steps; self.max_paths = max_paths
        self.qtimeout = qtimeout; self.deadline = deadline; self.degrade = degrade
        self.nextobj = 1; self.globobj = {}
        self.stats = dict(paths=0, infeasible_ends=0, forks=0, feas_queries=0, check_queries=0, checks_trivial=0, checks=0,
                          solver_s=0.0, insts=0, mem_queries=0, splits=0, unsat=0, sat=0, max_query_s=0.0)
        self.labels = {}   # label -> number of feasible paths that evaluated it
        self.degraded = []
        self.solver = z3.Solver(); self.stack = []
        self.violation = None
        self.opcache = {}
        self.samples = []
        self.site_forks = {}; self.regions = {}; self.spec = 0; self.why = {}

    # ---------------------------------------------------------------- joining the sides of a branch
    def region(self, fn, block):
        """the block at which both sides of the branch ending `block` meet again, if they are small, free of loops and of calls; else None"""
        key = (fn.name, block)
        if key in self.regions: return self.regions[key]
        succ = lambda b: [t for t in self.targets(fn.blocks[b][-1])]
        res = None
        seen = {}; todo = list(succ(block)); ok = True
        # forward reachability, limited; candidates for the join: reached from every path
        def reach(b, stop):
            out = set(); w = [b]
            while w:
                x = w.pop()
                if x in out or x == stop: continue
                out.add(x)
                if len(out) > 40: return None
                w.extend(succ(x))
            return out
        s = succ(block)
        order = []; w = [s[0]]; vis = set()
        while w:
            x = w.pop(0)
            if x in vis: continue
            vis.add(x); order.append(x)
            if len(vis) > 40: break
            w.extend(succ(x))
        for j in order:
            region = set(); good = True
            for t in s:
                if t == j: continue
                r = reach(t, j)
                if r is None: good = False; break
                region |= r
            if not good or block in region or len(region) > 24: continue
            if any(not succ(b) for b in region): continue        # returns or traps inside
            # no cycles, no calls except intrinsics
            if any(i.op == 'call' and not (i.a[0][0] == 'glob' and i.a[0][1].strip('@"').startswith('llvm.') and 'trap' not in i.a[0][1]) or i.op in ('alloca', 'switch', 'atomicrmw') for b in region for i in fn.blocks[b]): continue
            col = {}
            def cyc(b):
                col[b] = 1
                for t in succ(b):
                    if t in region and (col.get(t) == 1 or t not in col and cyc(t)): return True
                col[b] = 2; return False
            if any(cyc(b) for b in list(region) if b not in col): continue
            res = j; break
        self.regions[key] = res
        return res
    def targets(self, i):
        if i.op == 'br': return [i.a]
        if i.op == 'cbr': return [i.a[1], i.a[2]]
        if i.op == 'switch': return [i.a[1]] + [l for _, l in i.a[2]]
        return []
    def merge(self, st, fr, ins, c):
        """execute both sides up to the join with c and not c assumed, and continue with values that depend on c"""
        join = self.region(fr.fn, fr.block)
        if join is None: return False
        c = boo(c); nc = z3.simplify(z3.Not(c)); sides = []
        self.spec += 1
        try:
            for cond, tgt in ((c, ins.a[1]), (nc, ins.a[2])):
                s = st.clone(); s.path.append(cond); s.model = None; f = s.frames[-1]; n = len(s.frames); work = []
                self.jump(s, f, tgt)
                while f.block != join:
                    i = f.fn.blocks[f.block][f.ip]
                    s.steps += 1; self.stats['insts'] += 1
                    self.step(s, f, i, work)
                    if work or len(s.frames) != n: raise NoMerge('')
                sides.append((s, f))
            (a, fa), (b, fb) = sides
            objs = {}
            rev = {v: k for k, v in self.globobj.items()}
            for k in set(a.objs) | set(b.objs):
                for s in (a, b):
                    if k not in s.objs:
                        if k not in rev: raise NoMerge('object')
                        self.glob(s, rev[k])
                objs[k] = self.merge_obj(st, c, a, a.objs[k], b, b.objs[k], k)
            phis = []
            for i in fr.fn.blocks[join]:
                if i.op != 'phi': break
                phis.append((i.res, self.ite(st, c, fa.regs[i.res], fb.regs[i.res], i.ty)))
                if (fa.regs[i.res] is UNDEF) != (fb.regs[i.res] is UNDEF): raise NoMerge('undefined')
        except (NoMerge, Fork, PathEnd, Violation, Unsupported) as e: self.why[type(e).__name__ + str(e)[:60]] = self.why.get(type(e).__name__ + str(e)[:60], 0) + 1; return False
        finally: self.spec -= 1
        self.stats['merged'] = self.stats.get('merged', 0) + 1
        st.objs = objs; st.steps = max(a.steps, b.steps)
        fr.prev = fr.block; fr.block = join; fr.ip = len(phis)
        for r, v in phis: fr.regs[r] = v
        return True
    def merge_obj(self, st, c, sa, a, sb, b, kid):
        if a.freed != b.freed or a.kind != b.kind: raise NoMerge('lifetime')
        o = a.copy()
        if a.arr is not None or b.arr is not None:
            if a.arr is not None and b.arr is not None and a.arr.eq(b.arr): return o
            x, y = self.to_arr(sa, a), self.to_arr(sb, b)
            o.arr = z3.If(c, x, y); o.cells = {}; return o
        o.cells = {}; done = -1
        for k in sorted(set(a.cells) | set(b.cells)):
            if k < done: continue                                       # part of a wider cell
            x, y = a.cells.get(k), b.cells.get(k)
            if x is not None and y is not None and x[0] == y[0]: n, x = x; y = y[1]
            else:
                n = max(q[0] for q in (x, y) if q is not None)
                for q in (a, b):
                    if any(d < k + n and k < d + m and not (k <= d and d + m <= k + n) for d, (m, _) in q.cells.items()): raise NoMerge('cell')
                x, y = self.load_scalar(sa, Ptr(kid, k), n), self.load_scalar(sb, Ptr(kid, k), n)
            done = k + n
            if x is y or (isint(x) and isint(y) and x == y): o.cells[k] = (n, x); continue
            if x is UNDEF and y is UNDEF: continue
            if x is UNDEF or y is UNDEF: raise NoMerge('undefined')
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj: o.cells[k] = (n, self.ite(st, c, x, y, ('ptr',))); continue
            if isinstance(x, (Ptr, Fn)) or isinstance(y, (Ptr, Fn)): raise NoMerge('pointer')
            o.cells[k] = (n, self.ite(st, c, x, y, ('i', 8 * n)))
        return o

    # ---------------------------------------------------------------- solver
    def _tick(self):
        if self.deadline and time.time() > self.deadline: raise Undecided('time budget exhausted')
    def sync(self, path):
        n = 0
        while n < len(self.stack) and n < len(path) and self.stack[n] is path[n]: n += 1
        if len(self.stack) > n: self.solver.pop(len(self.stack) - n); del self.stack[n:]
        for c in path[n:]: self.solver.push(); self.solver.add(c); self.stack.append(c)
    def sat(self, path, extra, kind='feas'):
        """returns model or None; raises Undecided"""
        self._tick()
        t0 = time.time()
        self.stats['feas_queries'] += 1
        try:
            self.sync(path)
            self.solver.set('timeout', 4000)
            r = self.solver.check(*extra)
            if r == z3.sat: return self.solver.model()
            if r == z3.unsat: return None
        finally: self.stats['solver_s'] += time.time() - t0
        return self.hard_sat(list(path) + list(extra))
    def hard_sat(self, cons, timeout=None, depth=0):
        """non-incremental query with value splitting over narrow inputs as a fallback; model / None / Undecided"""
        self._tick()
        t0 = time.time()
        s = z3.SolverFor('QF_ABV') if self.has_array(cons) else z3.SolverFor('QF_BV')
        to = timeout or self.qtimeout
        s.set('timeout', int(1000 * (to if depth == 0 else max(2, to / 4))))
        s.add(*cons)
        r = s.check()
        dt = time.time() - t0
        self.stats['solver_s'] += dt; self.stats['max_query_s'] = max(self.stats['max_query_s'], dt)
        if r == z3.sat: self.stats['sat'] += 1; return s.model()
        if r == z3.unsat: self.stats['unsat'] += 1; return None
        # split on the narrowest nondet variable that occurs
        vs = sorted({v for c in cons for v in self.vars(c)}, key=lambda v: (v.size(), str(v)))
        vs = [v for v in vs if v.size() <= 8]
        if not vs or depth > 6: raise Undecided(f'solver unknown after {dt:.1f}s')
        v = vs[0]; self.stats['splits'] += 1
        for k in range(1 << v.size()):
            sub = [z3.simplify(z3.substitute(c, (v, z3.BitVecVal(k, v.size())))) for c in cons]
            if any(z3.is_false(c) for c in sub): continue
            sub = [c for c in sub if not z3.is_true(c)]
            m = self.hard_sat(sub, to, depth + 1)
            if m is not None:
                # re-ask with the value pinned to obtain a model that mentions v
                return PinnedModel(m, v, k)
        return None
    def has_array(self, cons): return any('Array' in str(c.sort()) for c in cons) or self.arrays_used
    arrays_used = False
    def vars(self, c, _cache={}):
        key = c.get_id()
        hit = _cache.get(key)
        if hit is not None and hit[0].eq(c): return hit[1]
        seen = set(); out = []; todo = [c]
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if isinstance(x, z3.BitVecRef): out.append(x)
            else: todo.extend(x.children())
        _cache[key] = (c, out)
        return out

    def values(self, st, model):
        r = []
        for (ident, var, bits) in st.nd:
            v = model.eval(var, model_completion=True)
            r.append((ident, bits, v.as_long() if isinstance(v, z3.BitVecNumRef) else 0))
        return r

    def feasible_model(self, st):
        if st.model is None:
            st.model = self.sat(st.path, [])
            if st.model is None: raise PathEnd('infeasible')
        return st.model

    def holds(self, st, cond, kind):
        """is cond implied by the path condition?  returns None if yes, else a counter-model."""
        if isint(cond): return None if cond else self.feasible_model(st)
        c = z3.simplify(cond)
        if z3.is_true(c): return None
        c = poly(c)
        if z3.is_true(c): self.stats['poly'] = self.stats.get('poly', 0) + 1; return None
        if st.model is not None and not z3.is_true(st.model.eval(c, model_completion=True)) and not isinstance(st.model, PinnedModel):
            return st.model
        neg = z3.Not(c)
        try:
            return self.hard_sat(list(st.path) + [neg])
        except Undecided:
            if not self.degrade: raise
            # full-width query out of reach: decide the same query for narrower inputs and record the smaller bound
            wide = [v for v in {v for x in st.path + [neg] for v in self.vars(x)} if v.size() > 8]
            for k in (32, 16, 8, 5):
                self._tick()
                subs = [(v, z3.ZeroExt(v.size() - k, z3.BitVec(str(v) + f'!{k}', k))) for v in wide if v.size() > k]
                if not subs: continue
                cons = [z3.simplify(z3.substitute(x, *subs)) for x in st.path + [neg]]
                try: m = self.hard_sat(cons)
                except Undecided: continue
                if m is not None: return SubstModel(m, subs)
                self.degraded.append((kind, k)); return None
            raise

    # ---------------------------------------------------------------- memory
    def alloc(self, st, size, kind):
        i = self.nextobj; self.nextobj += 1
        st.objs[i] = Obj(size, kind); return Ptr(i, 0)
    def obj(self, st, p, n, what):
        if not isinstance(p, Ptr): raise Unsupported(f'{what} through {p!r}')
        if p.obj == 0: self.fail(st, 'null-deref', what)
        o = st.objs[p.obj]
        if o.freed: self.fail(st, 'use-after-free', what)
        off = p.off
        if isint(off) and isint(o.size):
            if not (0 <= off and off + n <= o.size): self.fail(st, 'out-of-bounds', f'{what} of {n} bytes at offset {off} of {o.kind} of {o.size} bytes')
        else:
            self.stats['mem_queries'] += 1
            O, S = bv(off, 64), bv(o.size, 64)
            ok = z3.And(z3.ULE(O, S), z3.ULE(z3.BitVecVal(n, 64), S - O))
            m = self.holds(st, ok, 'bounds')
            if m is not None: raise Violation('out-of-bounds', f'{what} of {n} bytes outside {o.kind}', m)
        return o
    def fail(self, st, kind, label): raise Violation(kind, label, self.feasible_model(st))
    def to_arr(self, st, o):
        if o.arr is None:
            self.arrays_used = True
            a = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8)) if o.kind == 'zeroed' else z3.Array(f'mem{self.nextobj}', z3.BitVecSort(64), z3.BitVecSort(8))
            self.nextobj += 1
            for off, (n, v) in sorted(o.cells.items()):
                if v is UNDEF: continue
                if isinstance(v, (Ptr, Fn)): raise Unsupported('pointer in symbolically indexed object')
                for k in range(n): a = z3.Store(a, z3.BitVecVal(off + k, 64), bv(self.byte(v, n, k), 8))
            o.arr = a; o.cells = {}
        return o.arr
    def byte(self, v, n, k):
        if v is UNDEF: return UNDEF
        if isint(v): return (v >> (8 * k)) & 255
        v = bv(v, 8 * n)
        return norm(z3.simplify(z3.Extract(8 * k + 7, 8 * k, v)))
    def store_scalar(self, st, p, n, v, what='store'):
        o = self.obj(st, p, n, what)
        if isinstance(v, z3.BoolRef): v = bv(v, 8 * n)
        if o.arr is None and isint(p.off):
            off = p.off; cells = o.cells
            for d in [d for d in cells if d < off + n and d + cells[d][0] > off]:
                m, w = cells.pop(d)
                if d >= off and d + m <= off + n: continue
                for k in range(m):
                    if not (off <= d + k < off + n):
                        if isinstance(w, (Ptr, Fn)): raise Unsupported('partial pointer overwrite')
                        cells[d + k] = (1, self.byte(w, m, k))
            cells[off] = (n, v); return
        if isinstance(v, (Ptr, Fn)): raise Unsupported('pointer store at symbolic offset')
        a = self.to_arr(st, o)
        for k in range(n):
            b = self.byte(v, n, k)
            if b is UNDEF: b = 0
            a = z3.Store(a, bv(binop('add', p.off, k, 64), 64), bv(b, 8))
        o.arr = a
    def load_scalar(self, st, p, n, what='load'):
        o = self.obj(st, p, n, what)
        if o.arr is None and isint(p.off):
            off = p.off; c = o.cells.get(off)
            if c and c[0] == n: return c[1]
            bs = []
            for k in range(n):
                b = None
                c = o.cells.get(off + k)
                if c is not None:
                    b = self.byte(c[1], c[0], 0) if not isinstance(c[1], (Ptr, Fn)) else c[1]
                else:
                    for d, (m, w) in o.cells.items():
                        if d <= off + k < d + m:
                            if isinstance(w, (Ptr, Fn)): raise Unsupported('partial pointer load')
                            b = self.byte(w, m, off + k - d); break
                if b is None: b = 0 if o.kind == 'zeroed' else UNDEF
                bs.append(b)
            if any(b is UNDEF for b in bs):
                return UNDEF
            if any(isinstance(b, (Ptr, Fn)) for b in bs): raise Unsupported('pointer bytes')
            if all(isint(b) for b in bs): return sum(b << (8 * k) for k, b in enumerate(bs))
            return z3.simplify(z3.Concat(*[bv(b, 8) for b in reversed(bs)])) if n > 1 else bs[0]
        a = self.to_arr(st, o)
        bs = [z3.Select(a, bv(binop('add', p.off, k, 64), 64)) for k in range(n)]
        return z3.Concat(*reversed(bs)) if n > 1 else bs[0]
    def load(self, st, p, ty):
        ty = self.mod.resolve(ty)
        if ty[0] == 'struct':
            return [self.load(st, self.padd(p, o), e) for o, e in zip(self.mod.struct_layout(ty)[0], ty[1])]
        if ty[0] == 'arr':
            s = self.mod.size(ty[2]); return [self.load(st, self.padd(p, s * k), ty[2]) for k in range(ty[1])]
        if ty[0] == 'vec': raise Unsupported('vector load')
        n = self.mod.store_size(ty); v = self.load_scalar(st, p, n)
        return self.coerce(v, ty, n)
    def coerce(self, v, ty, n):
        if v is UNDEF: return v
        if ty[0] == 'ptr':
            if isinstance(v, (Ptr, Fn)): return v
            return self.int2ptr(v)
        if isinstance(v, (Ptr, Fn)): v = self.ptr2int(v)
        w = ty[1]
        if w == 8 * n: return v
        if isint(v): return mask(v, w)
        if w == 1: return norm(z3.simplify(z3.Extract(0, 0, v) == 1))
        return z3.Extract(w - 1, 0, v)
    def store(self, st, p, ty, v):
        ty = self.mod.resolve(ty)
        if ty[0] == 'struct':
            vs = v if v is not UNDEF else [UNDEF] * len(ty[1])
            for o, e, x in zip(self.mod.struct_layout(ty)[0], ty[1], vs): self.store(st, self.padd(p, o), e, x)
            return
        if ty[0] == 'arr':
            s = self.mod.size(ty[2]); vs = v if v is not UNDEF else [UNDEF] * ty[1]
            for k, x in enumerate(vs): self.store(st, self.padd(p, s * k), ty[2], x)
            return
        if ty[0] == 'vec': raise Unsupported('vector store')
        n = self.mod.store_size(ty)
        if ty[0] == 'i' and ty[1] != 8 * n and v is not UNDEF:
            if isinstance(v, z3.BoolRef): v = bv(v, 8 * n)
            elif not isint(v): v = z3.ZeroExt(8 * n - ty[1], v)
        self.store_scalar(st, p, n, v)
    def padd(self, p, off):
        if isint(off) and off == 0: return p
        if p is UNDEF: return UNDEF
        if not isinstance(p, Ptr): raise Unsupported('gep on ' + repr(p))
        r = binop('add', p.off, off, 64)
        if isint(r): r = sgn(r, 64) if p.obj else r
        return Ptr(p.obj, r)
    def ptr2int(self, p):
        if isinstance(p, Fn): raise Unsupported('ptrtoint fn')
        return binop('add', (p.obj << 40) & M64, mask(p.off, 64) if isint(p.off) else p.off, 64)
    def int2ptr(self, v):
        if isint(v): return Ptr(v >> 40, v & ((1 << 40) - 1)) if v >> 40 else Ptr(0, v)
        raise Unsupported('inttoptr of symbolic value')

    # ---------------------------------------------------------------- values
    def glob(self, st, name):
        if name in self.mod.funcs or name in self.mod.decls: return Fn(name)
        g = self.globobj.get(name)
        if g is None:
            i = self.nextobj; self.nextobj += 1; self.globobj[name] = g = i
        if g not in st.objs:
            if name not in self.mod.globals: raise Unsupported('global ' + name)
            ty, init, const = self.mod.globals[name]
            st.objs[g] = Obj(self.mod.size(ty), 'global ' + name)
            if init is None: raise Unsupported('external global ' + name)
            self.store(st, Ptr(g, 0), ty, self.const(st, init, ty))
        return Ptr(g, 0)
    def zero(self, ty):
        ty = self.mod.resolve(ty)
        if ty[0] in ('i', 'f'): return 0
        if ty[0] == 'ptr': return NULL
        if ty[0] == 'struct': return [self.zero(e) for e in ty[1]]
        if ty[0] in ('arr', 'vec'): return [self.zero(ty[2]) for _ in range(ty[1])]
        raise Unsupported('zero ' + str(ty))
    def const(self, st, v, ty):
        k = v[0]
        if k == 'int': return mask(v[1], self.mod.resolve(ty)[1])
        if k == 'null': return NULL
        if k == 'undef':
            t = self.mod.resolve(ty)
            if t[0] == 'struct': return [self.const(st, v, e) for e in t[1]]
            if t[0] == 'arr': return [self.const(st, v, t[2]) for _ in range(t[1])]
            return UNDEF
        if k == 'zero': return self.zero(ty)
        if k == 'glob': return self.glob(st, v[1])
        if k == 'cstr': return list(v[1])
        if k == 'agg': return [self.const(st, x, t) for t, x in v[1]]
        if k == 'cgep': return self.gep(st, v[1], [(t, self.const(st, x, t)) for t, x in v[2]])
        if k == 'ccast': return self.cast(v[1], v[2][0], self.const(st, v[2][1], v[2][0]), v[3])
        if k == 'cbin': return binop(v[1], self.const(st, v[2][1], v[2][0]), self.const(st, v[3][1], v[3][0]), self.mod.resolve(v[2][0])[1])
        if k == 'fp':
            w = self.mod.resolve(ty)[1]; s = v[1]
            d = struct.unpack('<d', struct.pack('<Q', int(s, 16)))[0] if s.startswith('0x') else float(s)
            return struct.unpack('<Q', struct.pack('<d', d))[0] if w == 64 else struct.unpack('<I', struct.pack('<f', d))[0]
        if k == 'meta': return None
        raise Unsupported('const ' + str(v))
    def val(self, st, fr, v, ty):
        if v[0] == 'reg':
            x = fr.regs[v[1]]
            return x
        return self.const(st, v, ty)
    def gep(self, st, ty, ops):
        p = ops[0][1]
        t = ty
        for n, (it, iv) in enumerate(ops[1:]):
            w = self.mod.resolve(it)[1] if it[0] == 'i' else 64
            if iv is UNDEF: return UNDEF
            if n > 0:
                rt = self.mod.resolve(t)
                if rt[0] == 'struct':
                    p = self.padd(p, self.mod.struct_layout(rt)[0][iv]); t = rt[1][iv]; continue
                t = rt[2]
            if isint(iv): iv = mask(sgn(iv, w), 64)
            elif w < 64: iv = z3.SignExt(64 - w, iv)
            p = self.padd(p, binop('mul', iv, self.mod.size(t), 64))
        return p
    def cast(self, op, t, v, t2):
        t = self.mod.resolve(t); t2 = self.mod.resolve(t2)
        if v is UNDEF: return UNDEF
        if op == 'zext':
            if isint(v): return v
            if isinstance(v, z3.BoolRef): return bv(v, t2[1])
            return z3.ZeroExt(t2[1] - t[1], v)
        if op == 'sext':
            if isint(v): return mask(sgn(v, t[1]), t2[1])
            if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(-1, t2[1]), z3.BitVecVal(0, t2[1]))
            return z3.SignExt(t2[1] - t[1], v)
        if op == 'trunc':
            if isint(v): return mask(v, t2[1])
            if t2[1] == 1: return norm(z3.simplify(z3.Extract(0, 0, v) == 1))
            return z3.Extract(t2[1] - 1, 0, v)
        if op == 'ptrtoint':
            r = self.ptr2int(v); w = t2[1]
            if w == 64: return r
            return mask(r, w) if isint(r) else z3.Extract(w - 1, 0, r)
        if op == 'inttoptr': return self.int2ptr(v)
        if op in ('bitcast', 'addrspacecast'):
            return v
        raise Unsupported('cast ' + op)
    def ite(self, st, c, a, b, ty):
        """c symbolic bool"""
        if a is UNDEF: return b
        if b is UNDEF: return a
        t = self.mod.resolve(ty)
        if isinstance(a, list): return [self.ite(st, c, x, y, e) for x, y, e in zip(a, b, t[1] if t[0] == 'struct' else [t[2]] * t[1])]
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                if isint(a.off) and isint(b.off) and a.off == b.off: return a
                return Ptr(a.obj, z3.If(c, bv(a.off, 64), bv(b.off, 64)))
            raise Fork(c)
        if t[1] == 1: return norm(z3.simplify(z3.If(c, boo(a), boo(b))))
        if isint(a) and isint(b) and a == b: return a
        return z3.If(c, bv(a, t[1]), bv(b, t[1]))

    def concretize(self, st, e):
        if isint(e): return e
        k = e.get_id()
        if k in st.concr: return st.concr[k][0]
        s = z3.simplify(e)
        if isinstance(s, z3.BitVecNumRef): return s.as_long()
        m = self.feasible_model(st)
        v = m.eval(e, model_completion=True)
        raise Fork(e == v, (k, v.as_long(), e))

    # ---------------------------------------------------------------- run
    def run(self):
        st = State(); self.push_call(st, self.mod.funcs[self.entry], [], None, None)
        work = [st]
        while work:
            st = work.pop()
            self._tick()
            try:
                self.run_state(st, work)
            except PathEnd as e:
                if str(e) == 'infeasible' or str(e) == 'assume': self.stats['infeasible_ends'] += 1
                else: self.stats['paths'] += 1
                if self.stats['paths'] > self.max_paths: raise BoundExceeded('too many paths')
            except Violation as v:
                self.violation = dict(kind=v.kind, label=v.label, values=self.values(st, v.model))
                return
    def fork(self, st, work, cond, concr=None):
        """continue st with one side, push the other; cond is symbolic"""
        c = z3.simplify(cond)
        if z3.is_true(c) or z3.is_false(c):
            if concr and z3.is_true(c): st.concr[concr[0]] = (concr[1], concr[2])
            return z3.is_true(c)
        m = self.feasible_model(st)
        side = z3.is_true(m.eval(c, model_completion=True))
        nc = z3.simplify(z3.Not(c))
        other = self.sat(st.path, [nc if side else c])
        if other is not None:
            self.stats['forks'] += 1
            s2 = st.clone(); s2.path.append(nc if side else c); s2.model = other
            if concr and not side: s2.concr[concr[0]] = (concr[1], concr[2])
            st.path.append(c if side else nc)
            if concr and side: st.concr[concr[0]] = (concr[1], concr[2])
            return side, s2
        if concr and side: st.concr[concr[0]] = (concr[1], concr[2])
        return side

    def push_call(self, st, fn, args, res, normal):
        f = Frame(); f.fn = fn; f.block = fn.entry; f.prev = None; f.ip = 0; f.res = res; f.normal = normal; f.allocas = []
        f.regs = {}
        for (t, n), a in zip(fn.params, args):
            if n: f.regs[n] = a
        for t, n in fn.params[len(args):]:      # called through a type with fewer parameters (outlined OpenMP regions)
            if n: f.regs[n] = UNDEF
        st.frames.append(f)
        if len(st.frames) > 200: raise BoundExceeded('call depth', st)

    def jump(self, st, fr, target):
        fr.prev = fr.block; fr.block = target; fr.ip = 0
        insts = fr.fn.blocks[target]
        vals = []
        for ins in insts:
            if ins.op != 'phi': break
            vals.append((ins.res, self.val(st, fr, ins.a[fr.prev], ins.ty)))
        for r, v in vals: fr.regs[r] = v
        fr.ip = len(vals)

    def run_state(self, st, work):
        while True:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block][fr.ip]
            st.steps += 1; self.stats['insts'] += 1
            if st.steps > self.max_steps: raise BoundExceeded('step limit', st)
            if self.stats['insts'] % 20000 == 0: self._tick()
            try:
                self.step(st, fr, ins, work)
            except Fork as f:
                r = self.fork(st, work, f.cond, f.concr)
                if isinstance(r, tuple):
                    work.append(r[1])
                elif f.concr is None and ins.op == 'select':
                    # single feasible side: resolve directly
                    c, a, b = ins.a
                    fr.regs[ins.res] = self.val(st, fr, (a if r else b)[1], ins.ty); fr.ip += 1
                    continue
                if isinstance(r, tuple) and f.concr is None and ins.op == 'select':
                    c, a, b = ins.a
                    side, s2 = r
                    fr.regs[ins.res] = self.val(st, fr, (a if side else b)[1], ins.ty); fr.ip += 1
                    f2 = s2.frames[-1]; f2.regs[ins.res] = self.val(s2, f2, (b if side else a)[1], ins.ty); f2.ip += 1

    def step(self, st, fr, ins, work):
        op = ins.op
        if op == 'bin':
            w = self.mod.resolve(ins.ty)
            if w[0] != 'i': raise Unsupported('vector arithmetic')
            w = w[1]
            a = self.val(st, fr, ins.a[0], ins.ty); b = self.val(st, fr, ins.a[1], ins.ty)
            if ins.x == 'and' and w > 1 and (a is UNDEF) != (b is UNDEF) and isint(b if a is UNDEF else a):
                # part of a register is undefined (fields packed by SROA): an arbitrary value in the kept bits
                self.nextobj += 1; v = z3.BitVec(f'undef{self.nextobj}', w)
                if a is UNDEF: a = v
                else: b = v
            if ins.x in ('udiv', 'urem', 'sdiv', 'srem') and b is not UNDEF:
                if isint(b):
                    if b == 0: self.fail(st, 'division-by-zero', ins.x)
                else:
                    m = self.holds(st, b != 0, 'div')
                    if m is not None: raise Violation('division-by-zero', ins.x, m)
            fr.regs[ins.res] = binop(ins.x, a, b, w)
        elif op == 'icmp':
            t = self.mod.resolve(ins.ty)
            a = self.val(st, fr, ins.a[0], ins.ty); b = self.val(st, fr, ins.a[1], ins.ty)
            if t[0] == 'ptr' and a is not UNDEF and b is not UNDEF:
                if isinstance(a, Fn) or isinstance(b, Fn):
                    e = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
                    fr.regs[ins.res] = int(e if ins.x == 'eq' else not e)
                elif a.obj == b.obj:
                    fr.regs[ins.res] = icmp(ins.x, mask(a.off, 64) if isint(a.off) else a.off, mask(b.off, 64) if isint(b.off) else b.off, 64)
                elif ins.x in ('eq', 'ne'): fr.regs[ins.res] = int(ins.x == 'ne')
                else: fr.regs[ins.res] = icmp(ins.x, self.ptr2int(a), self.ptr2int(b), 64)
            else: fr.regs[ins.res] = icmp(ins.x, a, b, t[1] if len(t) > 1 else 64)
        elif op == 'cast':
            fr.regs[ins.res] = self.cast(ins.x, ins.a[0], self.val(st, fr, ins.a[1], ins.a[0]), ins.ty)
        elif op == 'select':
            c, a, b = ins.a
            cv = self.val(st, fr, c[1], c[0])
            if cv is UNDEF: raise Unsupported('select on undef')
            if isint(cv): fr.regs[ins.res] = self.val(st, fr, (a if cv else b)[1], ins.ty)
            else: fr.regs[ins.res] = self.ite(st, cv, self.val(st, fr, a[1], ins.ty), self.val(st, fr, b[1], ins.ty), ins.ty)
        elif op == 'freeze':
            v = self.val(st, fr, ins.a, ins.ty); fr.regs[ins.res] = 0 if v is UNDEF else v
        elif op == 'br':
            self.jump(st, fr, ins.a); return
        elif op == 'cbr':
            c = self.val(st, fr, ins.a[0], ('i', 1))
            if c is UNDEF: raise Unsupported('branch on undef')
            if isint(c): self.jump(st, fr, ins.a[1] if c else ins.a[2]); return
            k = id(ins)
            if (self.spec or self.site_forks.get(k, 0) > MERGE_AFTER) and self.merge(st, fr, ins, c): return
            if self.spec: raise NoMerge('branch')
            r = self.fork(st, work, c)
            if isinstance(r, tuple):
                side, s2 = r; self.site_forks[k] = self.site_forks.get(k, 0) + 1
                self.jump(s2, s2.frames[-1], ins.a[2] if side else ins.a[1]); work.append(s2)
            else: side = r
            self.jump(st, fr, ins.a[1] if side else ins.a[2]); return
        elif op == 'switch':
            v = self.val(st, fr, ins.a[0], ins.ty)
            w = self.mod.resolve(ins.ty)[1]
            if v is UNDEF: raise Unsupported('switch on undef')
            if not isint(v):
                groups = {}
                for cv, l in ins.a[2]:
                    if l != ins.a[1]: groups.setdefault(l, []).append(mask(cv[1], w))
                for l, cs in groups.items():        # one path per target, not per value
                    r = self.fork(st, work, z3.simplify(z3.Or(*[v == x for x in cs])))
                    if isinstance(r, tuple):
                        side, s2 = r
                        if side:
                            # st takes the target, s2 stays: continue deciding with a pushed copy of st
                            self.jump(st, st.frames[-1], l); work.append(st.clone()); st.__dict__.update(s2.__dict__); fr = st.frames[-1]
                        else: self.jump(s2, s2.frames[-1], l); work.append(s2)
                    elif r: self.jump(st, fr, l); return
                self.jump(st, fr, ins.a[1]); return
            tgt = ins.a[1]
            for cv, l in ins.a[2]:
                if mask(cv[1], w) == v: tgt = l; break
            self.jump(st, fr, tgt); return
        elif op == 'ret':
            v = self.val(st, fr, ins.a, ins.ty) if ins.ty else None
            for o in fr.allocas:
                if o in st.objs: st.objs[o].freed = True
            st.frames.pop()
            if not st.frames:
                if st.model is None: self.feasible_model(st)
                if len(self.samples) < 3: self.samples.append([(i, x) for i, b, x in self.values(st, st.model)])
                raise PathEnd('done')
            c = st.frames[-1]
            if fr.res is not None: c.regs[fr.res] = v
            if fr.normal: self.jump(st, c, fr.normal)
            return
        elif op == 'unreachable': self.fail(st, 'unreachable', 'unreachable reached')
        elif op == 'alloca':
            n = self.val(st, fr, ins.a[1], ins.a[0])
            n = self.concretize(st, n)
            p = self.alloc(st, self.mod.size(ins.ty) * n, 'stack object'); fr.allocas.append(p.obj); fr.regs[ins.res] = p
        elif op == 'load':
            fr.regs[ins.res] = self.load(st, self.val(st, fr, ins.a, ('ptr',)), ins.ty)
        elif op == 'store':
            v = self.val(st, fr, ins.a[0], ins.ty); self.store(st, self.val(st, fr, ins.a[1], ('ptr',)), ins.ty, v)
        elif op == 'gep':
            fr.regs[ins.res] = self.gep(st, ins.ty, [(t, self.val(st, fr, v, t)) for t, v in ins.a])
        elif op == 'call':
            if self.call(st, fr, ins, work): return
        elif op == 'extractvalue':
            v = self.val(st, fr, ins.a, ins.ty)
            for i in ins.x: v = v[i] if v is not UNDEF else UNDEF
            fr.regs[ins.res] = v
        elif op == 'insertvalue':
            v = self.val(st, fr, ins.a[0], ins.ty); e = self.val(st, fr, ins.a[1][1], ins.a[1][0])
            fr.regs[ins.res] = self.insert(v, ins.x, e)
        elif op == 'atomicrmw':
            p = self.val(st, fr, ins.a[0], ('ptr',)); v = self.val(st, fr, ins.a[1], ins.ty); old = self.load(st, p, ins.ty)
            w = self.mod.resolve(ins.ty)[1]
            if ins.x == 'xchg': new = v
            else: new = binop(ins.x, old, v, w)
            self.store(st, p, ins.ty, new); fr.regs[ins.res] = old
        elif op == 'nop': pass
        else: raise Unsupported(f'{op} {ins.x}')
        fr.ip += 1
    def insert(self, v, idx, e):
        v = list(v); v[idx[0]] = e if len(idx) == 1 else self.insert(v[idx[0]], idx[1:], e); return v

    # ---------------------------------------------------------------- calls
    def cstr(self, st, p):
        o = st.objs[p.obj]; s = ''
        k = p.off
        while True:
            c = self.load_scalar(st, Ptr(p.obj, k), 1)
            if c == 0: return s
            s += chr(c); k += 1
    def call(self, st, fr, ins, work):
        callee, args = ins.a
        cv = self.val(st, fr, callee, ('ptr',))
        if not isinstance(cv, Fn): raise Unsupported('indirect call through ' + repr(cv))
        name = cv.name
        nm = name[1:].strip('"')
        if nm.startswith('llvm.'):
            r = self.intrinsic(st, fr, nm, ins, args)
        else:
            A = [self.val(st, fr, v, t) for t, v in args]
            h = HANDLERS.get(nm)
            if h: r = h(self, st, A, ins)
            elif name in self.mod.funcs:
                fr.ip += 1
                self.push_call(st, self.mod.funcs[name], A, ins.res, ins.x); return True
            else:
                h = self.extern(nm)
                if not h: raise Unsupported('call to external ' + nm)
                r = h(self, st, A, ins)
        if ins.res is not None: fr.regs[ins.res] = r
        if ins.x: self.jump(st, fr, ins.x); return True
        return False
    def extern(self, nm):
        if nm.startswith(('_Znwm', '_Znam', '_ZnwmSt', '_ZnamSt')): return h_new
        if nm.startswith(('_ZdlPv', '_ZdaPv')): return h_delete
        if re.match(r'_ZSt\d+__throw|_ZSt9terminatev|__cxa_pure|__assert_fail|abort|_ZSt21__glibcxx_assert_fail', nm): return lambda ex, st, A, ins: ex.fail(st, 'abort', nm)
        return None
    def intrinsic(self, st, fr, nm, ins, args):
        base = nm.split('.')[1]
        if nm.startswith(('llvm.lifetime', 'llvm.experimental.noalias', 'llvm.assume', 'llvm.dbg', 'llvm.invariant', 'llvm.donothing', 'llvm.sideeffect', 'llvm.var.annotation')): return None
        if base in ('ubsantrap', 'trap', 'debugtrap'): self.fail(st, 'undefined-behaviour', nm)
        A = [self.val(st, fr, v, t) for t, v in args]
        w = self.mod.resolve(ins.ty)[1] if self.mod.resolve(ins.ty)[0] == 'i' else None
        if base in ('umax', 'umin', 'smax', 'smin'):
            if A[0] is UNDEF or A[1] is UNDEF: return UNDEF
            p = {'umax': 'uge', 'umin': 'ule', 'smax': 'sge', 'smin': 'sle'}[base]
            c = icmp(p, A[0], A[1], w)
            if isint(c): return A[0] if c else A[1]
            return z3.If(c, bv(A[0], w), bv(A[1], w))
        if base == 'usub' and '.sat' in nm:
            c = icmp('uge', A[0], A[1], w)
            d = binop('sub', A[0], A[1], w)
            return (d if c else 0) if isint(c) else z3.If(c, bv(d, w), z3.BitVecVal(0, w))
        if base in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and 'overflow' in nm:
            t = self.mod.resolve(ins.ty); w = t[1][0][1]; o = base[1:]
            r = binop(o, A[0], A[1], w); ew = 2 * w
            if isint(A[0]) and isint(A[1]):
                x, y = (A if base[0] == 'u' else (sgn(A[0], w), sgn(A[1], w)))
                full = {'add': x + y, 'sub': x - y, 'mul': x * y}[o]
                ov = int(not ((0 <= full < 1 << w) if base[0] == 'u' else (-(1 << w - 1) <= full < 1 << w - 1)))
                return [r, ov]
            ext = (lambda v: z3.ZeroExt(w, bv(v, w))) if base[0] == 'u' else (lambda v: z3.SignExt(w, bv(v, w)))
            full = {'add': ext(A[0]) + ext(A[1]), 'sub': ext(A[0]) - ext(A[1]), 'mul': ext(A[0]) * ext(A[1])}[o]
            return [r, norm(z3.simplify(full != ext(r)))]
        if base == 'ctpop':
            if isint(A[0]): return bin(A[0]).count('1')
            return sum([z3.ZeroExt(w - 1, z3.Extract(i, i, A[0])) for i in range(1, w)], z3.ZeroExt(w - 1, z3.Extract(0, 0, A[0])))
        if base in ('ctlz', 'cttz'):
            if isint(A[0]):
                if A[0] == 0: return w
                return w - A[0].bit_length() if base == 'ctlz' else (A[0] & -A[0]).bit_length() - 1
            r = z3.BitVecVal(w, w)
            rng = range(w) if base == 'ctlz' else range(w - 1, -1, -1)
            for i in rng: r = z3.If(z3.Extract(i, i, A[0]) == 1, z3.BitVecVal(w - 1 - i if base == 'ctlz' else i, w), r)
            return r
        if base == 'abs':
            c = icmp('slt', A[0], 0, w); n = binop('sub', 0, A[0], w)
            return (n if c else A[0]) if isint(c) else z3.If(c, bv(n, w), bv(A[0], w))
        if base in ('fshl', 'fshr'):
            x, y, s = [bv(a, w) for a in A]; s = z3.URem(s, z3.BitVecVal(w, w)); c = z3.Concat(x, y); s2 = z3.ZeroExt(w, s)
            r = z3.Extract(2 * w - 1, w, c << s2) if base == 'fshl' else z3.Extract(w - 1, 0, z3.LShR(c, s2))
            return norm(z3.simplify(r))
        if base == 'bswap':
            n = w // 8; return norm(z3.simplify(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, bv(A[0], w)) for k in range(n)])))
        if base == 'expect': return A[0]
        if base == 'is' and 'constant' in nm: return 0
        if base in ('memcpy', 'memmove'): return h_memcpy(self, st, A, ins)
        if base == 'memset': return h_memset(self, st, A, ins)
        if base == 'objectsize': return M64 if not A[1] else 0
        if base == 'stacksave': return NULL
        if base == 'stackrestore': return None
        if base == 'launder' or base == 'strip': return A[0]
        if base == 'threadlocal': return A[0]
        raise Unsupported(nm)

class PinnedModel:
    def __init__(self, m, var, val): self.m, self.var, self.v = m, var, val
    def eval(self, e, model_completion=True):
        return self.m.eval(z3.simplify(z3.substitute(e, (self.var, z3.BitVecVal(self.v, self.var.size())))), model_completion=model_completion)
class SubstModel:
    def __init__(self, m, subs): self.m, self.subs = m, subs
    def eval(self, e, model_completion=True):
        return self.m.eval(z3.simplify(z3.substitute(e, *self.subs)), model_completion=model_completion)

# -------------------------------------------------------------------- handlers
def h_nondet(ex, st, A, ins):
    ident, bits = A[0], A[1]
    if not isint(ident) or not isint(bits): raise Unsupported('vp_nondet with symbolic id')
    n = sum(1 for x in st.nd if x[0] == ident)
    var = z3.BitVec(f'n{ident}_{n}' if n else f'n{ident}', bits)
    st.nd.append((ident, var, bits))
    return z3.ZeroExt(64 - bits, var) if bits < 64 else var
def h_assume(ex, st, A, ins):
    c = A[0]
    if c is UNDEF: raise Unsupported('assume undef')
    if isint(c):
        if not c: raise PathEnd('assume')
        return
    c = z3.simplify(boo(c))
    if z3.is_true(c): return
    if z3.is_false(c): raise PathEnd('assume')
    if st.model is not None and z3.is_true(st.model.eval(c, model_completion=True)): st.path.append(c); return
    m = ex.sat(st.path, [c])
    if m is None: raise PathEnd('assume')
    st.path.append(c); st.model = m
def h_check(ex, st, A, ins):
    label = ex.cstr(st, A[1])
    c = A[0]
    if c is UNDEF: ex.fail(st, 'undefined-value', label)
    ex.labels[label] = ex.labels.get(label, 0) + 1; ex.stats['checks'] += 1
    if isint(c):
        if c: ex.feasible_model(st); ex.stats['checks_trivial'] += 1; return
        ex.fail(st, 'check', label)
    s = z3.simplify(boo(c))
    if z3.is_true(s): ex.feasible_model(st); ex.stats['checks_trivial'] += 1; return
    ex.stats['check_queries'] += 1
    m = ex.holds(st, s, label)
    if m is not None: raise Violation('check', label, m)
def h_new(ex, st, A, ins):
    size = A[0]
    if not isint(size):
        s = z3.simplify(size)
        size = s.as_long() if isinstance(s, z3.BitVecNumRef) else size
    return ex.alloc(st, size, 'heap object')
def h_calloc(ex, st, A, ins):
    n = binop('mul', A[0], A[1], 64)
    if not isint(n): n = norm(z3.simplify(n))
    return ex.alloc(st, n, 'zeroed')
def h_case(ex, st, A, ins): return ex.concretize(st, A[0])
def h_delete(ex, st, A, ins):
    p = A[0]
    if p is UNDEF or (isinstance(p, Ptr) and p.obj == 0): return
    o = st.objs[p.obj]
    if o.freed: ex.fail(st, 'double-free', 'delete')
    if not (isint(p.off) and p.off == 0) or o.kind not in ('heap object', 'zeroed'): ex.fail(st, 'bad-free', 'delete')
    o.freed = True
def h_memcpy(ex, st, A, ins):
    n = ex.concretize(st, A[2])
    if n == 0: return A[0]
    d, s = A[0], A[1]
    so = ex.obj(st, s, n, 'memcpy source'); do = ex.obj(st, d, n, 'memcpy destination')
    if so.arr is None and isint(s.off):
        k = 0; parts = []
        while k < n:
            c = so.cells.get(s.off + k)
            if c and k + c[0] <= n: parts.append((k, c[0], c[1])); k += c[0]
            else:
                parts.append((k, 1, ex.load_scalar(st, ex.padd(s, k), 1))); k += 1
        for k, m, v in parts: ex.store_scalar(st, ex.padd(d, k), m, v)
        return A[0]
    vs = [ex.load_scalar(st, ex.padd(s, k), 1) for k in range(n)]
    for k, v in enumerate(vs): ex.store_scalar(st, ex.padd(d, k), 1, v)
    return A[0]
def h_memset(ex, st, A, ins):
    p, c, n = A[0], A[1], A[2]
    if isint(n) and n == 0: return p
    if isinstance(p, Ptr) and p.obj and isint(p.off) and p.off == 0 and not isint(n):
        o = st.objs[p.obj]
        if not isint(o.size) and z3.is_true(z3.simplify(o.size == n)):
            if o.freed: ex.fail(st, 'use-after-free', 'memset')
            ex.arrays_used = True
            o.cells = {}; o.arr = z3.K(z3.BitVecSort(64), bv(c, 8)); return p
    n = ex.concretize(st, n)
    if n == 0: return p
    o = ex.obj(st, p, n, 'memset')
    if o.arr is None and isint(p.off) and p.off == 0 and isint(o.size) and o.size == n and isint(c) and c == 0 and o.kind == 'heap object':
        o.kind = 'zeroed'; o.cells = {}; return p
    for k in range(n): ex.store_scalar(st, ex.padd(p, k), 1, c)
    return p
def h_memcmp(ex, st, A, ins):
    n = ex.concretize(st, A[2]); r = 0
    for k in reversed(range(n)):
        a = ex.load_scalar(st, ex.padd(A[0], k), 1); b = ex.load_scalar(st, ex.padd(A[1], k), 1)
        if isint(a) and isint(b) and isint(r): r = r if a == b else (1 if a > b else 0xffffffff)
        else: r = z3.If(bv(a, 8) == bv(b, 8), bv(r, 32), z3.If(z3.UGT(bv(a, 8), bv(b, 8)), z3.BitVecVal(1, 32), z3.BitVecVal(-1, 32)))
    return r
def h_strlen(ex, st, A, ins):
    k = 0
    while True:
        c = ex.load_scalar(st, ex.padd(A[0], k), 1)
        c = ex.concretize(st, c)
        if c == 0: return k
        k += 1
def h_nop(ex, st, A, ins): return 0
HANDLERS = {'vp_nondet': h_nondet, 'vp_assume': h_assume, 'vp_check': h_check, 'malloc': h_new, 'calloc': h_calloc, 'vp_case': h_case, 'free': h_delete,
            'memcpy': h_memcpy, 'memmove': h_memcpy, 'memset': h_memset, 'memcmp': h_memcmp, 'bcmp': h_memcmp, 'strlen': h_strlen,
            '__cxa_atexit': h_nop}
