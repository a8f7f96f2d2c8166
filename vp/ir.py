"""Parser for the subset of textual LLVM IR (opaque pointers, LLVM 18) that the harnesses compile to."""
import re

TOK = re.compile(r'''
   \s+ | ;[^\n]*
 | (?P<str>c?"(?:[^"\\]|\\.)*"(?!:))
 | (?P<gid>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<lid>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+|"(?:[^"\\]|\\.)*")?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+)?(?:e[-+]?\d+)?|0x[0-9A-Fa-fKLMHR]+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z_$.0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[=,(){}\[\]<>*:|])
''', re.X)

def tokenize(s):
    out = []; pos = 0; n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m: raise IRError("token at: " + s[pos:pos+60])
        if m.lastgroup: out.append((m.lastgroup, m.group(m.lastgroup)))
        pos = m.end()
    return out

class IRError(Exception): pass

# ---- types: ('i',n) ('ptr',) ('void',) ('f',32|64|80) ('arr',n,t) ('struct',(t..),packed) ('vec',n,t) ('label',) ('meta',)
class P:
    """token cursor"""
    def __init__(self, toks, mod): self.t = toks; self.i = 0; self.mod = mod
    def peek(self, k=0): return self.t[self.i+k] if self.i+k < len(self.t) else (None, None)
    def next(self): x = self.t[self.i]; self.i += 1; return x
    def at(self, v): return self.i < len(self.t) and self.t[self.i][1] == v
    def accept(self, v):
        if self.at(v): self.i += 1; return True
        return False
    def expect(self, v):
        if not self.accept(v): raise IRError(f"expected {v!r} got {self.peek()} in {' '.join(x[1] for x in self.t)[:300]}")
    def done(self): return self.i >= len(self.t)

    def is_type(self):
        k, v = self.peek()
        if k == 'word': return bool(re.fullmatch(r'i\d+|ptr|void|float|double|x86_fp80|half|label|metadata|opaque', v))
        if k == 'lid': return v in self.mod.types
        return v in ('{', '[', '<')
    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.fullmatch(r'i\d+', v): ty = ('i', int(v[1:]))
            elif v == 'ptr':
                ty = ('ptr',)
                if self.accept('addrspace'): self.expect('('); self.next(); self.expect(')')
            elif v == 'void': ty = ('void',)
            elif v == 'float': ty = ('f', 32)
            elif v == 'double': ty = ('f', 64)
            elif v == 'x86_fp80': ty = ('f', 80)
            elif v == 'label': ty = ('label',)
            elif v == 'metadata': ty = ('meta',)
            elif v == 'opaque': ty = ('opaque',)
            else: raise IRError("type " + v)
        elif k == 'lid':
            t = self.mod.types.get(v)
            if t is None: raise IRError("unknown type " + v)
            ty = ('named', v)
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect(']'); ty = ('arr', n, e)
        elif v == '{':
            ty = ('struct', self.typelist('}'), False)
        elif v == '<':
            if self.accept('{'):
                ty = ('struct', self.typelist('}'), True); self.expect('>')
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect('>'); ty = ('vec', n, e)
        else: raise IRError(f"type {k} {v}")
        while self.at('('):  # function type
            self.next(); d = 1
            while d:
                x = self.next()[1]
                d += (x == '(') - (x == ')')
            ty = ('fn', ty)
        return ty
    def typelist(self, end):
        r = []
        while not self.accept(end):
            r.append(self.type()); self.accept(',')
        return tuple(r)

    ATTRS = set('noundef nonnull zeroext signext inreg byval sret noalias nocapture readonly writeonly readnone returned immarg nest swiftself align dereferenceable dereferenceable_or_null noinline nofree allocalign allocptr inalloca preallocated range elementtype writable dead_on_unwind'.split())
    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'attr' : self.next(); continue
            if k == 'word' and v in self.ATTRS:
                self.next()
                if v == 'align' and self.peek()[0] == 'num': self.next()
                elif self.at('('):
                    d = 0
                    while True:
                        x = self.next()[1]
                        d += (x == '(') - (x == ')')
                        if d == 0: break
                continue
            if k == 'str': # string attributes "x"="y"
                self.next()
                if self.accept('='): self.next()
                continue
            return
    def tyval(self):
        t = self.type(); self.skip_attrs(); return (t, self.value(t))
    def value(self, ty):
        k, v = self.next()
        if k == 'lid': return ('reg', v)
        if k == 'gid': return ('glob', v)
        if k == 'num':
            if ty[0] == 'f': return ('fp', v)
            return ('int', int(v))
        if k == 'str': return ('cstr', unescape(v[2:-1]))
        if k == 'word':
            if v == 'true': return ('int', 1)
            if v == 'false': return ('int', 0)
            if v in ('null',): return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'none': return ('null',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw'): self.next()
                if self.accept('inrange'):
                    self.expect('('); self.next(); self.next(); self.expect(')')
                self.expect('('); t = self.type(); self.expect(',')
                ops = []
                while True:
                    self.accept('inrange')
                    ops.append(self.tyval())
                    if not self.accept(','): break
                self.expect(')')
                return ('cgep', t, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('('); o = self.tyval(); self.expect('to'); t = self.type(); self.expect(')')
                return ('ccast', v, o, t)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or'):
                while self.peek()[1] in ('nuw', 'nsw'): self.next()
                self.expect('('); a = self.tyval(); self.expect(','); b = self.tyval(); self.expect(')')
                return ('cbin', v, a, b)
            raise IRError("const " + v)
        if v in ('{', '['):
            end = '}' if v == '{' else ']'
            r = []
            while not self.accept(end):
                r.append(self.tyval()); self.accept(',')
            return ('agg', r)
        if v == '<':
            if self.accept('{'):
                r = []
                while not self.accept('}'):
                    r.append(self.tyval()); self.accept(',')
                self.expect('>'); return ('agg', r)
            r = []
            while not self.accept('>'):
                r.append(self.tyval()); self.accept(',')
            return ('agg', r)
        if k == 'meta':
            # metadata operand: swallow till , or ) at depth 0
            d = 0
            while not self.done():
                x = self.peek()[1]
                if d == 0 and x in (',', ')'): break
                d += (x in '({[') - (x in ')}]'); self.next()
            return ('meta',)
        raise IRError(f"value {k} {v} in {' '.join(x[1] for x in self.t)[:300]}")

def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)

class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'x')
    def __init__(self, op, res=None, ty=None, a=None, x=None): self.op, self.res, self.ty, self.a, self.x = op, res, ty, a, x

class Func:
    def __init__(self, name): self.name = name; self.params = []; self.blocks = {}; self.entry = None; self.ret = None

class Module:
    def __init__(self, text):
        self.types = {}; self.globals = {}; self.funcs = {}; self.decls = set()
        self._layout = {}
        lines = text.split('\n')
        for l in lines:
            m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type', l)
            if m: self.types[m.group(1)] = ()
        for l in lines:
            m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$', l)
            if m: self.types[m.group(1)] = P(tokenize(m.group(2)), self).type()
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('@'): self.parse_global(l)
            elif l.startswith('declare'):
                m = re.search(r'(@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))\(', l)
                if m: self.decls.add(m.group(1))
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                self.parse_func(lines[i], lines[i+1:j]); i = j
            i += 1
    def parse_global(self, l):
        toks = tokenize(l); p = P(toks, self)
        name = p.next()[1]; p.expect('=')
        const = False
        while True:
            k, v = p.peek()
            if v in ('global', 'constant'): const = v == 'constant'; p.next(); break
            if v == 'alias': return
            p.next()
            if p.at('('):
                while p.next()[1] != ')': pass
        ty = p.type()
        init = None
        if not p.done() and p.peek()[1] not in (',',): init = p.value(ty)
        self.globals[name] = (ty, init, const)
    def parse_func(self, head, body):
        p = P(tokenize(head.rsplit('{', 1)[0]), self); p.expect('define')
        while p.peek()[0] != 'gid': # find the return type: the type right before the name
            if p.is_type():
                save = p.i; ty = p.type(); p_ret = ty
            else: p.next()
        f = Func(p.next()[1]); f.ret = p_ret
        p.expect('(')
        while not p.accept(')'):
            if p.accept('...'): continue
            t = p.type(); p.skip_attrs()
            f.params.append((t, p.next()[1] if p.peek()[0] == 'lid' else None)); p.accept(',')
        # block labels
        cur = None; first = True; j = 0
        nparams = sum(1 for t, n in f.params if n and re.fullmatch(r'%\d+', n))
        while j < len(body):
            l = body[j]; j += 1
            s = l.strip()
            if not s or s.startswith(';'): continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):(\s|$)', l)
            if m:
                cur = '%' + m.group(1); f.blocks[cur] = []
                if f.entry is None: f.entry = cur
                continue
            if cur is None:
                cur = '%' + str(nparams); f.blocks[cur] = []; f.entry = cur
            if re.match(r'^(switch|indirectbr)\b', s):
                while ']' not in s: s += ' ' + body[j].strip(); j += 1
            if re.search(r'\binvoke\b', s) and 'unwind label' not in s:
                s += ' ' + body[j].strip(); j += 1
            if re.search(r'\blandingpad\b', s):
                while j < len(body) and re.match(r'\s+(cleanup|catch|filter)', body[j]): j += 1
            f.blocks[cur].append(self.parse_inst(s))
        self.funcs[f.name] = f
    def parse_inst(self, s):
        p = P(tokenize(s), self)
        res = None
        if p.peek()[0] == 'lid' and p.peek(1)[1] == '=':
            res = p.next()[1]; p.next()
        while p.peek()[1] in ('tail', 'musttail', 'notail'): p.next()
        op = p.next()[1]
        if op in ('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'):
            flags = set()
            while p.peek()[1] in ('nuw','nsw','exact','disjoint'): flags.add(p.next()[1])
            t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Inst('bin', res, t, (a, b), op)
        if op in ('fadd','fsub','fmul','fdiv','frem','fcmp','fneg'):
            return Inst('unsupported', res, None, None, op)
        if op == 'icmp':
            p.accept('samesign')
            pred = p.next()[1]; t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
            return Inst('icmp', res, t, (a, b), pred)
        if op in ('zext','sext','trunc','ptrtoint','inttoptr','bitcast','addrspacecast'):
            while p.peek()[1] in ('nneg','nuw','nsw'): p.next()
            t, v = p.tyval(); p.expect('to'); t2 = p.type()
            return Inst('cast', res, t2, (t, v), op)
        if op in ('uitofp','sitofp','fptoui','fptosi','fpext','fptrunc'):
            return Inst('unsupported', res, None, None, op)
        if op == 'freeze':
            t, v = p.tyval(); return Inst('freeze', res, t, v)
        if op == 'select':
            while p.peek()[1] in ('fast','nnan','ninf','nsz'): p.next()
            c = p.tyval(); p.expect(','); a = p.tyval(); p.expect(','); b = p.tyval()
            return Inst('select', res, a[0], (c, a, b))
        if op == 'phi':
            t = p.type(); inc = {}
            while p.accept('['):
                v = p.value(t); p.expect(','); l = p.next()[1]; p.expect(']'); inc[l] = v; p.accept(',')
            return Inst('phi', res, t, inc)
        if op == 'br':
            if p.accept('label'): return Inst('br', None, None, p.next()[1])
            c = p.tyval(); p.expect(','); p.expect('label'); a = p.next()[1]; p.expect(','); p.expect('label'); b = p.next()[1]
            return Inst('cbr', None, None, (c[1], a, b))
        if op == 'switch':
            t, v = p.tyval(); p.expect(','); p.expect('label'); d = p.next()[1]; p.expect('[')
            cases = []
            while not p.accept(']'):
                ct, cv = p.tyval(); p.expect(','); p.expect('label'); cases.append((cv, p.next()[1]))
            return Inst('switch', None, t, (v, d, cases))
        if op == 'ret':
            if p.accept('void'): return Inst('ret')
            t, v = p.tyval(); return Inst('ret', None, t, v)
        if op == 'unreachable': return Inst('unreachable')
        if op == 'alloca':
            p.accept('inalloca'); t = p.type(); n = (('i', 64), ('int', 1))
            if p.accept(','):
                if p.is_type(): n = p.tyval()
            return Inst('alloca', res, t, n)
        if op == 'load':
            at = p.accept('atomic'); p.accept('volatile'); t = p.type(); p.expect(','); q = p.tyval()
            return Inst('load', res, t, q[1])
        if op == 'store':
            at = p.accept('atomic'); p.accept('volatile'); v = p.tyval(); p.expect(','); q = p.tyval()
            return Inst('store', None, v[0], (v[1], q[1]))
        if op == 'getelementptr':
            while p.peek()[1] in ('inbounds','nuw','nusw'): p.next()
            t = p.type(); ops = []
            while p.accept(','):
                if p.peek()[0] == 'meta': break
                ops.append(p.tyval())
            return Inst('gep', res, t, ops)
        if op in ('call', 'invoke'):
            while True:
                k, v = p.peek()
                if v in ('fastcc','ccc','coldcc','tail','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): p.next(); continue
                i0 = p.i; p.skip_attrs()
                if p.i == i0: break
            t = p.type()
            if t[0] == 'fn': t = t[1]
            if p.peek()[1] == 'asm': return Inst('unsupported', res, t, None, 'asm')
            callee = p.value(('ptr',)); p.expect('(')
            args = []
            while not p.accept(')'):
                at = p.type(); p.skip_attrs()
                if at == ('meta',):
                    args.append((at, p.value(at) if p.peek()[1] not in (',', ')') else ('meta',)))
                else: args.append((at, p.value(at)))
                p.accept(',')
            normal = None
            if op == 'invoke':
                while p.peek()[1] != 'to': p.next()
                p.next(); p.expect('label'); normal = p.next()[1]
            return Inst('call', res, t, (callee, args), normal)
        if op == 'extractvalue':
            t, v = p.tyval(); idx = []
            while p.accept(','):
                if p.peek()[0] == 'num': idx.append(int(p.next()[1]))
                else: break
            return Inst('extractvalue', res, t, v, idx)
        if op == 'insertvalue':
            t, v = p.tyval(); p.expect(','); e = p.tyval(); idx = []
            while p.accept(','):
                if p.peek()[0] == 'num': idx.append(int(p.next()[1]))
                else: break
            return Inst('insertvalue', res, t, (v, e), idx)
        if op == 'atomicrmw':
            p.accept('volatile'); o = p.next()[1]; q = p.tyval(); p.expect(','); v = p.tyval()
            return Inst('atomicrmw', res, v[0], (q[1], v[1]), o)
        if op == 'fence': return Inst('nop')
        return Inst('unsupported', res, None, None, op + ' :: ' + s[:200])

    # ---- layout
    def resolve(self, t):
        while t[0] == 'named': t = self.types[t[1]]
        return t
    def align(self, t):
        t = self.resolve(t); k = t[0]
        if k == 'i':
            n = t[1]; b = 1
            while b * 8 < n: b *= 2
            return min(b, 16)
        if k == 'ptr': return 8
        if k == 'f': return {32: 4, 64: 8, 80: 16}[t[1]]
        if k == 'arr': return self.align(t[2])
        if k == 'vec': return self.size(t)
        if k == 'struct': return 1 if t[2] else max([self.align(e) for e in t[1]] or [1])
        raise IRError("align " + str(t))
    def store_size(self, t):
        t = self.resolve(t)
        if t[0] == 'i': return (t[1] + 7) // 8
        return self.size(t)
    def size(self, t):
        t = self.resolve(t); k = t[0]
        if k == 'i':
            a = self.align(t); b = (t[1] + 7) // 8
            return (b + a - 1) // a * a
        if k == 'ptr': return 8
        if k == 'f': return {32: 4, 64: 8, 80: 16}[t[1]]
        if k in ('arr', 'vec'): return t[1] * self.size(t[2])
        if k == 'struct': return self.struct_layout(t)[1]
        raise IRError("size " + str(t))
    def struct_layout(self, t):
        r = self._layout.get(t)
        if r is None:
            off = 0; offs = []
            for e in t[1]:
                a = 1 if t[2] else self.align(e)
                off = (off + a - 1) // a * a; offs.append(off); off += self.size(e)
            a = self.align(t); r = (offs, (off + a - 1) // a * a); self._layout[t] = r
        return r
