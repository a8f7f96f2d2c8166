"""C19: textual descriptions"""
from .gen import *
import itertools
C19H = r'''#include <noarr/structures_extended.hpp>
#include <noarr/structures/structs/zcurve.hpp>
#include <noarr/structures/extra/mangle.hpp>
#include <cstdint>
#include <limits>
#include <type_traits>
#include "vp.h"
using namespace noarr;
using std::size_t; using std::int8_t; using std::int16_t; using std::int32_t; using std::int64_t; using std::uint8_t; using std::uint16_t; using std::uint32_t; using std::uint64_t;
struct Text { char b[2000]; vp_size n = 0; constexpr Text() {} void append(const char *p, vp_size k) { for (vp_size i = 0; i < k; i++) b[n++] = p[i]; } void push_back(char c) { b[n++] = c; } };
// reads a text back
struct Rd { const Text &t; vp_size i = 0; bool ok = true; explicit Rd(const Text &q) : t(q) {}
  void lit(const char *s) { while (*s) { if (i >= t.n || t.b[i] != *s) { ok = false; return; } i++; s++; } }
  bool at(char c) const { return i < t.n && t.b[i] == c; }
  template<class U> void num(U v) { U r = 0; vp_size d = 0; bool good = true; vp_size first = i; U lim = (U)~(U)0;
    while (i < t.n && t.b[i] != '}' && t.b[i] != '>' && t.b[i] != ',') { U q = (U)(t.b[i] - '0'); good = vp_and(good, vp_and(t.b[i] >= '0', t.b[i] <= '9')); r = (U)((U)(r * 10) + q); i++; d++; }
    (void)lim; good = vp_and(good, d != 0); if (d > 1) good = vp_and(good, t.b[first] != '0'); ok = vp_and(ok, vp_and(good, r == v)); }
  bool end() const { return vp_and(ok, i == t.n); } };
'''
def h_int(ty, name, bits, signed):
    u = f'std::make_unsigned_t<{ty}>'
    out = f'HARNESS(i_{name}) {{ {ty} v = ({ty})ND({bits[0]}, {bits[1]}); Text t = mangle_expr<Text>(v); Rd r(t); r.lit("{name}{{"); {u} m = ({u})v;\n'
    if signed: out += f'  if (v < 0) {{ r.lit("-"); m = ({u})(0 - m); }}\n'
    out += f'  r.num(m); r.lit("}}"); vp_check(r.end(), "{name}: the text is the value in decimal"); }}\n'
    if signed: out += f'HARNESS(n_{name}) {{ {ty} v = ({ty})(-1 - ({ty})ND({min(bits[0], int(name[3:-2]) - 1)}, {min(bits[1], int(name[3:-2]) - 1)})); Text t = mangle_expr<Text>(v); Rd r(t); r.lit("{name}{{-"); r.num(({u})(0 - ({u})v)); r.lit("}}"); vp_check(r.end(), "{name}: the text is the value in decimal (negative)"); }}\n' \
                   f'HARNESS(m_{name}) {{ {ty} v = (({ty})ND(3, 3) % 2) ? std::numeric_limits<{ty}>::min() : std::numeric_limits<{ty}>::max(); Text t = mangle_expr<Text>(v); Rd r(t); r.lit("{name}{{"); if (v < 0) r.lit("-"); r.num(v < 0 ? ({u})(0 - ({u})v) : ({u})v); r.lit("}}"); vp_check(r.end(), "{name}: extreme values"); }}\n'
    return out
# ---- structures: (type text, expression parts, expression as C++ with the variables in place, building expression)
class M:
    def __init__(s, ty, parts, cpp): s.ty, s.parts, s.cpp = ty, parts, cpp
def sc(n='int32_t'): return M(f'scalar<{n}>', [f'scalar<{n}>{{}}'], f'scalar<{n}>()')
def pt(p, ic=False):
    if isinstance(p, int): return f'std::integral_constant<uint64_t,{p}>', [f'lit<{p}>']
    return 'uint64_t', ['uint64_t{', ('v', p), '}']
def wrap(ty, subs, mem, cpp):
    parts = [ty + '{']
    for s in subs: parts += s.parts + [',']
    for m in mem: parts += m + [',']
    return M(ty, parts + ['}'], cpp)
def vecu(s, d): return wrap(f"vector_t<'{d}',{s.ty}>", [s], [], f"{s.cpp} ^ vector<'{d}'>()")
def bcu(s, d): return wrap(f"bcast_t<'{d}',{s.ty}>", [s], [], f"{s.cpp} ^ bcast<'{d}'>()")
def setl(s, d, n, ic=False): t, p = pt(n, ic); return wrap(f"set_length_t<'{d}',{s.ty},{t}>", [s], [p], f"{s.cpp} ^ set_length<'{d}'>({lit_(n)})")
def lit_(p): return f'lit<{p}>' if isinstance(p, int) else p
def vec(s, d, n): return setl(vecu(s, d), d, n)
def arr(s, d, n): o = setl(vecu(s, d), d, n, True); o.cpp = f"{s.cpp} ^ array<'{d}', {n}>()"; return o
def view(s, name, d, *ps):
    ts = [pt(p) for p in ps]; return wrap(f"{name}_t<'{d}',{','.join([s.ty] + [t for t, _ in ts])}>", [s], [p for _, p in ts], f"{s.cpp} ^ {name}<'{d}'>({', '.join(lit_(p) for p in ps)})")
def dims(ds): return ','.join(f"'{d}'" for d in ds)
def tupl(d, *ss): return wrap(f"tuple_t<'{d}',{','.join(s.ty for s in ss)}>", ss, [], f"pack({', '.join(s.cpp for s in ss)}) ^ tuple<'{d}'>()")
def h_struct(name, m, ps, bits=(7, 10)):
    cppx = ''.join(p if isinstance(p, str) else p[1] for p in m.parts)
    t = f'HARNESS(s_{name}) {{ ' + ' '.join(f'uint64_t {p} = ND({bits[0]}, {bits[1]});' for p in ps) + f'\n  auto s = {m.cpp}; static_assert(std::is_same_v<decltype(s), {m.ty}>); auto e = {cppx}; static_assert(std::is_same_v<decltype(e), decltype(s)>);\n'
    q = lambda x: x.replace('\\', '\\\\').replace('"', '\\"')
    t += f'  using ty = mangle_to_str<decltype(s)>; {{ Text y; y.append(ty::c_str, ty::length); Rd r(y); r.lit("{q(m.ty)}"); vp_check(vp_and(r.end(), ty::c_str[ty::length] == 0), "{name}: type text"); }}\n'
    t += '  auto text = [&](auto x, const char *) { Text o = mangle_expr<Text>(x); Rd r(o); ' + ' '.join(f'r.lit("{q(p)}");' if isinstance(p, str) else f'r.num((uint64_t){p[1]});' for p in m.parts) + ' return r.end(); };\n'
    t += f'  vp_check(text(s, ""), "{name}: description of the object"); vp_check(text(e, ""), "{name}: description of the described object");\n}}\n'
    return t
def c19(T):
    hs = [h_int('signed char', 'int8_t', (8, 8), 1), h_int('short', 'int16_t', (16, 16), 1), h_int('int', 'int32_t', (16, 32), 1), h_int('long', 'int64_t', (16, 40), 1), h_int('unsigned char', 'uint8_t', (8, 8), 0), h_int('unsigned short', 'uint16_t', (16, 16), 0), h_int('unsigned', 'uint32_t', (16, 32), 0), h_int('unsigned long', 'uint64_t', (16, 64), 0)]
    v = lambda: vec(sc(), 'x', 'n')
    w = lambda: vec(v(), 'y', 'm')
    S = {'sc': (sc(), []), 'sc8': (sc('uint8_t'), []), 'scf': (sc('float'), []), 'scd': (sc('double'), []), 'scl': (sc('int64_t'), []), 'scld': (sc('long double'), []), 'sc16': (sc('int16_t'), []), 'scu16': (sc('uint16_t'), []), 'scu32': (sc('uint32_t'), []), 'sci8': (sc('int8_t'), []),
      'vecu': (vecu(sc(), 'x'), []), 'vec': (v(), ['n']), 'vecl': (vec(sc(), 'x', 0), []), 'arr': (arr(sc('float'), 'x', 100), []), 'arrb': (arr(sc(), 'x', 2147483647), []), 'arrh': (arr(sc(), 'x', 4294967296), []), 'litb': (vec(sc(), 'x', 18446744073709551615), []), 'two': (w(), ['n', 'm']), 'mix': (vec(arr(vec(sc(), 'x', 7), 'y', 10), 'z', 'n'), ['n']),
      'bc': (setl(bcu(v(), 'b'), 'b', 'k'), ['n', 'k']), 'bcl': (setl(bcu(sc(), 'b'), 'b', 42), []), 'tup': (tupl('t', v(), sc('double')), ['n']), 'tup3': (vec(tupl('t', sc(), v(), vec(sc(), 'y', 'm')), 'z', 3), ['n', 'm']), 'tup1': (tupl('t', sc()), []),
      'fix': (view(v(), 'fix', 'x', 'k'), ['n', 'k']), 'fixl': (view(v(), 'fix', 'x', 12), ['n']), 'shift': (view(v(), 'shift', 'x', 'k'), ['n', 'k']), 'shiftl': (view(v(), 'shift', 'x', 1), ['n']), 'slice': (view(v(), 'slice', 'x', 'a', 'k'), ['n', 'a', 'k']), 'slicel': (view(v(), 'slice', 'x', 10, 'k'), ['n', 'k']), 'slicel2': (view(v(), 'slice', 'x', 'a', 200), ['n', 'a']), 'span': (view(v(), 'span', 'x', 'a', 'k'), ['n', 'a', 'k']), 'spanl': (view(v(), 'span', 'x', 3, 99), ['n']),
      'step': (view(v(), 'step', 'x', 'a', 'k'), ['n', 'a', 'k']), 'stepl': (view(v(), 'step', 'x', 1, 2), ['n']), 'rev': (view(w(), 'reverse', 'x'), ['n', 'm']), 'hoist': (wrap(f"hoist_t<'x',{w().ty}>", [w()], [], w().cpp + " ^ hoist<'x'>()"), ['n', 'm']), 'reorder': (wrap(f"reorder_t<{w().ty},'x','y'>", [w()], [], w().cpp + " ^ reorder<'x', 'y'>()"), ['n', 'm']),
      'ren': (wrap(f"rename_t<{w().ty},'x','u','y','v'>", [w()], [], w().cpp + " ^ rename<'x', 'u', 'y', 'v'>()"), ['n', 'm']), 'join': (wrap(f"join_t<{w().ty},'x','y','d'>", [w()], [], w().cpp + " ^ join<'x', 'y', 'd'>()"), ['n', 'm']),
      'blocks': (setl(wrap(f"into_blocks_t<'x','X','q',{v().ty}>", [v()], [], v().cpp + " ^ into_blocks<'x', 'X', 'q'>()"), 'q', 'L'), ['n', 'L']), 'dyn': (setl(wrap(f"into_blocks_dynamic_t<'x','X','q','p',{v().ty}>", [v()], [], v().cpp + " ^ into_blocks_dynamic<'x', 'X', 'q', 'p'>()"), 'q', 'L'), ['n', 'L']),
      'stat': (wrap(f"into_blocks_static_t<'x','b','X','q',{v().ty},uint64_t>", [v()], [['uint64_t{', ('v', 'L'), '}']], v().cpp + " ^ into_blocks_static<'x', 'b', 'X', 'q'>(L)"), ['n', 'L']), 'statl': (wrap(f"into_blocks_static_t<'x','b','X','q',{v().ty},std::integral_constant<uint64_t,16>>", [v()], [['lit<16>']], v().cpp + " ^ into_blocks_static<'x', 'b', 'X', 'q'>(lit<16>)"), ['n']),
      'merge': (wrap(f"merge_blocks_t<'y','x','m',{w().ty}>", [w()], [], w().cpp + " ^ merge_blocks<'y', 'x', 'm'>()"), ['n', 'm'])}
    hs += [h_struct(k, m, ps) for k, (m, ps) in S.items()]
    return dict(tus=pack_tus('c19_', hs, 4, C19H), opts=dict(max_steps=3000000))
