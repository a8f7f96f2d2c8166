"""Harness generation from structure models."""
from .model import *

HEAD = '''#include <noarr/structures_extended.hpp>
#include <noarr/traversers.hpp>
#include <noarr/introspection.hpp>
#include <noarr/structures/structs/zcurve.hpp>
#include "vp.h"
'''

def tu(name, body, head=HEAD, **kw): return dict(name=name, text=head + body, **kw)
def pack_tus(prefix, hs, per=5, head=HEAD, **kw):
    """group harness texts into translation units"""
    hs = [h for h in hs if h]
    return [tu(f'{prefix}{k // per}', ''.join(hs[k:k + per]), head, **kw) for k in range(0, len(hs), per)]

def decl(m, bits, lens=None):
    """declare the model's parameters (and the lengths that come with the state); bits: int | (q, t) | 'W'"""
    out = ''; names = list(m.params) + [v for v in (lens or {}).values() if isinstance(v, str) and v not in m.params]
    for p in dict.fromkeys(names):
        out += f'  vp_size {p} = {nd(bits)};\n'
    return out
def nd(bits):
    if bits == 'W': return 'NDW()'
    if isinstance(bits, int): bits = (bits, bits)
    return f'ND({bits[0]}, {bits[1]})'
def lenv(lens): return {'#' + d: ex(v) for d, v in (lens or {}).items()}
def assume(m, lens=None):
    e = lenv(lens)
    return ''.join(f'  vp_assume({c(e)});\n' for c in m.pre)
def st_expr(branch, lens=None):
    """the library state for an assignment dim -> C++ expr or int (static), plus lengths"""
    it = [(f"noarr::length_in<'{d}'>", v) for d, v in (lens or {}).items()] + [(f"noarr::index_in<'{d}'>", v) for d, v in branch.items() if d[0] != '#']
    if not it: return 'noarr::empty_state'
    return f"noarr::empty_state.template with<{', '.join(k for k, v in it)}>({', '.join(lit(v) for k, v in it)})"
def indices(m, st, dims, pre, bits, lens=None):
    """declare index variables for one branch; returns (text, idx dict)"""
    out = ''; idx = lenv(lens)
    for d in dims:
        if d in st: idx[d] = st[d]; continue
        v = f'{pre}{d}'; idx[d] = v
        out += f'  vp_size {v} = {nd(bits)};\n'
    for d in dims:
        if d in st: continue
        out += f'  vp_assume({idx[d]} < {m.lens[d](idx)});\n'
    return out, idx

def hidden(m):
    """dimensions of the structures below which the result does not have"""
    ds, have, a = [], tree_dims(m.tree), m.sub
    while a is not None: ds += [d for d in tree_dims(a.tree) if d not in ds and d not in have]; a = a.sub
    return ds
def h_stray(name, m, st, dims, idx, first, sizes, check_len, offset, lens):
    """indices and lengths of dimensions which the structure does not have change nothing"""
    hs = hidden(m) + ['K']; q = "'"
    t = ''.join(f'  vp_size h_{d} = NDW(), l_{d} = NDW();\n' for d in hs)
    t += f"  auto more = [&](auto T_) {{ return T_.template with<{', '.join(f'noarr::index_in<{q}{d}{q}>, noarr::length_in<{q}{d}{q}>' for d in hs)}>({', '.join(f'h_{d}, l_{d}' for d in hs)}); }};\n"
    if sizes and first: t += f'  vp_check((s | noarr::get_size(more({st_expr({}, lens)}))) == {m.size(lenv(lens))}, "{name}: size, state with other items");\n'
    if check_len:
        for k, d in enumerate(dims):
            n = stat_len_at(m, st, dims, k) if d in st else m.lens[d](idx)
            t += f"  vp_check((s | noarr::get_length<'{d}'>(more({st_expr({x: idx[x] for x in dims[:k]}, lens)}))) == {n}, \"{name}: length {d}, state with other items\");\n"
    if offset: t += f'  vp_check((s | noarr::offset(more({st_expr(idx, lens)}))) == {m.off(idx)}, "{name}: offset, state with other items");\n'
    return t
def h_formula(name, m, bits='W', ibits=None, check_len=True, sizes=True, lens=None, offset=True, extra=None, pre=None, stray=True):
    """lengths, size and offsets equal the documented formula, for every branch of the structure"""
    out = ''
    for bi, (st, dims) in enumerate(m.branches()):
        t = f'HARNESS({name}_{bi}) {{\n' + decl(m, bits, lens) + (pre or '') + assume(m, lens) + f'  auto s = {m.cpp};\n'
        it, idx = indices(m, st, dims, 'i_', ibits or bits, lens)
        t += it
        if sizes and bi == 0: t += f'  vp_check((s | noarr::get_size({st_expr({}, lens)})) == {m.size(lenv(lens))}, "{name}: size");\n'
        if check_len:
            # length of d: queried with the indices of all dimensions above it already given
            for k, d in enumerate(dims):
                n = stat_len_at(m, st, dims, k) if d in st else m.lens[d](idx)
                t += f"  vp_check((s | noarr::get_length<'{d}'>({st_expr({x: idx[x] for x in dims[:k]}, lens)})) == {n}, \"{name}: length {d}\");\n"
        if offset: t += f'  vp_check((s | noarr::offset({st_expr(idx, lens)})) == {m.off(idx)}, "{name}: offset");\n'
        if stray: t += h_stray(name, m, st, dims, idx, bi == 0, sizes, check_len, offset, lens)
        if extra: t += extra(m, st, dims, idx)
        out += t + '}\n'
    return out

def stat_len_at(m, st, dims, k):
    t = m.tree
    for d in dims[:k]: t = t[2] if t[0] == 'dyn' else t[2][st[d]]
    return len(t[2])

def h_disjoint(name, m, bits=(3, 5), ibits=None, lens=None, pre=None):
    out = ''
    br = m.branches()
    for a in range(len(br)):
        for b in range(a, len(br)):
            (sa, da), (sb, db) = br[a], br[b]
            t = f'HARNESS({name}_{a}_{b}) {{\n' + decl(m, bits, lens) + (pre or '') + assume(m, lens) + f'  auto s = {m.cpp};\n'
            ia, xa = indices(m, sa, da, 'a_', ibits or bits, lens); ib, xb = indices(m, sb, db, 'b_', ibits or bits, lens)
            t += ia + ib
            ea, eb = m.elem(xa)[1], m.elem(xb)[1]
            t += f'  vp_size oa = s | noarr::offset({st_expr(xa, lens)}), ob = s | noarr::offset({st_expr(xb, lens)}), z = s | noarr::get_size({st_expr({}, lens)});\n'
            if a == b:
                nb = [d for d in da if d not in sa and d not in m.bc]
                t += f"  bool same = all({', '.join(['true'] + [f'{xa[d]} == {xb[d]}' for d in nb])});\n"
            else: t += '  bool same = false;\n'
            t += f'  vp_check(vp_or(same, vp_or(oa + {ea} <= ob, ob + {eb} <= oa)), "{name}: disjoint");\n'
            t += f'  vp_check(vp_or(!same, oa == ob), "{name}: same element");\n'
            t += f'  vp_check(vp_and(oa + {ea} <= z, oa <= oa + {ea}), "{name}: inside");\n'
            out += t + '}\n'
    return out

# ---------------------------------------------------------------- traversal
def loops(m, tree, idx, body, ind='  '):
    """plain nested loops in the model's dimension order (the oracle for traversal order)"""
    if tree is None: return body(idx, ind)
    if tree[0] == 'stat':
        return ''.join(loops(m, x, {**idx, tree[1]: k}, body, ind) for k, x in enumerate(tree[2]))
    d = tree[1]; v = f'o_{d}'
    return f'{ind}for (vp_size {v} = 0; {v} < {m.lens[d]({**idx, d: v})}; ++{v}) {{\n' + loops(m, tree[2], {**idx, d: v}, body, ind + '  ') + ind + '}\n'

IXS = """
template<char D, class St> static inline vp_size ix(St st) { if constexpr (noarr::state_contains<St, noarr::index_in<D>>) return (vp_size)st.template get<noarr::index_in<D>>(); else return 9999; }
"""
def up_to(m, orig, idx):
    while m is not orig: idx = m.mp(idx); m = m.sub
    return idx
def tree_dims(t):
    if t is None: return []
    r = [t[1]]
    for x in ([t[2]] if t[0] == 'dyn' else t[2]):
        for d in tree_dims(x):
            if d not in r: r.append(d)
    return r
def h_each(name, orig, m, bits=(2, 3), kbits=(5, 9), lens=None, call=None, tree=None, pre=None, order=None):
    """the k-th call of the traversal's function gets the k-th index of the plain nested loops, for every k"""
    od = tree_dims(orig.tree)
    t = f'HARNESS({name}) {{\n' + decl(m, bits, lens) + (pre or '') + assume(m, lens) + f'  vp_size K = {nd(kbits)};\n  auto s = {orig.cpp};\n'
    if order is None: order = [p for p in m.protos[len(orig.protos):]]
    t += f"  auto t = noarr::traverser(s){''.join(' ^ ' + p for p in order)};\n"
    t += '  vp_size c = 0, oc = 0, go = 0, eo = 0' + ''.join(f', g_{d} = 0, e_{d} = 0' for d in od) + ';\n'
    t += '  auto visit = [&](auto st) { bool h = c == K; ' + ' '.join(f"vp_pick(g_{d}, h, ix<'{d}'>(st));" for d in od) + ' vp_pick(go, h, s | noarr::offset(st)); c++; };\n'
    t += '  ' + (call or 't.for_each(visit);') + '\n'
    def body(idx, ind):
        o = up_to(m, orig, idx)
        r = f'{ind}{{ bool h = oc == K;'
        for d in od: r += f" vp_pick(e_{d}, h, {ex(o[d]) if d in o else '9999'});"
        return r + f' vp_pick(eo, h, {orig.off(o)}); oc++; }}\n'
    t += loops(m, tree if tree is not None else m.tree, lenv(lens), body)
    t += f'  vp_check(c == oc, "{name}: number of visits");\n'
    t += f"  vp_check(vp_or(K >= oc, all({', '.join([f'g_{d} == e_{d}' for d in od] + ['true'])})), \"{name}: k-th visited index\");\n"
    t += f'  vp_check(vp_or(K >= oc, go == eo), "{name}: k-th visited element");\n'
    return t + '}\n'

# ---------------------------------------------------------------- named dimensions
NAMED = {'y': "noarr::dim<'x'>", 'z': "noarr::dim<(int)'x'>", 't': 'noarr::dim<vp_tag{}>', 'u': "noarr::dim<'y'>", 'X': 'noarr::dim<1>', 'q': 'noarr::dim<1U>', 'b': 'noarr::dim<vp_tag2{}>',
         'p': 'noarr::dim<(char)1>', 'm': 'noarr::dim<true>', 'd': "noarr::dim<'d'>"}
def named_tus(tus):
    """the same harnesses with dimensions named by noarr::dim<...> (several of them with the value of the character dimension 'x') instead of characters"""
    import re
    out = []
    for t in tus:
        x = re.sub(r"(?<![\w'])'(\w)'", lambda g: f'vp_dim_{g[1]}' if g[1] in NAMED else g[0], t['text'])
        x = re.sub(r'HARNESS\((\w+)\)', r'HARNESS(named_\1)', re.sub(r'template<char (\w+)', r'template<auto \1', x))
        k = x.index('\n', x.index('#include <noarr/')) + 1
        decl = 'struct vp_tag {}; struct vp_tag2 {};\n' + ''.join(f'static constexpr {t} vp_dim_{k}{{}};\n' for k, t in NAMED.items())
        out.append({**t, 'name': t['name'] + 'n', 'text': x[:k] + decl + x[k:]})
    return out
