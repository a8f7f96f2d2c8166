"""The checks: for each property, the translation units with its harnesses, the bounds and the assumptions."""
from .model import *
from .gen import *
from .chains import chains, LINEAR, DIV, BLK

def layouts():
    S = scalar
    L = {
        'sc': S('int'), 'v1': S('int').vec('x', 'nx'), 'v2': S('int').vec('x', 'nx').vec('y', 'ny'),
        'v3': S('double').vec('x', 'nx').vec('y', 'ny').vec('z', 'nz'), 'vc': S('char').vec('y', 'ny').vec('x', 'nx'),
        'va': S('short').arr('x', 6).vec('y', 'ny'), 'av': S('int').vec('x', 'nx').arr('y', 5), 'aa': S('double').arr('x', 3).arr('y', 7), 'one': S('int').vec('x', 'nx').arr('y', 1).vec('z', 'nz'),
        'bc': S('int').bcast('b', 'nb').vec('x', 'nx'), 'bco': S('int').vec('x', 'nx').bcast('b', 'nb').vec('y', 'ny'),
        'aos': tup('t', S('double'), S('int'), S('int')).vec('x', 'nx'),
        'soa': tup('t', S('double').vec('x', 'nx'), S('double').vec('x', 'nx'), S('double').vec('y', 'ny')),
        'tt': tup('t', tup('u', S('int').vec('x', 'nx'), S('int')), S('int').vec('y', 'ny')).vec('z', 'nz'),
        'ttm': tup('t', tup('u', S('double').vec('x', 'nx'), S('int')), S('int').vec('y', 'ny')).vec('z', 'nz'),
        'tl': tup('t', S('int').arr('x', 3), S('float').arr('y', 2).vec('x', 'nx')).arr('z', 4),
    }
    return L


S = scalar
def unsized_layouts():
    """(model, lengths that come with the state)"""
    return {
        'u1': (S('int').vecu('x'), dict(x='nx')), 'u2': (S('int').vecu('x').vecu('y'), dict(x='nx', y='ny')), 'u2h': (S('int').vecu('x').vec('y', 'ny'), dict(x='nx')),
        'u3': (S('double').vec('x', 'nx').vecu('y').vecu('z'), dict(z='nz', y='ny')), 'ub': (S('int').bcastu('b').vecu('x'), dict(x='nx', b='nb')),
        'ul': (S('int').vecu('x').vecu('y'), dict(x=3, y='ny')), 'ul1': (S('int').vec('x', 'nx').vecu('y'), dict(y=1)),
        'ut': (tup('t', S('int').vecu('x'), S('int').vecu('y').vecu('x')), dict(x='nx', y='ny')), 'usl': (S('int').vecu('x').vecu('y').setlen('y', 'ny').setlen('x', 'nx'), {}),
    }

def c02(T):
    hs = [h_formula('f_' + k, m, 'W') for k, m in layouts().items()]
    hs += [h_formula('f_' + k, m, 'W', lens=l) for k, (m, l) in unsized_layouts().items()]
    hs.append("""
HARNESS(sub_vec) { vp_size nx = NDW(), ny = NDW(), nz = NDW(), y = NDW(), z = NDW(), x = NDW();
  auto a = noarr::scalar<int>() ^ noarr::vector<'x'>(nx); auto b = a ^ noarr::vector<'y'>(ny); auto s = b ^ noarr::vector<'z'>(nz);
  vp_check((s | noarr::offset<decltype(b)>(noarr::idx<'z'>(z))) == z * (ny * (nx * 4)), "sub-structure under one dimension");
  vp_check((s | noarr::offset<decltype(a)>(noarr::idx<'z', 'y'>(z, y))) == z * (ny * (nx * 4)) + y * (nx * 4), "sub-structure under two dimensions");
  vp_check((s | noarr::offset<decltype(a), 'y', 'z'>(y, z)) == z * (ny * (nx * 4)) + y * (nx * 4), "sub-structure, named dimensions");
  vp_check((s | noarr::offset<noarr::scalar<int>>(noarr::idx<'x', 'z', 'y'>(x, z, y))) == z * (ny * (nx * 4)) + y * (nx * 4) + x * 4, "scalar sub-structure");
  vp_check((s | noarr::offset<'x', 'y', 'z'>(x, y, z)) == z * (ny * (nx * 4)) + y * (nx * 4) + x * 4, "named dimensions");
  vp_check((s | noarr::offset<decltype(s)>(noarr::empty_state)) == 0, "structure in itself");
  vp_check(noarr::offset_of<decltype(a)>(s, noarr::idx<'z', 'y'>(z, y), x) == x + z * (ny * (nx * 4)) + y * (nx * 4), "start is added once");
  vp_check(noarr::offset_of<decltype(s)>(s, noarr::empty_state, x) == x, "start is added to the structure itself");
  vp_check((a | noarr::get_size()) == nx * 4, "size of a sub-structure");
  vp_check((s ^ noarr::fix<'z'>(z) | noarr::offset<decltype(b)>(noarr::empty_state)) == z * (ny * (nx * 4)), "sub-structure of a fixed structure");
}
HARNESS(sub_tuple) { vp_size nx = NDW(), ny = NDW(), nz = NDW(), x = NDW(), y = NDW(), z = NDW();
  auto a = noarr::scalar<int>() ^ noarr::vector<'x'>(nx); auto b = noarr::scalar<int>() ^ noarr::vector<'y'>(ny); auto c = noarr::scalar<short>();
  auto t = noarr::pack(a, b, c) ^ noarr::tuple<'t'>(); auto s = t ^ noarr::vector<'z'>(nz);
  vp_size ts = nx * 4 + ny * 4 + 2;
  vp_check((t | noarr::get_size()) == ts, "tuple size");
  vp_check((s | noarr::offset<decltype(a)>(noarr::idx<'z', 't'>(z, noarr::lit<0>))) == z * ts, "first field");
  vp_check((s | noarr::offset<decltype(b)>(noarr::idx<'z', 't'>(z, noarr::lit<1>))) == z * ts + nx * 4, "second field");
  vp_check((s | noarr::offset<decltype(c)>(noarr::idx<'z', 't'>(z, noarr::lit<2>))) == z * ts + nx * 4 + ny * 4, "third field");
  vp_check((s | noarr::offset<'z', 't', 'y'>(z, noarr::lit<1>, y)) == z * ts + nx * 4 + y * 4, "element of the second field");
  vp_check((s | noarr::get_length<'y'>(noarr::idx<'t'>(noarr::lit<1>))) == ny, "length in a field");
  vp_check((s | noarr::get_length<'t'>()) == 3, "number of fields");
}
HARNESS(sub_unsized) { vp_size nx = NDW(), ny = NDW(), y = NDW(), x = NDW();
  auto a = noarr::scalar<double>() ^ noarr::vector<'x'>(); auto s = a ^ noarr::vector<'y'>();
  auto st = noarr::empty_state.with<noarr::length_in<'x'>, noarr::length_in<'y'>, noarr::index_in<'y'>>(nx, ny, y);
  vp_check((s | noarr::offset<decltype(a)>(st)) == y * (nx * 8), "sub-structure, lengths in the state");
  vp_check((s | noarr::offset(st.with<noarr::index_in<'x'>>(x))) == y * (nx * 8) + x * 8, "element, lengths in the state");
  vp_check((s | noarr::get_length<'x'>(st)) == nx, "length in the state");
  vp_check((s | noarr::get_size(st.remove<noarr::index_in<'y'>>())) == ny * (nx * 8), "size, lengths in the state");
}
HARNESS(pointer) { vp_size nx = NDW(), x = NDW(), y = NDW();
  static char buf[1]; auto s = noarr::scalar<int>() ^ noarr::vector<'x'>(nx) ^ noarr::vector<'y'>(nx);
  vp_check((vp_size)((char *)&(s | noarr::get_at<'x', 'y'>((void *)buf, x, y)) - buf) == y * (nx * 4) + x * 4, "get_at");
  vp_check((vp_size)((const char *)&(s | noarr::get_at((const void *)buf, noarr::idx<'x', 'y'>(x, y))) - buf) == y * (nx * 4) + x * 4, "const get_at");
}
HARNESS(tuple_padding) { vp_size n = NDW();
  auto s = noarr::pack(noarr::scalar<char>(), noarr::scalar<int>()) ^ noarr::tuple<'t'>() ^ noarr::vector<'x'>(n);
  vp_check((s | noarr::get_size()) == n * (1 + 4), "size of a tuple of char and int is the sum");
}
HARNESS(tuple_padding_offset) { vp_size n = NDW();
  auto s = noarr::pack(noarr::scalar<char>(), noarr::scalar<int>()) ^ noarr::tuple<'t'>();
  vp_check((s | noarr::offset<'t'>(noarr::lit<1>)) == 1, "field after a char starts after it");
}
""")
    return dict(tus=pack_tus('c02_', hs, 5))

def mixed():
    """layouts used where the statement does not depend on paddings"""
    return {'mix': tup('t', S('char'), S('int')).vec('x', 'nx'), 'mix3': tup('t', S('char').vec('x', 'nx'), S('int').vec('x', 'nx'), S('char').vec('y', 'ny'), S('double')).vec('z', 'nz')}

def views():
    """views over dynamic dimensions: name -> (model, lengths in state)"""
    v2 = lambda: S('int').vec('x', 'nx').vec('y', 'ny')
    v3 = lambda: S('int').vec('x', 'nx').vec('y', 'ny').vec('z', 'nz')
    u2 = lambda: S('int').vecu('x').vec('y', 'ny')
    V = {
        'fix': v2().fix('x', 'a'), 'fixo': v2().fix('y', 'a'), 'fixl': v2().fix('x', 2), 'fix2': v3().fix('y', 'a').fix('x', 'b'), 'fixall': v2().fix('x', 'a').fix('y', 'b'),
        'shift': v2().shift('x', 'a'), 'shifto': v2().shift('y', 'a'), 'shiftl': v2().shift('y', 3), 'shift2': v2().shift('x', 'a').shift('x', 'b'), 'shift12': v2().shift('x', 'a').shift('y', 'b'),
        'slice': v2().slice('x', 'a', 'n'), 'sliceo': v2().slice('y', 'a', 'n'), 'slice2': v2().slice('x', 'a', 'n').slice('x', 'b', 'm'), 'slicel': v2().slice('x', 1, 'n'),
        'span': v2().span('x', 'a', 'b'), 'spano': v2().span('y', 'a', 'b'), 'span2': v2().span('y', 'a', 'b').span('y', 'c', 'd'), 'spanl': v2().span('y', 2, 'b'),
        'rev': v2().rev('x'), 'revo': v2().rev('y'), 'rev2': v2().rev('x').rev('x'), 'rev12': v2().rev('x').rev('y'),
        'ren': v2().ren(x='u'), 'ren2': v2().ren(x='y', y='x'), 'ren3': v3().ren(x='y', y='z', z='x'), 'rensh': v2().ren(x='u').shift('u', 'a').ren(u='x'),
        'hoist': v3().hoist('x'), 'hoist2': v3().hoist('y').hoist('x'), 'reo': v3().reorder('x', 'z', 'y'), 'reo2': v3().reorder('y', 'x', 'z'),
        'shrev': v2().shift('x', 'a').rev('x'), 'revsh': v2().rev('x').shift('x', 'a'), 'slrev': v2().slice('x', 'a', 'n').rev('x'), 'revsl': v2().rev('x').slice('x', 'a', 'n'),
        'sprev': v2().rev('y').span('y', 'a', 'b').hoist('x'), 'shsl': v2().shift('x', 'a').slice('x', 'b', 'n').span('x', 'c', 'd'), 'bcr': S('int').bcast('b', 'nb').vec('x', 'nx').rev('b').shift('b', 'a'),
        'fixrev': v3().rev('y').fix('y', 'a').shift('x', 'b').ren(z='q'), 'slfix': v2().slice('x', 'a', 'n').fix('x', 'b'),
        'join': v2().join('x', 'y', 'd'), 'joina': v3().join('x', 'z', 'x'), 'joinb': v3().join('z', 'y', 'y'), 'joinsh': v2().join('x', 'y', 'd').shift('d', 'a'), 'joinrev': v3().rev('x').join('x', 'z', 'w'),
    }
    U = {
        'ushift': (u2().shift('x', 'a'), dict(x='nx')), 'urev': (u2().rev('x'), dict(x='nx')), 'uren': (u2().ren(x='u'), dict(u='nx')), 'uren2': (u2().ren(x='y', y='x'), dict(y='nx')),
        'uhoist': (u2().hoist('x'), dict(x='nx')), 'ureo': (u2().reorder('x', 'y'), dict(x='nx')), 'ufix': (u2().fix('y', 'a'), dict(x='nx')),
        'ufixf': (u2().fix('x', 'a').setlen('x', 'nx'), {}) , 'ushl': (u2().shift('x', 'a').setlen('x', 'n'), {}), 'ushsh': (u2().shift('x', 'a').shift('x', 'b'), dict(x='nx')), 'urevsh': (u2().rev('x').shift('x', 'a').setlen('x', 'n'), {}),
        'urevset': (u2().rev('x').setlen('x', 'n'), {}), 'urenset': (u2().ren(x='u').setlen('u', 'n'), {}), 'ujoin': (S('int').vecu('x').vecu('y').join('x', 'y', 'd'), dict(d='n')), 'ujoinset': (S('int').vecu('x').vecu('y').join('x', 'y', 'd').setlen('d', 'n'), {}),
        'uslice': (u2().setlen('x', 'nx').slice('x', 'a', 'n'), {}), 'uhoset': (u2().hoist('x').setlen('x', 'nx'), {}),
    }
    del U['ufixf']
    R = {k: (m, None) for k, m in V.items()}; R.update(U)
    return R
def step_views():
    v2 = lambda: S('int').vec('x', 'nx').vec('y', 'ny')
    return {'step': v2().step('x', 'a', 'k'), 'stepo': v2().step('y', 'a', 'k'), 'stepl': v2().step('x', 1, 3), 'stepll': v2().step('y', 'a', 4), 'stepsh': v2().shift('x', 'b').step('x', 'a', 'k'), 'shstep': v2().step('x', 'a', 'k').shift('x', 'b'),
            'steprev': v2().rev('x').step('x', 'a', 'k'), 'revstep': v2().step('x', 'a', 'k').rev('x'), 'stepstep': v2().step('x', 'a', 'k').step('x', 'b', 'l'), 'stepsl': v2().slice('x', 'b', 'n').step('x', 'a', 'k')}
def tuple_views():
    t = lambda: tup('t', S('double').vec('x', 'nx'), S('double'), S('int').vec('x', 'nx'), S('int').vec('y', 'ny'))
    return {'tfix': t().fix('t', 2), 'tshift': t().shift('t', 1), 'tslice': t().slice('t', 1, 2), 'tspan': t().span('t', 1, 3), 'tstep': t().step('t', 1, 2), 'tstep3': t().step('t', 0, 3), 'tstep4': t().step('t', 1, 3), 'trev': t().rev('t'), 'tren': t().ren(t='q', x='y', y='x'),
            'tshrev': t().shift('t', 1).rev('t'), 'trevsh': t().rev('t').shift('t', 2), 'thoist': tup('t', S('double').vec('x', 'nx'), S('int').vec('x', 'mx')).vec('z', 'nz').reorder('t', 'z', 'x'), 'tfixv': t().vec('z', 'nz').fix('t', 0).shift('x', 'a').fix('z', 'b')}
def c03(T):
    hs = [h_formula('v_' + k, m, 'W', lens=l) for k, (m, l) in views().items()]
    hs += [h_formula('v_' + k, m, (8, 16)) for k, m in step_views().items()]
    hs += [h_formula('v_' + k, m, 'W') for k, m in tuple_views().items()]
    hs += [h_formula('c_' + k, m, 'W') for k, (o, m) in chains('c03', 120 if T else 30).items()]
    hs += [h_formula('e_' + k, m, (5, 7)) for k, (o, m) in chains('c03div', 80 if T else 20, DIV, maxd=3).items()]
    return dict(tus=pack_tus('c03_', hs, 6))


def c01(T):
    hs = []
    for k, m in {**layouts(), **mixed()}.items():
        if k == 'sc': continue
        hs.append(h_disjoint('d_' + k, m, (3, 4)))
    for k, (m, l) in unsized_layouts().items(): hs.append(h_disjoint('d_' + k, m, (3, 4), lens=l))
    for k, (m, l) in views().items(): hs.append(h_disjoint('d_' + k, m, (3, 4), lens=l))
    for k, m in step_views().items(): hs.append(h_disjoint('d_' + k, m, (3, 4)))
    for k, m in tuple_views().items(): hs.append(h_disjoint('d_' + k, m, (3, 4)))
    for k, (m, l) in blocks().items(): hs.append(h_disjoint('d_' + k, m, (3, 4), lens=l))
    for k, (o, m) in chains('c01', 80 if T else 20, views=(1, 3), maxd=3).items(): hs.append(h_disjoint('r_' + k, m, (3, 4)))
    for k, (o, m) in chains('c01div', 60 if T else 16, DIV, (1, 3), 2, tuples=False).items(): hs.append(h_disjoint('q_' + k, m, (3, 4)))
    return dict(tus=pack_tus('c01_', hs, 7))

def blocks():
    v1 = lambda: S('int').vec('x', 'nx')
    v2 = lambda: S('int').vec('x', 'nx').vec('y', 'ny')
    u1 = lambda: S('int').vecu('x')
    B = {
        'b': v1().blocks('x', 'X', 'q', 'L'), 'b2': v2().blocks('x', 'X', 'q', 'L'), 'bo': v2().blocks('y', 'Y', 'y', 'L'), 'bl': v2().blocks('x', 'X', 'x', 4), 'bh': v2().blocks('x', 'X', 'q', 'L').hoist('X'), 'bM': v2().blocks('x', 'x', 'q', 'L'),
        'bb': v1().blocks('x', 'X', 'q', 'L').blocks('q', 'Q', 'r', 'K'), 'bbx': v1().blocks('x', 'X', 'x', 'L').blocks('X', 'Y', 'X', 'K'), 'brev': v1().rev('x').blocks('x', 'X', 'q', 'L'), 'revb': v1().blocks('x', 'X', 'q', 'L').rev('q').rev('X'), 'bsh': v1().shift('x', 'a').blocks('x', 'X', 'q', 'L'), 'bsl': v1().slice('x', 'a', 'n').blocks('x', 'X', 'q', 'L'), 'shb': v1().blocks('x', 'X', 'q', 'L').slice('q', 'a', 'n'),
        'bfix': v1().blocks('x', 'X', 'q', 'L').fix('X', 'a'), 'bfix2': v2().blocks('x', 'X', 'q', 'L').fix('q', 'a'), 'bren': v2().blocks('x', 'X', 'q', 'L').ren(q='x', X='q'), 'both': v2().blocks('x', 'X', 'q', 'L').blocks('y', 'Y', 'r', 'K'),
        'd': v1().blocks_dyn('x', 'X', 'q', 'p', 'L'), 'd2': v2().blocks_dyn('x', 'X', 'q', 'p', 'L'), 'dl': v1().blocks_dyn('x', 'X', 'x', 'p', 3), 'dsh': v1().shift('x', 'a').blocks_dyn('x', 'X', 'q', 'p', 'L'), 'drev': v1().rev('x').blocks_dyn('x', 'X', 'q', 'p', 'L'), 'dd': v1().blocks_dyn('x', 'X', 'q', 'p', 'L').blocks_dyn('q', 'Q', 'r', 's', 'K'),
        's': v1().blocks_static('x', 'b', 'X', 'q', 'L'), 's2': v2().blocks_static('x', 'b', 'X', 'q', 'L'), 'sl': v1().blocks_static('x', 'b', 'X', 'x', 3), 'ssl': S('int').arr('x', 11).blocks_static('x', 'b', 'X', 'q', 4), 'ssh': v1().shift('x', 'a').blocks_static('x', 'b', 'X', 'q', 'L'), 'srev': v2().rev('y').blocks_static('y', 'b', 'Y', 'y', 'L'), 'sfix': v1().blocks_static('x', 'b', 'X', 'q', 'L').fix('b', 1), 'ss': v1().blocks_static('x', 'b', 'X', 'q', 'L').fix('b', 0).blocks('q', 'Q', 'r', 'K'),
        'm': v2().merge('y', 'x', 'm'), 'm2': v2().merge('x', 'y', 'm'), 'mx': v2().merge('y', 'x', 'x'), 'm3': S('int').vec('x', 'nx').vec('z', 'nz').vec('y', 'ny').merge('y', 'x', 'm'), 'ml': S('int').arr('x', 5).vec('y', 'ny').merge('y', 'x', 'm'), 'mM': v2().merge('y', 'x', 'y'), 'mrev': v2().rev('x').merge('y', 'x', 'm'), 'msh': v2().merge('y', 'x', 'm').shift('m', 'a'), 'msl': v2().slice('x', 'a', 'n').merge('y', 'x', 'm'),
        'bm': v1().blocks('x', 'X', 'q', 'L').merge('X', 'q', 'x'), 'mb': v2().merge('y', 'x', 'm').blocks('m', 'M', 'n', 'L'), 'mm': S('int').vec('x', 'nx').vec('y', 'ny').vec('z', 'nz').merge('z', 'y', 'y').merge('y', 'x', 'x'),
    }
    R = {k: (m, None) for k, m in B.items()}
    R.update({
        'buM': (v1().blocks('x', 'X', 'q'), dict(X='K')), 'bum': (v1().blocks('x', 'X', 'q'), dict(q='L')), 'bumM': (u1().blocks('x', 'X', 'q'), dict(X='K', q='L')), 'buset': (u1().blocks('x', 'X', 'q', 'L').setlen('X', 'K'), {}), 'busetM': (v2().blocks('x', 'X', 'q').setlen('X', 'K'), {}),
        'duM': (v1().blocks_dyn('x', 'X', 'q', 'p'), dict(X='K')), 'dum': (v2().blocks_dyn('x', 'X', 'q', 'p'), dict(q='L')), 'dumM': (u1().blocks_dyn('x', 'X', 'q', 'p'), dict(X='K', q='L')),
        'mum': (S('int').vec('x', 'nx').vecu('y').merge('y', 'x', 'm', known='minor'), dict(m='n')), 'muM': (S('int').vecu('x').vec('y', 'ny').merge('y', 'x', 'm', known='major'), dict(m='n')), 'muset': (S('int').vec('x', 'nx').vecu('y').merge('y', 'x', 'm', known='minor').setlen('m', 'n'), {}),
    })
    return R

def h_surj(name, m, sub, d, back, bits, lens=None):
    """every index of the original dimension d is reached: back(i) gives the new indices as expressions"""
    out = f'HARNESS({name}) {{\n' + decl(m, bits, lens) + assume(m, lens)
    out += f'  auto o = {sub.cpp}; auto s = {m.cpp};\n'
    return out

def c04(T):
    B = blocks(); bits = (4, 6)
    hs = []
    for k, (m, l) in B.items():
        hs.append(h_formula('b_' + k, m, bits, lens=l)); hs.append(h_disjoint('bd_' + k, m, (3, 4), lens=l))
    for k, (o, m) in chains('c04', 80 if T else 20, BLK, (2, 3), 3).items(): hs.append(h_formula('r_' + k, m, bits))
    hs.append(r"""
#define ORIG vp_size n = ND(4, 7), L = ND(4, 7), i = ND(4, 7), m = ND(2, 4), j = ND(2, 4); vp_assume(L != 0); vp_assume(i < n); vp_assume(j < m); \
  auto o = noarr::scalar<int>() ^ noarr::vector<'x'>(n) ^ noarr::vector<'y'>(m); vp_size want = o | noarr::offset<'x', 'y'>(i, j);
HARNESS(surj_blocks) { ORIG vp_assume(n % L == 0);
  auto s = o ^ noarr::into_blocks<'x', 'X', 'q'>(L);
  vp_check(i / L < (s | noarr::get_length<'X'>()), "block index is valid"); vp_check(i % L < (s | noarr::get_length<'q'>()), "index in block is valid");
  vp_check((s | noarr::offset<'X', 'q', 'y'>(i / L, i % L, j)) == want, "every element is reached");
  auto t = o ^ noarr::into_blocks<'x', 'X', 'q'>() ^ noarr::set_length<'X'>(n / L);
  vp_check((t | noarr::offset<'X', 'q', 'y'>(i / L, i % L, j)) == want, "every element is reached, number of blocks given");
  vp_check((t | noarr::get_length<'q'>()) == L, "block length follows from the number of blocks");
  vp_check((s | noarr::get_size()) == (o | noarr::get_size()), "size is unchanged");
}
HARNESS(surj_dynamic) { ORIG
  auto s = o ^ noarr::into_blocks_dynamic<'x', 'X', 'q', 'p'>(L);
  vp_check(i / L < (s | noarr::get_length<'X'>()), "block index is valid"); vp_check(i % L < (s | noarr::get_length<'q'>()), "index in block is valid");
  vp_check((s | noarr::get_length<'p'>(noarr::idx<'X', 'q'>(i / L, i % L))) == 1, "element is present");
  vp_check((s | noarr::offset<'X', 'q', 'p', 'y'>(i / L, i % L, 0, j)) == want, "every element is reached");
  vp_size X = ND(4, 7), q = ND(4, 7); vp_assume(X < (s | noarr::get_length<'X'>())); vp_assume(q < L);
  vp_check((s | noarr::get_length<'p'>(noarr::idx<'X', 'q'>(X, q))) == (vp_size)(X * L + q < n), "presence is exact");
  vp_check(X * L < n, "no empty block");
}
HARNESS(surj_static) { ORIG
  auto s = o ^ noarr::into_blocks_static<'x', 'b', 'X', 'q'>(L);
  vp_size body = n / L * L;
  if (i < body) {
    vp_check(i / L < (s | noarr::get_length<'X'>(noarr::idx<'b'>(noarr::lit<0>))), "block index is valid");
    vp_check(i % L < (s | noarr::get_length<'q'>(noarr::idx<'b'>(noarr::lit<0>))), "index in block is valid");
    vp_check((s | noarr::offset<'b', 'X', 'q', 'y'>(noarr::lit<0>, i / L, i % L, j)) == want, "every body element is reached");
  } else {
    vp_check((s | noarr::get_length<'X'>(noarr::idx<'b'>(noarr::lit<1>))) == 1, "one border block");
    vp_check(i - body < (s | noarr::get_length<'q'>(noarr::idx<'b'>(noarr::lit<1>))), "index in border is valid");
    vp_check((s | noarr::offset<'b', 'X', 'q', 'y'>(noarr::lit<1>, 0, i - body, j)) == want, "every border element is reached");
  }
}
HARNESS(inverse) { ORIG vp_assume(n % L == 0);
  auto s = o ^ noarr::into_blocks<'x', 'X', 'q'>(L) ^ noarr::merge_blocks<'X', 'q', 'z'>();
  vp_check((s | noarr::get_length<'z'>()) == n, "merging blocks restores the length");
  vp_check((s | noarr::offset<'z', 'y'>(i, j)) == want, "merging blocks restores the index");
}
HARNESS(merge_all) { vp_size n = ND(4, 6), m = ND(4, 6), x = ND(4, 6), y = ND(4, 6); vp_assume(x < n); vp_assume(y < m);
  auto o = noarr::scalar<int>() ^ noarr::vector<'x'>(n) ^ noarr::vector<'y'>(m); auto s = o ^ noarr::merge_blocks<'y', 'x', 'z'>();
  vp_check(y * n + x < (s | noarr::get_length<'z'>()), "merged index is valid");
  vp_check((s | noarr::offset<'z'>(y * n + x)) == (o | noarr::offset<'x', 'y'>(x, y)), "every pair is reached");
}
HARNESS(merge_given) { vp_size n = ND(4, 6), m = ND(4, 6), x = ND(4, 6), y = ND(4, 6); vp_assume(x < n); vp_assume(y < m);
  auto o = noarr::scalar<int>() ^ noarr::vector<'x'>() ^ noarr::vector<'y'>(m); auto s = o ^ noarr::merge_blocks<'y', 'x', 'z'>() ^ noarr::set_length<'z'>(m * n);
  auto r = noarr::scalar<int>() ^ noarr::vector<'x'>(n) ^ noarr::vector<'y'>(m);
  vp_check((s | noarr::get_length<'z'>()) == m * n, "given merged length");
  vp_check((s | noarr::offset<'z'>(y * n + x)) == (r | noarr::offset<'x', 'y'>(x, y)), "every pair is reached, major length known");
  auto p = noarr::scalar<int>() ^ noarr::vector<'x'>(n) ^ noarr::vector<'y'>() ^ noarr::merge_blocks<'y', 'x', 'z'>() ^ noarr::set_length<'z'>(m * n);
  vp_check((p | noarr::offset<'z'>(y * n + x)) == (r | noarr::offset<'x', 'y'>(x, y)), "every pair is reached, minor length known");
  auto q = noarr::scalar<int>() ^ noarr::vector<'x'>() ^ noarr::vector<'y'>(m) ^ noarr::merge_blocks<'y', 'x', 'z'>(n);
  vp_check((q | noarr::offset<'z'>(y * n + x)) == (r | noarr::offset<'x', 'y'>(x, y)), "every pair is reached, minor length in the call");
  vp_check((q | noarr::get_length<'z'>()) == m * n, "merged length, minor length in the call");
}
HARNESS(strip) { ORIG vp_assume(n % L == 0);
  auto s = o ^ noarr::strip_mine<'x', 'X', 'q'>(L); auto t = o ^ noarr::strip_mine_dynamic<'x', 'X', 'q', 'p'>(L);
  vp_check((s | noarr::offset<'X', 'q', 'y'>(i / L, i % L, j)) == want, "strip_mine"); vp_check((t | noarr::offset<'X', 'q', 'p', 'y'>(i / L, i % L, 0, j)) == want, "strip_mine_dynamic");
}
""")
    return dict(tus=pack_tus('c04_', hs, 8))


def V(*dims, ty='int'):
    m = S(ty)
    for d in dims: m = m.vec(d, 'n' + d)
    return m
def orders():
    """name -> (structure, transformed by the traversal order)"""
    R = {}
    def add(k, o, f=lambda m: m, **kw): R[k] = (o, f(o), kw)
    add('sc', S('int')); add('v1', V('x')); add('v2', V('x', 'y')); add('v3', V('x', 'y', 'z')); add('arr', S('int').arr('x', 3).vec('y', 'ny'))
    add('bc', S('int').bcast('b', 'nb').vec('x', 'nx')); add('aos', tup('t', S('double'), S('int'), S('int')).vec('x', 'nx')); add('soa', tup('t', S('int').vec('x', 'nx'), S('int'), S('int').vec('y', 'ny').vec('x', 'mx')))
    add('tt', tup('t', tup('u', S('int').vec('x', 'nx'), S('int')), S('int').vec('y', 'ny')).vec('z', 'nz'))
    add('sliced', V('x', 'y').slice('x', 'a', 'n').shift('y', 'b')); add('blocked', V('x').blocks('x', 'X', 'q', 'L'))
    add('hoist', V('x', 'y', 'z'), lambda m: m.hoist('x')); add('hoist2', V('x', 'y', 'z'), lambda m: m.hoist('y', 'x')); add('reorder', V('x', 'y', 'z'), lambda m: m.reorder('x', 'z', 'y')); add('reordert', tup('t', S('int').vec('x', 'nx'), S('int').vec('x', 'mx')).vec('z', 'nz'), lambda m: m.reorder('t', 'z', 'x'))
    add('shift', V('x', 'y'), lambda m: m.shift('y', 'a')); add('slice', V('x', 'y'), lambda m: m.slice('x', 'a', 'n')); add('span', V('x', 'y'), lambda m: m.span('y', 'a', 'b')); add('step', V('x', 'y'), lambda m: m.step('x', 'a', 'k')); add('rev', V('x', 'y'), lambda m: m.rev('y')); add('rev2', V('x', 'y'), lambda m: m.rev('x').rev('y')); add('fix', V('x', 'y', 'z'), lambda m: m.fix('y', 'a')); add('fixall', V('x', 'y'), lambda m: m.fix('x', 'a').fix('y', 'b'))
    add('bcrev', S('int').bcast('b', 'nb').vec('x', 'nx'), lambda m: m.shift('b', 'a').rev('x'))
    add('ren', V('x', 'y'), lambda m: m.ren(x='u').hoist('u')); add('join', V('x', 'y', 'z'), lambda m: m.join('x', 'z', 'd'))
    add('shrev', V('x', 'y'), lambda m: m.shift('x', 'a').rev('x')); add('revsh', V('x', 'y'), lambda m: m.rev('x').shift('x', 'a').hoist('x')); add('stepsh', V('x'), lambda m: m.step('x', 'a', 'k').shift('x', 'b')); add('slsp', V('x'), lambda m: m.slice('x', 'a', 'n').span('x', 'b', 'e').rev('x'))
    add('blocks', V('x', 'y'), lambda m: m.blocks('x', 'X', 'q', 'L')); add('blocksh', V('x', 'y'), lambda m: m.blocks('x', 'X', 'q', 'L').hoist('X')); add('blocksl', V('x', 'y'), lambda m: m.blocks('x', 'X', 'q', 2).hoist('q')); add('dyn', V('x', 'y'), lambda m: m.blocks_dyn('x', 'X', 'q', 'p', 'L')); add('dynh', V('x'), lambda m: m.blocks_dyn('x', 'X', 'q', 'p', 'L').hoist('q'), skip=True)
    add('static', V('x', 'y'), lambda m: m.blocks_static('x', 'b', 'X', 'q', 'L')); add('staticl', V('x'), lambda m: m.blocks_static('x', 'b', 'X', 'q', 3)); add('bb', V('x'), lambda m: m.blocks('x', 'X', 'q', 'L').blocks('X', 'Y', 'X', 'J'))
    add('tile', V('x', 'y'), lambda m: m.blocks('x', 'X', 'q', 2).blocks('y', 'Y', 'r', 2).reorder('X', 'Y', 'q', 'r')); add('merge', V('x', 'y'), lambda m: m.merge('y', 'x', 'm')); add('merge2', V('x', 'y'), lambda m: m.merge('x', 'y', 'm')); add('merge3', V('x', 'y', 'z'), lambda m: m.merge('z', 'y', 'm').hoist('x')); add('mergerev', V('x', 'y'), lambda m: m.merge('y', 'x', 'm').rev('m').shift('m', 'a'))
    add('tfix', tup('t', S('int').vec('x', 'nx'), S('int')).vec('y', 'ny'), lambda m: m.fix('t', 0).shift('x', 'a')); add('trev', tup('t', S('int').vec('x', 'nx'), S('int').vec('y', 'ny')).vec('z', 'nz'), lambda m: m.rev('t')); add('tshift', tup('t', S('int').vec('x', 'nx'), S('int'), S('int').vec('x', 'mx')), lambda m: m.shift('t', 1))
    add('setlen', S('int').vecu('x').vec('y', 'ny'), lambda m: m.setlen('x', 'nx'))
    return {k: v for k, v in R.items() if not v[2].get('skip')}
BIG = {'v3', 'tt', 'hoist', 'hoist2', 'reorder', 'merge3', 'join', 'tile', 'fix'}
def c06(T):
    hs = [h_each('e_' + k, o, m, (2, 2) if k in BIG else (2, 3), (6, 10), **{a: b for a, b in kw.items() if a != 'skip'}) for k, (o, m, kw) in orders().items()]
    # longer loops (one long dimension at a time)
    lim = lambda **k: ''.join(f'  vp_assume({p} <= {v});\n' for p, v in k.items())
    def big(name, o, f, q, t, **k):
        hs.append(h_each('big_' + name, o, f(o), q, t, pre=lim(**k)))
    big('v1', V('x'), lambda o: o, (6, 8), (6, 8))
    big('in', V('x', 'y'), lambda o: o, (5, 6), (7, 8), ny=2)
    big('out', V('x', 'y'), lambda o: o, (5, 6), (7, 8), nx=2)
    big('bc', S('int').bcast('b', 'nb').vec('x', 'nx'), lambda o: o, (5, 6), (7, 8), nx=1)
    big('blocks', V('x'), lambda o: o.blocks('x', 'X', 'q', 'L'), (5, 6), (5, 6))
    big('dyn', V('x'), lambda o: o.blocks_dyn('x', 'X', 'q', 'p', 'L'), (4, 5), (4, 5))
    big('static', V('x'), lambda o: o.blocks_static('x', 'b', 'X', 'q', 'L'), (5, 6), (5, 6))
    big('step', V('x'), lambda o: o.step('x', 'a', 'k'), (4, 5), (4, 5))
    big('merge', V('x', 'y'), lambda o: o.merge('y', 'x', 'm'), (5, 6), (7, 8), ny=2)
    big('rev', V('x'), lambda o: o.rev('x').shift('x', 'a'), (4, 5), (4, 5))
    for k, (o, m) in chains('c06', 80 if T else 20, DIV, (1, 3), 3).items(): hs.append(h_each('r_' + k, o, m, (2, 2), (6, 8)))
    return dict(tus=pack_tus('c06_', hs, 5, HEAD + IXS))

from .p_zcurve import c05
from .p_trav import c07, c08, c09, c10
from .p_state import c11
from .p_intro import c12
from .p_data import c13, c14
from .p_cuda import c15, c16
from .p_view import c21, c20
from .p_text import c19
from .p_static import c17
from .p_comp import c18
from .p_para import c22
from .p_sig import c23
from .p_algo import c24
TABLE = {'C24': c24, 'C23': c23, 'C22': c22, 'C18': c18, 'C17': c17, 'C19': c19, 'C20': c20, 'C21': c21, 'C15': c15, 'C16': c16, 'C14': c14, 'C13': c13, 'C12': c12, 'C11': c11, 'C10': c10, 'C09': c09, 'C08': c08, 'C07': c07, 'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06}
def get(pid, thorough, seed):
    r = TABLE[pid](thorough)
    if pid not in ('C19', 'C24'):       # the text form exists for character dimensions only; the examples name their own dimensions
        k = 1 if thorough else {'C11': 1, 'C07': 2, 'C08': 2, 'C09': 2, 'C10': 2}.get(pid, 4)
        ok = [t for t in r['tus'] if 'HARNESS(' in t['text']]
        r['tus'] = r['tus'] + named_tus(ok[k // 2::k])
    return r
NOT_APPLICABLE = {}
NOTES = {}
