"""C11 (states), C17 (static = dynamic), C18 (composition, shortcuts), C20 (contain)"""
from .gen import *
from .gen import tu, pack_tus
import itertools
USING = HEAD + 'using namespace noarr;\n'

def c11(T):
    base = r"""
#define X index_in<'x'>
#define Y index_in<'y'>
#define Z index_in<'z'>
#define LX length_in<'x'>
#define LY length_in<'y'>
template<class Tag, class S> static inline vp_size g(S s) { if constexpr (state_contains<S, Tag>) return (vp_size)s.template get<Tag>(); else return (vp_size)~0xabcdefull; }
#define ABSENT ((vp_size)~0xabcdefull)
struct Opt { vp_size v; bool has; Opt() : v(ABSENT), has(false) {} Opt(vp_size q) : v(q), has(true) {} };
#define no Opt()
// the state is exactly this finite map (ABSENT: no such item)
#define IS(s, x_, y_, z_, lx_, ly_, label) do { auto vp_s = (s); using vp_t = decltype(vp_s); Opt vp_x = (x_), vp_y = (y_), vp_z = (z_), vp_lx = (lx_), vp_ly = (ly_); \
  vp_check(all(state_contains<vp_t, X> == vp_x.has, state_contains<vp_t, Y> == vp_y.has, state_contains<vp_t, Z> == vp_z.has, state_contains<vp_t, LX> == vp_lx.has, state_contains<vp_t, LY> == vp_ly.has), label ": which items"); \
  vp_check(all(g<X>(vp_s) == vp_x.v, g<Y>(vp_s) == vp_y.v, g<Z>(vp_s) == vp_z.v, g<LX>(vp_s) == vp_lx.v, g<LY>(vp_s) == vp_ly.v), label ": values"); } while (0)
#define W5 vp_size a = NDW(), b = NDW(), c = NDW(), d = NDW(), e = NDW();
"""
    one = r"""
HARNESS(make) { W5
  IS((make_state<X, LX>(a, b)), a, no, no, b, no, "make_state"); IS((make_state<LX, Z, X>(a, b, c)), c, no, b, a, no, "make_state order"); IS((idx<'x', 'z', 'y'>(a, b, c)), a, c, b, no, no, "idx"); IS(empty_state, no, no, no, no, no, "empty_state"); IS((make_state<X, LY, Y>(lit<7>, b, lit<3>)), 7, 3, no, no, b, "make_state static"); IS((idx<'x', 'y'>(lit<5>, b)), 5, b, no, no, no, "idx static"); IS((make_state<>()), no, no, no, no, no, "make_state empty");
  IS((make_state<X>((unsigned)a)), (vp_size)(unsigned)a, no, no, no, no, "make_state of unsigned");
}
HARNESS(with) { W5 auto s = make_state<X, Y, LX>(a, b, c);
  IS(s.template with<Z>(d), a, b, d, c, no, "add"); IS(s.template with<X>(d), d, b, no, c, no, "replace first"); IS(s.template with<Y>(d), a, d, no, c, no, "replace middle"); IS(s.template with<LX>(d), a, b, no, d, no, "replace last"); IS((s.template with<LX, Z, X>(d, e, b)), b, b, e, d, no, "replace and add"); IS((s.template with<Y, X>(d, e)), e, d, no, c, no, "swap"); IS(s.template with<>(), a, b, no, c, no, "with nothing"); IS(s.template with<X>(lit<9>), 9, b, no, c, no, "replace by static"); IS(s, a, b, no, c, no, "unchanged");
  IS((s.template with<LY, Z>(d, e)), a, b, e, c, d, "add two"); IS((s.template with<X, Y, LX>(c, a, b)), c, a, no, b, no, "replace all"); IS((s.template with<LX, Y, X>(c, a, b)), b, a, no, c, no, "replace all, other order");
}
HARNESS(remove) { W5 auto s = make_state<X, LY, Y, LX>(a, d, b, c);
  IS(s.template remove<X>(), no, b, no, c, d, "first"); IS(s.template remove<Y>(), a, no, no, c, d, "middle"); IS(s.template remove<LX>(), a, b, no, no, d, "last"); IS((s.template remove<X, LX>()), no, b, no, no, d, "two"); IS((s.template remove<LX, Y, X>()), no, no, no, no, d, "three"); IS(s.template remove<Z>(), a, b, no, c, d, "absent"); IS((s.template remove<Z, Y>()), a, no, no, c, d, "absent and present"); IS(s.template remove<>(), a, b, no, c, d, "none"); IS((s.template remove<X, LX, Y, LY>()), no, no, no, no, no, "all"); IS(s, a, b, no, c, d, "unchanged");
}
HARNESS(filter) { W5 auto s = make_state<X, LY, Y, LX>(a, d, b, c);
  IS(s.template filter<X>(), a, no, no, no, no, "first"); IS(s.template filter<LX>(), no, no, no, c, no, "last"); IS((s.template filter<LX, X>()), a, no, no, c, no, "two"); IS((s.template filter<Y, Z>()), no, b, no, no, no, "absent and present"); IS(s.template filter<>(), no, no, no, no, no, "none"); IS((s.template filter<Y, X, LX, LY>()), a, b, no, c, d, "all");
  IS((filter_indices<'x', 'y'>(s)), a, b, no, no, no, "filter_indices"); IS(filter_indices<'y'>(s), no, b, no, no, no, "filter_indices one"); IS((filter_lengths<'y'>(s)), no, no, no, no, d, "filter_lengths"); IS((filter_lengths<'y', 'x', 'z'>(s)), no, no, no, c, d, "filter_lengths two"); IS((s.items_restrict(helpers::state_items_pack<state_item<Y, vp_size>, state_item<X, vp_size>>())), a, b, no, no, no, "items_restrict");
}
HARNESS(merge) { W5
  IS((make_state<X, Y>(a, b) & make_state<LX, Z>(c, d)), a, b, d, c, no, "disjoint"); IS((make_state<X, Y>(a, b) & make_state<Y, Z>(c, d)), a, c, d, no, no, "overlapping: right wins"); IS((make_state<X, Y>(a, b) & make_state<Y, X>(c, d)), d, c, no, no, no, "same tags"); IS((empty_state & make_state<X>(a)), a, no, no, no, no, "empty left"); IS((make_state<X>(a) & empty_state), a, no, no, no, no, "empty right"); IS((make_state<X>(a) & make_state<X>(lit<4>) & make_state<Y>(b)), 4, b, no, no, no, "static on the right"); IS((make_state<X, LX>(lit<4>, c) & make_state<X>(a)), a, no, no, c, no, "dynamic replaces static"); IS((empty_state & empty_state), no, no, no, no, no, "both empty");
}
HARNESS(read) { W5 auto s = make_state<X, LY, Y, LX, Z>(a, d, b, c, e);
  vp_check(all(get_index<'x'>(s) == a, get_index<'y'>(s) == b, get_index<'z'>(s) == e), "get_index"); vp_check(all(get_length_in<'x'>(s) == c, get_length_in<'y'>(s) == d), "get_length_in");
  auto [p, q, r] = get_indices<'z', 'x', 'y'>(s); vp_check(all(p == e, q == a, r == b), "get_indices"); auto [t, u] = get_lengths_in<'y', 'x'>(s); vp_check(all(t == d, u == c), "get_lengths_in");
  vp_check(all(decltype(s)::contains<X, Y, Z, LX, LY>, !decltype(s)::contains<X, length_in<'z'>>, !decltype(s)::contains<index_in<'w'>>, decltype(s)::contains<>, !decltype(s)::is_empty, state<>::is_empty), "contains");
  auto w = make_state<X, Y, Z>(a, lit<6>, b); auto [i, j, k] = get_indices<'x', 'y', 'z'>(w); vp_check(all(i == a, j == 6, k == b), "get_indices with a static item"); vp_check(std::is_same_v<state_get_t<decltype(w), Y>, std::integral_constant<vp_size, 6>>, "static item stays static"); vp_check(std::is_same_v<state_get_t<decltype(w), X>, vp_size>, "dynamic item stays dynamic");
}
"""
    two = r"""
HARNESS(plus) { W5 vp_size f = NDW();
  IS((make_state<X, Y>(a, b) + make_state<X, Y>(c, d)), a + c, b + d, no, no, no, "same items"); IS((make_state<X, Y>(a, b) + make_state<Y, X>(c, d)), a + d, b + c, no, no, no, "other order"); IS((make_state<X, Y>(a, b) + make_state<Y, Z>(c, d)), a, b + c, d, no, no, "overlap"); IS((make_state<X>(a) + make_state<Y>(b)), a, b, no, no, no, "disjoint"); IS((make_state<X, LX, Y>(a, b, c) + make_state<LX, Z, X>(d, e, f)), a + f, c, e, b + d, no, "mixed"); IS((make_state<X>(a) + empty_state), a, no, no, no, no, "empty right"); IS((empty_state + make_state<X, Y>(a, b)), a, b, no, no, no, "empty left"); IS((empty_state + empty_state), no, no, no, no, no, "both empty"); IS((+make_state<X, Y>(a, b)), a, b, no, no, no, "unary");
  IS((make_state<X, Y, Z>(a, b, c) + make_state<Z>(d)), a, b, c + d, no, no, "subset last"); IS((make_state<Z>(d) + make_state<X, Y, Z>(a, b, c)), a, b, c + d, no, no, "superset last"); IS((make_state<X, Y, Z>(a, b, c) + make_state<Z, Y, X>(d, e, f)), a + f, b + e, c + d, no, no, "reversed"); IS((make_state<X, Y, Z>(a, b, c) + make_state<Y, Z, X>(d, e, f)), a + f, b + d, c + e, no, no, "rotated");
}
HARNESS(minus) { W5 vp_size f = NDW();
  IS((make_state<X, Y>(a, b) - make_state<X, Y>(c, d)), a - c, b - d, no, no, no, "same items"); IS((make_state<X, Y>(a, b) - make_state<Y, X>(c, d)), a - d, b - c, no, no, no, "other order"); IS((make_state<X, Y>(a, b) - make_state<Y, Z>(c, d)), a, b - c, 0 - d, no, no, "overlap"); IS((make_state<X>(a) - make_state<Y>(b)), a, 0 - b, no, no, no, "disjoint"); IS((make_state<X, LX, Y>(a, b, c) - make_state<LX, Z, X>(d, e, f)), a - f, c, 0 - e, b - d, no, "mixed"); IS((make_state<X>(a) - empty_state), a, no, no, no, no, "empty right"); IS((empty_state - make_state<X, Y>(a, b)), 0 - a, 0 - b, no, no, no, "empty left"); IS((empty_state - empty_state), no, no, no, no, no, "both empty"); IS((-make_state<X, Y>(a, b)), 0 - a, 0 - b, no, no, no, "unary");
  IS((make_state<X, Y, Z>(a, b, c) - make_state<Z>(d)), a, b, c - d, no, no, "subset last"); IS((make_state<Z>(d) - make_state<X, Y, Z>(a, b, c)), 0 - a, 0 - b, d - c, no, no, "superset last"); IS((make_state<X, Y, Z>(a, b, c) - make_state<Z, Y, X>(d, e, f)), a - f, b - e, c - d, no, no, "reversed"); IS((make_state<X, Y, Z>(a, b, c) - make_state<Y, Z, X>(d, e, f)), a - f, b - d, c - e, no, no, "rotated");
  auto s = make_state<X, LY, Y>(a, b, c), t = make_state<X, LY, Y>(d, e, f); vp_check(vp_and((s + t) - t == s, s - t == s + -t), "inverse");
}
HARNESS(equal) { W5 vp_size f = NDW();
  vp_check((make_state<X, Y>(a, b) == make_state<X, Y>(c, d)) == vp_and(a == c, b == d), "same order"); vp_check((make_state<X, Y>(a, b) == make_state<Y, X>(c, d)) == vp_and(a == d, b == c), "other order"); vp_check((make_state<X, Y>(a, b) != make_state<Y, X>(c, d)) == !vp_and(a == d, b == c), "not equal"); vp_check(!(make_state<X, Y>(a, b) == make_state<X>(c)), "subset"); vp_check(!(make_state<X>(a) == make_state<X, Y>(c, d)), "superset"); vp_check(!(make_state<X>(a) == make_state<LX>(b)), "other tag"); vp_check(empty_state == empty_state, "empty"); vp_check(!(empty_state == make_state<X>(a)), "empty and not"); vp_check((make_state<X, Y>(lit<3>, b) == make_state<X, Y>(c, d)) == vp_and(3 == c, b == d), "static and dynamic"); vp_check((make_state<X, LX, Z>(a, b, c) == make_state<Z, X, LX>(d, e, f)) == all(a == e, b == f, c == d), "three, other order");
}
HARNESS(order) { W5
  vp_check((make_state<X, Y>(a, b) <= make_state<Y, X>(c, d)) == vp_and(a <= d, b <= c), "<="); vp_check((make_state<X, Y>(a, b) >= make_state<Y, X>(c, d)) == vp_and(a >= d, b >= c), ">="); vp_check((make_state<X, Y>(a, b) < make_state<Y, X>(c, d)) == vp_and(vp_and(a <= d, b <= c), !vp_and(a == d, b == c)), "<"); vp_check((make_state<X, Y>(a, b) > make_state<Y, X>(c, d)) == vp_and(vp_and(a >= d, b >= c), !vp_and(a == d, b == c)), ">"); vp_check((make_state<X>(a) <= make_state<Y, X>(c, d)) == (a <= d), "subset"); vp_check(!(make_state<X, Y>(a, b) <= make_state<X>(c)), "superset"); vp_check((make_state<X>(a) < make_state<Y, X>(c, d)) == (a <= d), "proper subset");
}
HARNESS(neighbors) { W5 std::ptrdiff_t p = (std::ptrdiff_t)d, q = (std::ptrdiff_t)e; auto s = make_state<X, LX, Y, Z>(a, b, c, d);
  IS(neighbor<'x'>(s, p), a + d, c, d, b, no, "x"); IS(neighbor<'y'>(s, p), a, c + d, d, b, no, "y"); IS((neighbor<'x', 'y'>(s, p, q)), a + d, c + e, d, b, no, "x and y"); IS((neighbor<'z', 'x'>(s, q, p)), a + d, c, d + e, b, no, "z and x"); IS((neighbor<'x'>(s, d)), a + d, c, d, b, no, "unsigned"); IS((neighbor<'x', 'z'>(s, -1, +1)), a - 1, c, d + 1, b, no, "int literals"); IS((neighbor<'z'>(s, -2)), a, c, d - 2, b, no, "negative int"); IS((neighbor<'x'>(neighbor<'x'>(s, p), (std::ptrdiff_t)(0 - d))), a, c, d, b, no, "there and back"); IS((neighbor<'x', 'y'>(s, lit<3>, p)), a + 3, c + d, d, b, no, "static difference"); IS((neighbor<'y'>(s, std::integral_constant<std::ptrdiff_t, -3>())), a, c - 3, d, b, no, "negative static difference"); IS(s, a, c, d, b, no, "unchanged");
}
HARNESS(updates) { W5 auto s = make_state<X, LX, Y>(a, b, c);
  IS(update_index<'x'>(s, [&](auto v) { return v * 3 + d; }), a * 3 + d, c, no, b, no, "x"); IS(update_index<'y'>(s, [&](auto) { return e; }), a, e, no, b, no, "y"); IS(update_index<'y'>(s, [](auto) { return lit<8>; }), a, 8, no, b, no, "to static"); IS(update_index<'x'>(update_index<'y'>(s, [](auto v) { return v + 1; }), [](auto v) { return v - 1; }), a - 1, c + 1, no, b, no, "chain"); IS((update_index<'x'>(make_state<X, Y>(lit<2>, c), [](auto v) { return v + lit<0>; })), 2, c, no, no, no, "static");
}
"""
    # histories: every sequence of two (thorough: three) operations from a set, against a plain map
    ops = [("s.template with<X>(v{i})", lambda m, v: {**m, 'x': v}), ("s.template with<Y, LX>(v{i}, v0)", lambda m, v: {**m, 'y': v, 'lx': 'v0'}), ("s.template remove<X>()", lambda m, v: {k: w for k, w in m.items() if k != 'x'}), ("s.template remove<LX, Y>()", lambda m, v: {k: w for k, w in m.items() if k not in ('y', 'lx')}), ("s.template filter<Y, Z, LX>()", lambda m, v: {k: w for k, w in m.items() if k in ('y', 'z', 'lx')}),
           ("s & make_state<Z, X>(v{i}, v0)", lambda m, v: {**m, 'z': v, 'x': 'v0'}), ("s + make_state<Y, Z>(v{i}, v0)", lambda m, v: {**m, 'y': f"({m['y']} + {v})" if 'y' in m else v, 'z': f"({m['z']} + v0)" if 'z' in m else 'v0'}), ("s - make_state<X, LX>(v{i}, v0)", lambda m, v: {**m, 'x': f"({m['x']} - {v})" if 'x' in m else f'(0 - {v})', 'lx': f"({m['lx']} - v0)" if 'lx' in m else '(0 - v0)'}), ("make_state<Y, X>(v{i}, v0) & s", lambda m, v: {**{'y': v, 'x': 'v0'}, **m})]
    text = 'HARNESS(histories) { vp_size v0 = NDW(), v1 = NDW(), v2 = NDW(), v3 = NDW(), a = NDW(), b = NDW(), c = NDW();\n'
    for n, seq in enumerate(itertools.product(range(len(ops)), repeat=3 if T else 2)):
        m = {'x': 'a', 'lx': 'b', 'y': 'c'}; e = 'auto s0 = make_state<X, LX, Y>(a, b, c); '
        for i, o in enumerate(seq):
            e += f'auto s{i + 1} = ' + ops[o][0].format(i=i + 1).replace('s.', f's{i}.').replace('s &', f's{i} &').replace('s +', f's{i} +').replace('s -', f's{i} -').replace('& s', f'& s{i}') + '; '; m = ops[o][1](m, f'v{i + 1}')
        f = lambda k: m.get(k, 'no')
        text += f'  {{ {e} IS(s{len(seq)}, {f("x")}, {f("y")}, {f("z")}, {f("lx")}, no, "history {seq}"); }}\n'
    text += '}\n'
    return dict(tus=[tu('c11_a', base + one, USING), tu('c11_b', base + two, USING), tu('c11_h', base + text, USING)])
