"""C20: the global planner finds a way through free cells, from start to goal, whenever there is one."""
import itertools
from ..behave import *
from ..terms import *
from .. import matrices
from .c04 import S, O
from .c27 import P, V, L, plain

ME = T('sym', 'self', 'notnone')
CW, CH = P('cell_w'), P('cell_h')


def inline(q):
    return 'inline'


def x_round(I, a, kw):
    """rounding away numerical noise leaves exact values unchanged"""
    if len(a) + len(kw) != 2:
        return None
    n = numval(a[1] if len(a) > 1 else kw.get('decimals', kw.get('ndigits', NONE)))
    return I.arr(a[0]) if n is not None and n >= 4 else None


def install(I):
    matrices.install(I)
    for n in ('round', 'around', 'round_'):
        I.extra[n] = x_round


def spec(ctx, f, *args):
    return run_spec(ctx, 'grid.' + f, None, list(args), policy=inline, setup=lambda I, s: install(I)).ret


def grid(I, ctx, g, n, w, h, occupied=(), position=None, offset=None, cls='Grid'):
    """a grid of the given number of cells, sizes and occupied cells"""
    I.types[g] = ctx.prog.cls(cls)
    num_ = lambda x: x if isinstance(x, Term) else num(x)
    n = [num_(x) for x in n]
    I.st[('f', g, 'n_cells')] = I.new_list(n)
    I.st[('f', g, 'width')] = w
    I.st[('f', g, 'height')] = h
    I.st[('f', g, 'cell_width')] = div(w, n[0])
    I.st[('f', g, 'cell_height')] = div(h, n[1])
    I.st[('f', g, 'position')] = I.new_list(list(position or [S('gx'), S('gy')]))
    I.st[('f', g, 'offset')] = I.new_list(list(offset or [ZERO, ZERO]))
    I.st[('f', g, 'occupied')] = I.new_list([I.new_list([num_(x) for x in c]) for c in occupied])
    return g


def run(ctx):
    ctx.rules.append('C20: for all sizes and positions of the grid and every pattern of occupied cells, cells are free, reachable and occupied as in the '
                     'plane; the path found consists of accessible moves from the start to the goal, each cell reached by its cheapest known predecessor.')
    sizes(ctx)
    cells(ctx)
    neighbours(ctx)
    snapping(ctx)
    costs(ctx)
    occupied(ctx)
    planner(ctx)
    search(ctx)
    return 60


def sizes(ctx):
    for cls, args in (('Grid', [P('W'), P('H')]), ('SquareGrid', [P('W')])):
        where = ctx.loc(cls, '__init__')

        def go():
            a = run_method(ctx, cls, '__init__', lambda I: args + [I.new_list([S('gx'), S('gy')]), I.new_list([P('n0'), P('n1')]), I.new_list([P('o0'), P('o1')])],
                           policy=inline, setup=lambda I, s: install(I))
            h = args[-1]
            for f, w in (('width', args[0]), ('height', h), ('cell_width', div(args[0], P('n0'))), ('cell_height', div(h, P('n1'))),
                         ('position', V(S('gx'), S('gy'))), ('n_cells', V(P('n0'), P('n1'))), ('offset', V(P('o0'), P('o1'))), ('occupied', V())):
                ctx.equal('%s.%s' % (cls, f), a_(a.field(ME, f)), a_(w), '%s of the grid' % f, where)
        ctx.guard(cls, go)


def a_(x):
    return T('vec', *x.args) if x.op in ('list', 'tuple') else x


# centres: symbolic cells inside the grid, or on a border
def centre(kind, name, other):
    """(index, number of cells) with the cell inside / on the first / last row"""
    if kind == 'mid':
        i = add(P(name), ONE)
        return i, add(add(i, num(2)), P(other))
    if kind == 'first':
        return ZERO, add(num(2), P(other))
    if kind == 'last':
        i = add(P(name), ONE)
        return i, add(i, ONE)
    return ZERO, ONE


STEPS = [(i, j) for i in (-1, 0, 1) for j in (-1, 0, 1) if (i, j) != (0, 0)]


def truth_(t):
    return lift(lambda x: tm.truth(x), t)


def cells(ctx):
    def of(k, i, n):
        return {'below': num(-1), 'first': ZERO, 'in': i, 'last': sub(n, ONE), 'beyond': n}[k]
    i, n = centre('mid', 'i', 'r')
    j, m = centre('mid', 'j', 's')
    for method in ('in_bounds', 'free'):
        where = ctx.loc('Grid', method)
        for kx in ('below', 'first', 'in', 'last', 'beyond'):
            for ky in ('below', 'first', 'in', 'last', 'beyond'):
                for occ in ((), ('me',), ('other',)) if method == 'free' else ((),):
                    key = '%s.%s.%s%s' % (method, kx, ky, '.' + occ[0] if occ else '')

                    def go():
                        p = [of(kx, i, n), of(ky, j, m)]
                        cs = [p if o == 'me' else [add(p[0], ONE), p[1]] for o in occ]
                        a = run_method(ctx, 'Grid', method, lambda I: [I.new_list(p)], policy=inline,
                                       setup=lambda I, s: (install(I), grid(I, ctx, s, [n, m], P('W'), P('H'), cs)))
                        want = kx in ('first', 'in', 'last') and ky in ('first', 'in', 'last') and 'me' not in occ
                        ctx.equal(key, truth_(a.ret), mkbool(want), 'cell of the grid%s' % (' that is not occupied' if method == 'free' else ''), where)
                    ctx.guard(key, go)
    where = ctx.loc('Grid', 'block')
    for given in ('one', 'two', 'outside', 'none'):
        def go():
            p = {'one': [[i, j]], 'two': [[i, j], [ZERO, j]], 'outside': [[n, j], [i, j]], 'none': []}[given]
            a = run_method(ctx, 'Grid', 'block', lambda I: [I.new_list([I.new_list(c) for c in p])], policy=inline,
                           setup=lambda I, s: (install(I), grid(I, ctx, s, [n, m], P('W'), P('H'), [(3, 3)])))
            got = points_(a.field(ME, 'occupied'))
            if got is None:
                return ctx.unknown('block.' + given, 'occupied cells not resolved', where)
            want = [(num(3), num(3))] + [tuple(c) for c in p if c[0] is not n]
            same_cells(ctx, 'block.' + given, got, want, 'occupied cells', where, allow=[(n, j)])
        ctx.guard('block.' + given, go)


def points_(t):
    if t.op not in ('list', 'vec', 'tuple') or any(r.op not in ('list', 'vec', 'tuple') for r in t.args):
        return None
    return [tuple(r.args) for r in t.args]


def same_cells(ctx, key, got, want, what, where, allow=()):
    g, w = set(got), set(want)
    if w <= g and g - w <= set(allow):
        return ctx.ok(key, what, where)
    show = lambda s: '{%s}' % ', '.join(sorted('(%s, %s)' % (short(a), short(b)) for a, b in s))
    ctx.bad(key, '%s: %s%s' % (what, 'missing %s ' % show(w - g) if w - g else '', 'wrongly there %s' % show(g - w - set(allow)) if g - w - set(allow) else ''),
            where, '%s/%s' % (sorted(x.dig for p in w - g for x in p), sorted(x.dig for p in g - w for x in p)))


def neighbours(ctx):
    """every pattern of occupied cells around an inner cell, a sample of them at the borders"""
    where = ctx.loc('Grid', 'get_neighbors')
    for kx in ('mid', 'first', 'last', 'only'):
        for ky in ('mid', 'first', 'last', 'only'):
            (i, n), (j, m) = centre(kx, 'i', 'r'), centre(ky, 'j', 's')
            inside = lambda d: not (kx in ('first', 'only') and d[0] < 0 or kx in ('last', 'only') and d[0] > 0 or
                                    ky in ('first', 'only') and d[1] < 0 or ky in ('last', 'only') and d[1] > 0)
            full = kx == ky == 'mid'
            pats = [p for q in range(9) for p in itertools.combinations(STEPS, q)] if full else [()] + [(s,) for s in STEPS if inside(s)]
            bad, unknown = [], []

            def go():
                for pat in pats:
                    cs = [[add(i, num(d[0])), add(j, num(d[1]))] for d in pat]
                    a = run_method(ctx, 'Grid', 'get_neighbors', lambda I: [I.new_list([i, j])], policy=inline,
                                   setup=lambda I, s: (install(I), grid(I, ctx, s, [n, m], P('W'), P('H'), cs)))
                    got = points_(a.ret)
                    free = lambda d: d not in pat and inside(d)
                    want = set((add(i, num(d[0])), add(j, num(d[1]))) for d in STEPS if free(d) and (0 in d or free((d[0], 0)) and free((0, d[1]))))
                    if got is None:
                        unknown.append(pat)
                    elif set(got) != want:
                        bad.append((pat, set(got) ^ want, set(got) - want))
                key = 'neighbours.%s.%s' % (kx, ky)
                if bad:
                    pat, diff, extra = bad[0]
                    d = sorted(diff, key=lambda p: (p[0].dig, p[1].dig))[0]
                    ctx.bad(key, 'with %s occupied around it, a cell %s (%s, %s) from (%s, %s) (%d of %d patterns)' % (
                        list(pat) or 'nothing', 'may be left for' if d in extra else 'may not be left for', short(d[0]), short(d[1]), short(i), short(j), len(bad), len(pats)),
                        where, '%s.%s' % (kx, ky))
                elif unknown:
                    ctx.unknown(key, 'neighbours not resolved', where)
                else:
                    ctx.ok(key, '%d patterns of occupied cells' % len(pats), where)
            ctx.guard('neighbours.%s.%s' % (kx, ky), go)


def snapping(ctx):
    where = ctx.loc('Grid', 'move_to_gridpoint')
    W, H = mul(num(7), CW), mul(num(5), CH)

    def at(i, j, fx, fy):
        """point in cell (i, j), off its centre by a fraction of the cell"""
        return [add(S('gx'), add(div(neg(W), num(2)), mul(add(num(Fraction(1, 2)), num(i + fx)), CW))),
                add(S('gy'), add(div(neg(H), num(2)), mul(add(num(Fraction(1, 2)), num(j + fy)), CH)))]
    q = Fraction(1, 3)
    for name, i, j, fx, fy in (('inside', 3, 2, q, -q), ('inside2', 5, 1, -q, q), ('corner', 0, 4, q, q), ('left', -2, 3, q, q), ('right', 9, 3, q, q),
                               ('below', 3, -4, q, q), ('above', 3, 8, -q, q), ('beyond', 12, 9, 0, 0)):
        def go():
            a = run_method(ctx, 'Grid', 'move_to_gridpoint', lambda I: [I.new_list(at(i, j, fx, fy))], policy=inline,
                           setup=lambda I, s: (install(I), grid(I, ctx, s, [7, 5], W, H)))
            want = L(num(min(max(i, 0), 6)), num(min(max(j, 0), 4)))
            ctx.equal('snap.' + name, plain(a.ret), plain(want), 'cell of a point', where)
        ctx.guard('snap.' + name, go)
    # an occupied cell: the closest free neighbour
    for shape, (w, h) in (('square', (CW, CW)), ('wide', (mul(num(3), CH), CH)), ('high', (CW, mul(num(2), CW)))):
        for cname, (i, j) in (('inner', (3, 2)), ('edge', (0, 2)), ('corner', (6, 4))):
            around = [d for d in STEPS if 0 <= i + d[0] < 7 and 0 <= j + d[1] < 5]
            cost = lambda d: {'square': (1, 1), 'wide': (3, 1), 'high': (1, 2)}[shape]
            dist = lambda d: (d[0] * cost(d)[0]) ** 2 + (d[1] * cost(d)[1]) ** 2
            for left in [tuple(around)] + [(d,) for d in around] + [tuple(d for d in around if d[0]), tuple(d for d in around if d[1]), tuple(d for d in around if d[0] and d[1])]:
                if not left:
                    continue
                key = 'snap.occupied.%s.%s.%s' % (shape, cname, '+'.join('%d,%d' % d for d in left) if len(left) < 3 else len(left))

                def go():
                    Wt, Ht = mul(num(7), w), mul(num(5), h)
                    p = [add(S('gx'), add(div(neg(Wt), num(2)), mul(num(i + Fraction(3, 5)), w))), add(S('gy'), add(div(neg(Ht), num(2)), mul(num(j + Fraction(2, 5)), h)))]
                    cs = [(i, j)] + [(i + d[0], j + d[1]) for d in around if d not in left]
                    a = run_method(ctx, 'Grid', 'move_to_gridpoint', lambda I: [I.new_list(p)], policy=inline,
                                   setup=lambda I, s: (install(I), grid(I, ctx, s, [7, 5], Wt, Ht, cs)))
                    got = plain(a.ret)
                    best = min(dist(d) for d in left)
                    ok = [plain(L(num(i + d[0]), num(j + d[1]))) for d in left if dist(d) == best]
                    if any(same(got, w_) for w_ in ok):
                        ctx.ok(key, 'closest free neighbour', where)
                    else:
                        ctx.equal(key, got, ok[0], 'closest free cell next to an occupied one', where)
                ctx.guard(key, go)


def on_planner(I, ctx, s, n, w, h, cs, start=(0, 0), goal=(0, 0), diag=None):
    install(I)
    g = T('sym', 'grid', 'notnone', 'object')
    grid(I, ctx, g, n, w, h, cs)
    I.st[('f', s, 'grid')] = g
    lst = lambda c: I.new_list([x if isinstance(x, Term) else num(x) for x in c])
    I.st[('f', s, 'start')] = lst(start)
    I.st[('f', s, 'goal')] = lst(goal)
    if diag is not None:
        I.st[('f', s, 'diag_cost')] = diag
    return g


def node(I, ctx, name, pos, parent=NONE, **costs):
    o = T('sym', name, 'notnone', 'object')
    I.types[o] = ctx.prog.cls('Node')
    I.st[('f', o, 'pos')] = I.new_list([x if isinstance(x, Term) else num(x) for x in pos])
    I.st[('f', o, 'parent')] = parent
    for k, v in costs.items():
        I.st[('f', o, k)] = v
    return o


def costs(ctx):
    where = ctx.loc('AStarPlanner', 'calculate_g_cost')
    W, H = mul(num(7), CW), mul(num(5), CH)
    i, j = P('i'), P('j')
    for d in STEPS:
        def go():
            def setup(I, s):
                on_planner(I, ctx, s, [7, 5], W, H, [], diag=P('diag'))
                par = node(I, ctx, 'parent', (i, j), g_cost=P('g'))
                node(I, ctx, 'node', (add(i, num(d[0])), add(j, num(d[1]))), par)
            a = run_method(ctx, 'AStarPlanner', 'calculate_g_cost', [T('sym', 'node', 'notnone', 'object')], policy=inline, setup=setup)
            step = CW if d[1] == 0 else CH if d[0] == 0 else P('diag')
            ctx.equal('cost.step.%d,%d' % d, a.ret, add(P('g'), step), 'cost of a move', where)
        ctx.guard('cost.step.%d,%d' % d, go)
    where = ctx.loc('AStarPlanner', 'calculate_h_cost')
    for d in STEPS + [(0, 0), (3, -2), (-4, 1)]:
        def go():
            def setup(I, s):
                on_planner(I, ctx, s, [7, 5], W, H, [], goal=(add(i, num(d[0])), add(j, num(d[1]))))
                node(I, ctx, 'node', (i, j))
            a = run_method(ctx, 'AStarPlanner', 'calculate_h_cost', [T('sym', 'node', 'notnone', 'object')], policy=inline, setup=setup)
            ctx.equal('cost.rest.%d,%d' % d, a.ret, add(mul(num(abs(d[0])), CW), mul(num(abs(d[1])), CH)), 'estimated remaining cost', where)
        ctx.guard('cost.rest.%d,%d' % d, go)
    where = ctx.loc('AStarPlanner', 'calculate_f_cost')

    def go():
        a = run_method(ctx, 'AStarPlanner', 'calculate_f_cost', [T('sym', 'node', 'notnone', 'object')], policy=inline,
                       setup=lambda I, s: (install(I), node(I, ctx, 'node', (i, j), g_cost=P('g'), h_cost=P('h'))))
        ctx.equal('cost.total', a.ret, add(P('g'), P('h')), 'total cost', where)
    ctx.guard('cost.total', go)
    where = ctx.loc('AStarPlanner', 'get_lowest_f_cost_node')
    for perm in list(itertools.permutations(range(3))) + [(0,), (1, 0), (0, 1)]:
        def go():
            names = {}

            def setup(I, s):
                install(I)
                ns = []
                for k in perm:
                    f = P('f')
                    for q in range(k):
                        f = add(f, P('df%d' % q))
                    ns.append(node(I, ctx, 'n%d' % k, (k, k), f_cost=f))
                I.st[('f', s, 'open_list')] = I.new_list(ns)
            a = run_method(ctx, 'AStarPlanner', 'get_lowest_f_cost_node', [], policy=inline, setup=setup)
            ctx.equal('cheapest.%s' % ''.join(map(str, perm)), a.ret, T('sym', 'n0', 'notnone', 'object'), 'cheapest open node', where)
        ctx.guard('cheapest.%s' % ''.join(map(str, perm)), go)
    where = ctx.loc('AStarPlanner', 'convert_node_to_waypoint')

    def go():
        nodes = [(i, j), (ZERO, ZERO), (num(6), num(2))]
        a = run_method(ctx, 'AStarPlanner', 'convert_node_to_waypoint', lambda I: [I.new_list([I.new_list(c) for c in nodes])], policy=inline,
                       setup=lambda I, s: on_planner(I, ctx, s, [P('n0'), P('n1')], P('W'), P('H'), []))
        want = [spec(ctx, 'waypoint', L(*c), L(S('gx'), S('gy')), P('W'), P('H'), L(P('n0'), P('n1'))) for c in nodes]
        ctx.equal('waypoints', plain(a.ret), plain(L(*want)), 'waypoints are centres of cells', where)
    ctx.guard('waypoints', go)


def occupied(ctx):
    """one obstacle, in every position relative to the lines of the grid"""
    where = ctx.loc('Grid', 'get_occupied_cells')
    n, m = 3, 2
    W, H = mul(num(n), CW), mul(num(m), CH)
    half = Fraction(1, 2)
    spans = lambda k: [(a * half, b * half) for a in range(-1, 2 * k + 2) for b in range(a + 1, 2 * k + 2)]
    third = Fraction(1, 3)
    xs = spans(n)
    ys = [(Fraction(0), Fraction(1)), (half, Fraction(3, 2)), (Fraction(1), Fraction(2)), (third, 2 * third), (Fraction(-1), Fraction(0)), (Fraction(-1), Fraction(3)), (1 + third, Fraction(2))]
    cases = [(x, y) for x in xs for y in (ys[0], ys[3])] + [(x, y) for x in ((Fraction(0), Fraction(1)), (third, 2 * third), (Fraction(-1), Fraction(4)), (Fraction(1), Fraction(2))) for y in ys]
    q = lambda a, b: (Fraction(a), Fraction(b))
    chosen = {'rectangle': cases, 'circle': cases[::4], 'moving': cases[:20:3], 'still': cases[:20:3],
              'offset': [(x, y) for x in (q(0, 1), q(1, 2), q(2, 3), q('1/2', 1), q(1, '3/2')) for y in (q(0, 1), q(1, 2), q('1/3', '2/3'))]}
    chosen['circle offset'] = [(x, y) for x in (q(0, 1), q(1, 2), q(2, 3), q('1/2', 1), q(1, '3/2')) for y in (q(0, 1), q('1/2', 1), q(1, 2))]
    for kind in sorted(chosen):
        bad, unknown = [], []
        tried = [0]

        def go():
            for (x0, x1), (y0, y1) in chosen[kind]:
                ch = CH
                if kind.startswith('circle'):
                    # cells are square then, and so is the box around the circle
                    y1 = y0 + (x1 - x0)
                    ch = CW
                cx, cy, hx, hy = (x0 + x1) / 2, (y0 + y1) / 2, (x1 - x0) / 2, (y1 - y0) / 2
                off = Fraction(1, 8) if kind.endswith('offset') else 0

                def setup(I, s):
                    install(I)
                    grid(I, ctx, s, [n, m], W, mul(num(m), ch), offset=[mul(num(off), CW), mul(num(2 * off), ch)])

                def args(I):
                    o = T('sym', 'obstacle', 'notnone', 'object')
                    I.types[o] = ctx.prog.cls('Obstacle2D')
                    sh = T('sym', 'shape', 'notnone', 'object')
                    if kind.startswith('circle'):
                        I.types[sh] = ctx.prog.cls('Circle')
                        I.st[('f', sh, 'radius')] = mul(num(hx), CW)
                    else:
                        I.types[sh] = ctx.prog.cls('Rectangle')
                        a, b = mul(num(hx), CW), mul(num(hy), ch)
                        I.st[('f', sh, 'width')], I.st[('f', sh, 'height')] = mul(num(2), a), mul(num(2), b)
                        I.st[('f', sh, 'vertices')] = V(V(a, a, neg(a), neg(a)), V(b, neg(b), neg(b), b))
                        I.st[('f', sh, 'n_vert')] = num(4)
                    I.st[('f', o, 'shape')] = sh
                    I.st[('f', o, 'n_dim')] = num(2)
                    p = [add(S('gx'), add(div(neg(W), num(2)), mul(num(cx), CW))), add(S('gy'), add(div(neg(mul(num(m), ch)), num(2)), mul(num(cy), ch)))]
                    I.st[('f', o, 'signals')] = I.new_dict([(tstr('position'), V(V(S('oldx'), p[0]), V(S('oldy'), p[1])))])
                    sim = []
                    if kind in ('moving', 'still'):
                        v = [num(3) if kind == 'moving' else ZERO, ZERO]
                        rows = I.new_list([I.new_list([ZERO, ZERO]), I.new_list(v)])
                        sim = [(tstr('trajectories'), I.new_dict([(tstr('velocity'), I.new_dict([(tstr('time'), I.new_list([ZERO, ONE])), (tstr('values'), rows)]))]))]
                    I.st[('f', o, 'simulation')] = I.new_dict(sim)
                    env = T('sym', 'env', 'notnone', 'object')
                    I.types[env] = ctx.prog.cls('Environment')
                    I.st[('f', env, 'obstacles')] = I.new_list([o])
                    return [env]
                a = run_method(ctx, 'Grid', 'get_occupied_cells', args, policy=inline, setup=setup)
                tried[0] += 1
                got = points_(a.ret)
                ox, oy = off, 2 * off
                want = set((num(i), num(j)) for i in range(n) for j in range(m)
                           if x0 - ox < i + 1 and x1 + ox > i and y0 - oy < j + 1 and y1 + oy > j and kind != 'moving')
                if got is None:
                    unknown.append(((x0, x1), (y0, y1)))
                elif set(got) != want:
                    bad.append(((x0, x1), (y0, y1), set(got), want))
            key = 'occupied.' + kind.replace(' ', '_')
            if bad:
                x, y, g, w = bad[0]
                show = lambda s: sorted((int(numval(p)), int(numval(q))) for p, q in s)
                ctx.bad(key, 'an obstacle over %s x %s cells occupies %s, not %s (%d of %d positions)' % (
                    '[%s, %s]' % x, '[%s, %s]' % y, show(g), show(w), len(bad), tried[0]), where, kind)
            elif unknown:
                ctx.unknown(key, 'occupied cells not resolved for %d of %d positions' % (len(unknown), tried[0]), where)
            else:
                ctx.ok(key, '%d positions of the obstacle' % tried[0], where)
        ctx.guard('occupied.' + kind, go)


def planner(ctx):
    where = ctx.loc('AStarPlanner', '__init__')
    for name, (w, h, n) in {'grid': (P('W'), P('H'), (7, 5)), 'square': (P('W'), P('W'), (4, 4)), 'square room': (P('W'), P('W'), (4, 6))}.items():
        for size in ('none', 'one', 'two', 'listed'):
            key = 'planner.%s.%s' % (name.replace(' ', '_'), size)

            def go():
                asked = []

                def setup(I, s):
                    install(I)
                    I.ret_models['get_occupied_cells'] = lambda I, t, b: I.new_list([I.new_list([ONE, num(2)]), I.new_list([num(3), num(3)])])
                    I.ret_models['move_to_gridpoint'] = lambda I, t, b: asked.append((b.get('point', NONE), I.freeze(I.st.get(('f', t.args[0], 'occupied'), NONE)) if t.args else NONE)) or T('call', mkstr('snapped'), I.freeze(b.get('point', NONE)))

                def args(I):
                    env, sh = T('sym', 'env', 'notnone', 'object'), T('sym', 'room', 'notnone', 'object')
                    I.types[env], I.types[sh] = ctx.prog.cls('Environment'), ctx.prog.cls('Rectangle')
                    I.st[('f', sh, 'width')], I.st[('f', sh, 'height')] = w, h
                    I.st[('f', env, 'room')] = I.new_list([I.new_dict([(tstr('shape'), sh), (tstr('position'), I.new_list([S('gx'), S('gy')]))])])
                    o = {'none': [], 'one': [(tstr('veh_size'), P('v'))], 'two': [(tstr('veh_size'), I.new_list([P('v'), P('u')]))],
                         'listed': [(tstr('veh_size'), I.new_list([P('v')]))]}[size]
                    return [env, I.new_list([num(n[0]), num(n[1])]), I.new_list([S('a'), S('b')]), I.new_list([S('c'), S('d')]), I.new_dict(o)]
                a = run_method(ctx, 'AStarPlanner', '__init__', args, setup=setup,
                               policy=lambda q: 'event' if q.split('.')[-1] in ('get_occupied_cells', 'move_to_gridpoint') else 'inline')
                g = a.I.st.get(('f', ME, 'grid'))
                if g is None:
                    return ctx.unknown(key, 'grid not resolved', where)
                off = {'none': L(ZERO, ZERO), 'one': L(P('v'), P('v')), 'two': L(P('v'), P('u')), 'listed': L(P('v'), P('v'))}[size]
                for f, want in (('width', w), ('height', h), ('n_cells', L(num(n[0]), num(n[1]))), ('position', L(S('gx'), S('gy'))), ('offset', off),
                                ('cell_width', div(w, num(n[0]))), ('cell_height', div(h, num(n[1])))):
                    ctx.equal('%s.%s' % (key, f), plain(a.field(g, f)), plain(want), '%s of the grid of the planner' % f, where)
                occ = points_(a.field(g, 'occupied'))
                if occ is None:
                    ctx.unknown(key + '.occupied', 'occupied cells not resolved', where)
                else:
                    same_cells(ctx, key + '.occupied', occ, [(ONE, num(2)), (num(3), num(3))], 'cells of obstacles are blocked', where)
                for f, p in (('start', ('a', 'b')), ('goal', ('c', 'd'))):
                    ctx.equal('%s.%s' % (key, f), a.field(ME, f), T('call', mkstr('snapped'), L(S(p[0]), S(p[1]))), '%s moved to the grid' % f, where)
                ctx.equal(key + '.diagonal', a.field(ME, 'diag_cost'), spec(ctx, 'diagonal', div(w, num(n[0])), div(h, num(n[1]))), 'cost of a diagonal move', where)
            ctx.guard(key, go)


# mazes: rows from top to bottom, # occupied, S start, G goal
MAZES = {
    'free': ['....G', '.....', 'S....'],
    'wall': ['..#..', 'S.#.G', '.....'],
    'corner': ['S#.', '.#.', '..G'],
    'diagonal': ['S..', '.#.', '..G'],
    'detour': ['......', '.####.', '.S..#G', '.####.', '......'],
    'pocket': ['.....', '..##.', 'S..#G', '..##.', '.....'],
    'blocked': ['S.#..', '..#.G', '..#..'],
    'squeeze': ['S#.', '#..', '..G'],
    'cut corner': ['S.#', '.#.', '#.G'],
    'nothing to do': ['...', '.S.', '...'],
    'closed goal': ['S....', '...#.', '..#G#', '...#.'],
    'turns': ['.......', '.####..', '.#...#.', '.#S#.#G', '.###.#.', '......#'],
    'rooms': ['...#....', '.S.#..#.', '.......G', '...#..#.'],
    'shortcut': ['.....S', '.G#...', '....##', '#.....'],
    'shortcut 2': ['G#...', '....S', '....#', '.....', '.####'],
    'line': ['S......G'],
    'column': ['S', '.', '.', 'G'],
}


def maze(rows):
    m = len(rows)
    cells = {}
    start = goal = None
    occ = []
    for r, row in enumerate(rows):
        for i, ch in enumerate(row):
            c = (i, m - 1 - r)
            cells[c] = ch
            if ch == 'S':
                start = c
            if ch == 'G':
                goal = c
            if ch == '#':
                occ.append(c)
    return len(rows[0]), m, occ, start, goal or start


def moves(n, m, occ, c):
    free = lambda p: 0 <= p[0] < n and 0 <= p[1] < m and p not in occ
    out = []
    for d in STEPS:
        p = (c[0] + d[0], c[1] + d[1])
        if free(p) and (0 in d or free((c[0] + d[0], c[1])) and free((c[0], c[1] + d[1]))):
            out.append(p)
    return out


def reachable(n, m, occ, a):
    seen, todo = set([a]), [a]
    while todo:
        for p in moves(n, m, occ, todo.pop()):
            if p not in seen:
                seen.add(p)
                todo.append(p)
    return seen


def search(ctx):
    where = ctx.loc('AStarPlanner', 'get_path')
    for mname, rows in sorted(MAZES.items()):
        n, m, occ, start, goal = maze(rows)
        for shape, (rx, ry) in (('square', (1, 1)), ('wide', (3, 1)), ('high', (1, 2))):
            key = 'search.%s.%s' % (mname.replace(' ', '_'), shape)

            def go():
                cw, ch = mul(num(rx), CW), mul(num(ry), CW)
                W, H = mul(num(n), cw), mul(num(m), ch)
                diag = mul(tm.sqrt_(num(rx * rx + ry * ry)), CW)
                I0 = []

                def setup(I, s):
                    on_planner(I, ctx, s, [n, m], W, H, occ, start, goal, diag)
                    I0.append(I)
                a = run_method(ctx, 'AStarPlanner', 'get_path', [], policy=inline, setup=setup)
                way = points_(a.ret)
                ok = goal in reachable(n, m, occ, start)
                if way is None:
                    if raises(a):
                        if ok:
                            ctx.bad(key, 'no path is found although there is one: %s' % ' / '.join(rows), where, 'none')
                        else:
                            ctx.ok(key, 'no path is reported', where)
                    else:
                        ctx.unknown(key, 'path not resolved', where)
                    return
                # back to cells
                cells_ = []
                for x, y in way:
                    i = div(sub(sub(x, S('gx')), sub(div(cw, num(2)), div(W, num(2)))), cw)
                    j = div(sub(sub(y, S('gy')), sub(div(ch, num(2)), div(H, num(2)))), ch)
                    if numval(i) is None or numval(j) is None:
                        return ctx.unknown(key, 'path not resolved', where)
                    cells_.append((numval(i), numval(j)))
                err = None
                if not ok:
                    err = 'a path although the goal cannot be reached'
                elif cells_[0] != start:
                    err = 'path starts in %s, not in %s' % (fmt(cells_[0]), start)
                elif cells_[-1] != goal:
                    err = 'path ends in %s, not in %s' % (fmt(cells_[-1]), goal)
                else:
                    for c, d in zip(cells_, cells_[1:]):
                        if d not in moves(n, m, occ, c):
                            err = 'move from %s to %s is not possible' % (fmt(c), fmt(d))
                            break
                if err:
                    return ctx.bad(key, '%s: %s' % (err, ' / '.join(rows)), where, err)
                ctx.ok(key, 'possible moves from start to goal', where)
                relaxed(ctx, key, a, n, m, occ, start, cells_, rx, ry, where, rows)
            ctx.guard(key, go)


def fmt(c):
    return '(%s, %s)' % c


def raises(a):
    return a.ret.op == 'raises'


def relaxed(ctx, key, a, n, m, occ, start, way, rx, ry, where, rows):
    """every cell was reached from the cheapest of the cells handled before it"""
    closed = a.I.st.get(('f', ME, 'closed_list'))
    its = a.I.concrete_items(closed) if closed is not None else None
    if its is None:
        return
    pos, cost = [], {}
    for o in its:
        p = points_(L(a.I.freeze(a.I.st.get(('f', o, 'pos'), NONE))))
        if p is None or any(numval(x) is None for x in p[0]):
            return
        pos.append(tuple(int(numval(x)) for x in p[0]))
    # the cost kept for a cell is that of its way
    for o, p in zip(its[1:], pos[1:]):
        par = a.I.st.get(('f', o, 'parent'))
        g, g0 = (a.I.st.get(('f', x, 'g_cost')) for x in (o, par))
        if par not in its or g is None or g0 is None:
            continue
        q = pos[its.index(par)]
        d = (p[0] - q[0], p[1] - q[1])
        step = mul(tm.sqrt_(num((d[0] * rx) ** 2 + (d[1] * ry) ** 2)), CW)
        if not same(sub(a.I.freeze(g), a.I.freeze(g0)), step):
            ctx.equal(key + '.kept', sub(a.I.freeze(g), a.I.freeze(g0)), step, 'cost of the way to a cell, from its predecessor on', where)
            break
    dist = lambda p, q: (((p[0] - q[0]) * rx) ** 2 + ((p[1] - q[1]) * ry) ** 2) ** .5
    best = {start: 0.}
    h = lambda p: abs(p[0] - way[-1][0]) * rx + abs(p[1] - way[-1][1]) * ry
    if len(set(pos)) != len(pos):
        return
    for k, p in enumerate(pos[1:], 1):
        froms = [q for q in pos[:k] if p in moves(n, m, occ, q)]
        if not froms:
            return
        best[p] = min(best[q] + dist(p, q) for q in froms)
    got = 0.
    for p, q in zip(way, way[1:]):
        got += dist(p, q)
    goal = way[-1]
    if goal in best:
        if got > float(best[goal]) + 1e-9:
            ctx.bad(key + '.cheapest', 'the path costs %.4g although the cells already handled give one of %.4g: %s' % (got, best[goal], ' / '.join(rows)), where, 'longer')
        else:
            ctx.ok(key + '.cheapest', 'cells are reached from their cheapest predecessor', where)
