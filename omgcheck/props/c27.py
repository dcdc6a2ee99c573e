"""C27: shapes are where and as large as they were declared, and the geometric tests tell the truth."""
from ..behave import *
from ..terms import *
from .. import matrices, witness
from .c04 import S, O

SHAPE = 'omgtools.basics.shape'
GEO = 'omgtools.basics.geometry'
ME = T('sym', 'self', 'notnone')


def P(n):
    return T('pos', n)


def V(*xs):
    return T('vec', *xs)


def L(*xs):
    return T('list', *xs)


def inline(q):
    return 'inline'


TH = P('theta')
RPY = [S('roll'), S('pitch'), S('yaw')]
PT = [S('px'), S('py')]
POS = [S('qx'), S('qy')]


def build(ctx, cls, args, name='self'):
    """interpreter in which an object of the class has been constructed"""
    I = ctx.interp(policy=inline)
    matrices.install(I)
    c = ctx.prog.cls(cls)
    s = T('sym', name, 'notnone')
    I.types[s] = c
    try:
        I.call_method(c, '__init__', args(I) if callable(args) else args, self_term=s)
    except AlwaysRaises:
        return None, s
    return I, s


def invoke(ctx, I, s, method, args=(), kw=None):
    c = I.types[s]
    try:
        r = I.freeze(I.call_method(c, method, list(args), kw or {}, self_term=s))
    except AlwaysRaises:
        r = T('raises')
    ctx.functions |= set(q for q in I.visited if not q.startswith('spec.'))
    return r


def spec(ctx, f, *args):
    return run_spec(ctx, 'geometry.' + f, None, list(args), policy=inline, setup=lambda I, s: matrices.install(I)).ret


def points(t):
    """columns of a matrix of vertices / rows of a list of points"""
    if t.op not in ('vec', 'list', 'tuple'):
        return None
    rs = [list(r.args) for r in t.args if r.op in ('vec', 'list', 'tuple')]
    return rs if len(rs) == len(t.args) and len(set(map(len, rs))) <= 1 else None


def columns(t):
    r = points(t)
    return None if r is None else [list(c) for c in zip(*r)]


def same_points(ctx, key, got, want, what, where):
    """two sets of tuples of values"""
    if got is None:
        return ctx.unknown(key, what + ': not resolved', where)
    left = list(want)
    extra = []
    for g in got:
        for w in left:
            if len(g) == len(w) and all(same(x, y) for x, y in zip(g, w)):
                left.remove(w)
                break
        else:
            extra.append(g)
    if not left and not extra:
        return ctx.ok(key, what, where)
    if len(left) == len(extra):
        # one to one: a point that only is written differently is not an error
        for g in list(extra):
            for w in list(left):
                if witness.compare(T('vec', *g), T('vec', *w)) == 'agree':
                    extra.remove(g)
                    left.remove(w)
                    break
        if not left:
            return ctx.unknown(key, what + ': written differently', where)
    und = set(sum((decided(x, y) for g, y in zip(got, [sum(want, [])]*len(got)) for x in g), []))
    if und:
        return ctx.unknown(key, '%s: not resolved (%s)' % (what, ', '.join(sorted(und))), where)
    ctx.bad(key, '%s: `%s`, specified `%s`' % (what, '; '.join(short(T('tuple', *g), 120) for g in extra[:2]) or 'missing',
                                            '; '.join(short(T('tuple', *w), 120) for w in left[:2]) or 'no further ones'), where,
            ''.join(x.dig for g in extra for x in g))


def run(ctx):
    ctx.rules.append('C27: vertices, checkpoints, radii, half planes and limits of every shape, and every geometric test, equal the ones '
                     'derived from the declared dimensions, orientation and position, for all of them.')
    rotations(ctx)
    flat_shapes(ctx)
    solid_shapes(ctx)
    half_planes(ctx)
    tests(ctx)
    return 40


def rotations(ctx):
    p2, p3 = [S('ax'), S('ay')], [S('ax'), S('ay'), S('az')]
    for cls in ('Circle', 'Rectangle', 'Beam'):
        where = ctx.loc(cls, 'rotate')

        def go():
            for form, o in (('number', TH), ('array', V(TH))):
                a = run_method(ctx, cls, 'rotate', [o, V(*p2)], policy=inline, setup=lambda I, s: matrices.install(I)).ret
                ctx.equal('%s.rotate.%s' % (cls, form), a, V(*spec(ctx, 'turn', TH, L(*p2)).args), 'rotated point', where)
        ctx.guard('%s.rotate' % cls, go)
    for cls in ('Sphere', 'Cuboid', 'Plate'):
        where = ctx.loc(cls, 'rotate')

        def go():
            a = run_method(ctx, cls, 'rotate', [L(*RPY), V(*p3)], policy=inline, setup=lambda I, s: matrices.install(I)).ret
            ctx.equal('%s.rotate' % cls, a, V(*spec(ctx, 'roll_pitch_yaw', L(*RPY), L(*p3)).args), 'rotated point', where)
        ctx.guard('%s.rotate' % cls, go)


def radii(ctx, key, ret, n, r, what, where):
    if ret.op not in ('list', 'tuple', 'vec'):
        return ctx.unknown(key, 'radii not resolved', where)
    ctx.equal(key, T('list', *ret.args), T('list', *[r]*n), what, where)


def vertices_and_checkpoints(ctx, key, cls, args, want, radius):
    where = ctx.loc(cls, '__init__')
    I, s = build(ctx, cls, args)
    if I is None:
        return ctx.bad(key, 'a %s cannot be made' % cls, where, 'raises')
    pts = [list(p.args) for p in want.args]
    v = I.st.get(('f', s, 'vertices'))
    same_points(ctx, key + '.vertices', columns(I.freeze(v)) if v is not None else None, pts, 'vertices', where)
    where = ctx.loc(cls, 'get_checkpoints')
    r = invoke(ctx, I, s, 'get_checkpoints')
    if r.op not in ('tuple', 'list') or len(r.args) != 2:
        return ctx.unknown(key + '.checkpoints', 'checkpoints not resolved', where)
    same_points(ctx, key + '.checkpoints', points(r.args[0]), pts, 'checkpoints', where)
    radii(ctx, key + '.radii', r.args[1], len(pts), radius, 'radius around every checkpoint', where)
    n = I.st.get(('f', s, 'n_vert'))
    ctx.equal(key + '.n_vert', n if n is not None else NONE, num(len(pts)), 'number of vertices', where)
    limits(ctx, key, cls, I, s, pts)


def limits(ctx, key, cls, I, s, pts):
    where = ctx.loc(cls, 'get_canvas_limits')
    r = invoke(ctx, I, s, 'get_canvas_limits')
    got = points(r)
    if got is None or len(got) != len(pts[0]) or any(len(g) != 2 for g in got):
        return ctx.unknown(key + '.limits', 'limits not resolved', where)
    for k, (lo, hi) in enumerate(got):
        xs = [p[k] for p in pts]
        ctx.equal('%s.limits.%s' % (key, 'xyz'[k]), T('tuple', lo, hi), T('tuple', matrices.pick(I, False, xs), matrices.pick(I, True, xs)),
                  'smallest and largest coordinate', where)


SMALL = num('1/1000')


def flat_shapes(ctx):
    w, h, r = P('w'), P('h'), P('r')
    Z = ZERO

    def go(key, cls, args, want, radius):
        ctx.guard(key, lambda: vertices_and_checkpoints(ctx, key, cls, args, want, radius))
    for lab, th, a in (('turned', TH, [TH]), ('straight', Z, [])):
        go('Rectangle.' + lab, 'Rectangle', [w, h] + a, spec(ctx, 'rectangle', w, h, th), SMALL)
        go('Square.' + lab, 'Square', [w] + a, spec(ctx, 'rectangle', w, w, th), SMALL)
        go('UFO.' + lab, 'UFO', [w, h] + a, spec(ctx, 'rectangle', w, h, th), SMALL)
        go('Beam.' + lab, 'Beam', [w, h] + a, spec(ctx, 'beam', w, h, th), div(h, num(2)))
    for n in (3, 4, 6):
        go('RegularPolyhedron.%d' % n, 'RegularPolyhedron', [r, num(n)], spec(ctx, 'regular', num(n), r, Z), SMALL)
    go('RegularPolyhedron.4turned', 'RegularPolyhedron', [r, num(4), TH], spec(ctx, 'regular', num(4), r, TH), SMALL)
    corners = [[S('a0'), S('b0')], [S('a1'), S('b1')], [S('a2'), S('b2')]]
    want = T('list', *[spec(ctx, 'turn', TH, L(*c)) for c in corners])
    go('Polyhedron', 'Polyhedron', [V(V(*[c[0] for c in corners]), V(*[c[1] for c in corners])), TH, P('rad')], want, P('rad'))
    for cls, dim in (('Circle', 2), ('Cylinder', 2), ('Sphere', 3)):
        def round_(cls=cls, dim=dim):
            where = ctx.loc(cls, 'get_checkpoints')
            I, s = build(ctx, cls, [r])
            if I is None:
                return ctx.bad(cls, 'a %s cannot be made' % cls, where, 'raises')
            c = invoke(ctx, I, s, 'get_checkpoints')
            if c.op not in ('tuple', 'list') or len(c.args) != 2:
                return ctx.unknown(cls + '.checkpoints', 'checkpoints not resolved', where)
            same_points(ctx, cls + '.checkpoints', points(c.args[0]), [[ZERO]*dim], 'checkpoint in the centre', where)
            radii(ctx, cls + '.radii', c.args[1], 1, r, 'radius of the checkpoint', where)
            lim = points(invoke(ctx, I, s, 'get_canvas_limits'))
            ctx.equal(cls + '.limits', T('list', *[T('list', *x) for x in lim or []]), T('list', *[T('list', neg(r), r)]*dim), 'limits',
                      ctx.loc(cls, 'get_canvas_limits'))
            ctx.equal(cls + '.n_chck', I.st.get(('f', s, 'n_chck'), NONE), ONE, 'number of checkpoints', where)
        ctx.guard(cls, round_)


def solid_shapes(ctx):
    w, d, h, r = P('w'), P('d'), P('h'), P('r')
    O3 = L(*RPY)
    O0 = L(ZERO, ZERO, ZERO)

    def go(key, cls, args, want, radius):
        ctx.guard(key, lambda: vertices_and_checkpoints(ctx, key, cls, args, want, radius))
    go('Cuboid', 'Cuboid', [w, d, h], spec(ctx, 'cuboid', w, d, h, O0), SMALL)
    go('Cuboid.turned', 'Cuboid', [w, d, h, O3], spec(ctx, 'cuboid', w, d, h, O3), SMALL)
    go('Cube', 'Cube', [w], spec(ctx, 'cuboid', w, w, w, O0), SMALL)
    go('Cube.turned', 'Cube', [w, O3], spec(ctx, 'cuboid', w, w, w, O3), SMALL)
    for n in (3, 4):
        go('RegularPrisma.%d' % n, 'RegularPrisma', [r, h, num(n)], spec(ctx, 'prisma', num(n), r, h, O0), SMALL)
    go('RegularPrisma.4turned', 'RegularPrisma', [r, h, num(4), O3], spec(ctx, 'prisma', num(4), r, h, O3), SMALL)
    for lab, o, a in (('', O0, []), ('.turned', O3, [O3])):
        def args(I, a=a):
            flat = T('sym', 'flat', 'notnone')
            I.types[flat] = ctx.prog.cls('Rectangle')
            I.call_method(ctx.prog.cls('Rectangle'), '__init__', [w, d], self_term=flat)
            return [flat, h] + a
        go('Plate' + lab, 'Plate', args, spec(ctx, 'plate', w, d, o), div(h, num(2)))


def entries(t):
    """rows [a0, a1, b] of a dictionary of half planes"""
    if t.op != 'dict' or any(x.op != 'kv' for x in t.args[1:]):
        return None
    out = []
    for kv in t.args[1:]:
        d = kv.args[1]
        if d.op != 'dict':
            return None
        e = {x.args[0]: x.args[1] for x in d.args[1:] if x.op == 'kv'}
        a, b = e.get(tstr('a')), e.get(tstr('b'))
        if a is None or b is None or a.op not in ('vec', 'list', 'tuple') or len(a.args) != 2:
            return None
        out.append(list(a.args) + [b])
    return out


def triangle(I, name='tri'):
    """a polygon with given (already turned) vertices, clockwise"""
    t = T('sym', name, 'notnone')
    I.types[t] = I.prog.cls('Polyhedron')
    I.st[('f', t, 'vertices')] = V(V(*[S('a%d' % k) for k in range(3)]), V(*[S('b%d' % k) for k in range(3)]))
    I.st[('f', t, 'n_vert')] = num(3)
    I.st[('f', t, 'orientation')] = ZERO
    return t


TRI = L(*[L(S('a%d' % k), S('b%d' % k)) for k in range(3)])


def rectangle(ctx, I, name, w, h, a=()):
    t = T('sym', name, 'notnone')
    I.types[t] = ctx.prog.cls('Rectangle')
    I.call_method(ctx.prog.cls('Rectangle'), '__init__', [w, h] + list(a), self_term=t)
    return t


def half_planes(ctx):
    w, h = P('w'), P('h')
    where = ctx.loc('Rectangle', 'get_hyperplanes')
    for lab, a, th in (('straight', [], ZERO), ('turned', [TH], TH)):
        def go():
            I, s = build(ctx, 'Rectangle', [w, h] + a)
            for pl, kw, pos in (('origin', {}, L(ZERO, ZERO)), ('moved', {'position': L(*POS)}, L(*POS))):
                r = invoke(ctx, I, s, 'get_hyperplanes', (), kw)
                want = spec(ctx, 'rectangle_sides', w, h, th, pos)
                same_points(ctx, 'half_planes.%s.%s' % (lab, pl), entries(r), [list(x.args) for x in want.args], 'half planes of the sides', where)
        ctx.guard('half_planes.' + lab, go)

    def poly():
        I = ctx.interp(policy=inline)
        matrices.install(I)
        s = triangle(I)
        r = invoke(ctx, I, s, 'get_hyperplanes', (), {'position': L(*POS)})
        want = spec(ctx, 'sides', TRI, L(*POS))
        same_points(ctx, 'half_planes.polygon', entries(r), [list(x.args) for x in want.args], 'half planes of the sides', where)
    ctx.guard('half_planes.polygon', poly)

    for lab, a, th in (('straight', [], ZERO), ('turned', [TH], TH)):
        def inside():
            def args(I):
                return [L(*PT), rectangle(ctx, I, 'rect', w, h, a), L(*POS)]
            compare(ctx, 'inside.' + lab, 'point_in_polyhedron', args, 'inside_rectangle', [L(*PT), w, h, th, L(*POS), ZERO])
            compare(ctx, 'inside.margin.' + lab, 'point_in_polyhedron', lambda I: args(I) + [S('margin')], 'inside_rectangle',
                    [L(*PT), w, h, th, L(*POS), S('margin')])
        ctx.guard('inside.' + lab, inside)
    ctx.guard('inside.polygon', lambda: compare(ctx, 'inside.polygon', 'point_in_polyhedron', lambda I: [L(*PT), triangle(I), L(*POS)],
                                                'inside_polygon', [L(*PT), TRI, L(*POS), ZERO]))


def compare(ctx, key, fn, args, sp, sargs, kw=None, result=None):
    m, node = ctx.prog.func(GEO, fn)
    where = '%s:%d %s' % (os.path.relpath(m.path, REPO), node.lineno, fn)

    def go():
        a = run_func(ctx, GEO, fn, args, kw, policy=inline, setup=lambda I, s: matrices.install(I))
        r = a.ret if result is None else result(a)
        ctx.equal(key, plain(r), plain(spec(ctx, sp, *sargs)), fn, where)
        unchanged(ctx, key, a, where)
    ctx.guard(key, go)


def plain(t):
    return lift(lambda x: T('list', *[plain(y) for y in x.args]) if x.op in ('vec', 'tuple', 'list') else x, t)


def unchanged(ctx, key, a, where):
    """a test does not move what it looks at"""
    for name in ('tri', 'rect', 'one', 'two'):
        s = T('sym', name, 'notnone')
        if s not in a.I.types:
            continue
        v = a.I.st.get(('f', s, 'vertices'))
        was = getattr(a.I, 'vertices_before', {}).get(name)
        if was is not None and v is not None:
            ctx.equal(key + '.unchanged', a.I.freeze(v), was, 'vertices of the shape after the test', where)


def tests(ctx):
    w, h = P('w'), P('h')
    lim = [S('x0'), S('y0'), S('x1'), S('y1')]
    abcd = [L(S(c + 'x'), S(c + 'y')) for c in 'abcd']
    D = S('dist')
    for n in (2, 3):
        p, q = L(*[S('p%d' % k) for k in range(n)]), L(*[S('q%d' % k) for k in range(n)])
        compare(ctx, 'distance.%dD' % n, 'distance_between_points', [p, q], 'point_distance', [p, q])
    compare(ctx, 'limits', 'point_in_rectangle', [L(*PT), L(*lim)], 'point_in_limits', [L(*PT), L(*lim), ZERO])
    compare(ctx, 'limits.distance', 'point_in_rectangle', [L(*PT), L(*lim)], 'point_in_limits', [L(*PT), L(*lim), D], {'distance': D})
    compare(ctx, 'limits.xy', 'point_in_rectangle', [L(*PT), L(*lim)], 'point_in_limits_xy', [L(*PT), L(*lim), D], {'distance': D, 'xy_check': TRUE})
    vel = L(S('vx'), S('vy'))
    for T_ in (ONE, num(2)):
        compare(ctx, 'limits.moving.%s' % T_, 'point_in_rectangle', [L(*PT), L(*lim)], 'moving_point_in_limits', [L(*PT), vel, L(*lim), T_],
                {'horizon_time': T_, 'velocity': vel})
    compare(ctx, 'segments', 'intersect_line_segments', [L(abcd[0], abcd[1]), L(abcd[2], abcd[3])], 'segments_cross', abcd)
    compare(ctx, 'lines', 'intersect_lines', [L(abcd[0], abcd[1]), L(abcd[2], abcd[3])], 'lines_cross', abcd)
    compare(ctx, 'line_distance', 'distance_to_line', [L(*PT), L(abcd[0], abcd[1])], 'line_distance', [L(*PT)] + abcd[:2])

    def at(I, s, x, y):
        I.st[('f', s, 'signals')] = I.new_dict([(tstr('position'), V(V(S('old'), x), V(S('old2'), y)))])

    def keep(I, name):
        s = T('sym', name, 'notnone')
        if not hasattr(I, 'vertices_before'):
            I.vertices_before = {}
        I.vertices_before[name] = I.freeze(I.st[('f', s, 'vertices')])
        return s

    def rect_args(I):
        rectangle(ctx, I, 'rect', w, h)
        s = keep(I, 'rect')
        at(I, s, *POS)
        return [L(*PT), s]
    compare(ctx, 'rectangle_distance', 'distance_to_rectangle', rect_args, 'rectangle_distance', [L(*PT), w, h, L(*POS)])

    w1, h1, w2, h2 = P('w1'), P('h1'), P('w2'), P('h2')
    p1, p2 = L(S('p1x'), S('p1y')), L(S('p2x'), S('p2y'))

    def two(I):
        rectangle(ctx, I, 'one', w1, h1)
        rectangle(ctx, I, 'two', w2, h2)
        return [keep(I, 'one'), p1, keep(I, 'two'), p2]
    compare(ctx, 'overlap', 'rectangles_overlap', two, 'overlap', [w1, h1, p1, w2, h2, p2])
    compare(ctx, 'overlap_center', 'compute_rectangle_overlap_center', two, 'overlap_center', [w1, h1, p1, w2, h2, p2])

    # a triangle with sides in all directions, anywhere
    corners = [(0, 0), (2, 3), (4, -1)]

    def circle_args(I):
        c = T('sym', 'obst', 'notnone')
        cs = T('sym', 'circ', 'notnone')
        I.types[cs] = I.prog.cls('Circle')
        I.st[('f', cs, 'radius')] = P('r')
        I.st[('f', c, 'shape')] = cs
        at(I, c, *PT)
        s = triangle(I)
        I.st[('f', s, 'vertices')] = V(*[V(*[num(x[k]) for x in corners]) for k in (0, 1)])
        return [c, keep(I, 'tri'), L(*POS)]
    compare(ctx, 'touches', 'circle_polyhedron_intersection', circle_args, 'touches',
            [L(*PT), P('r'), L(*[L(num(x), num(y)) for x, y in corners]), L(*POS)])
