"""C14: simulated obstacles move as their simulation model says, and bounce only when they hit something."""
from ..behave import *
from ..terms import *
from .. import matrices
from .c04 import S, O
from .c27 import P, V, L, spec as spec27, rectangle, same_points, plain

OB = T('sym', 'self', 'notnone')


def inline(q):
    return 'inline'


def install(I, s=None):
    matrices.install(I)


def spec(ctx, f, cls, args, setup=None):
    def st(I, s):
        install(I)
        if setup:
            setup(I, s)
    return run_spec(ctx, 'moving.' + f, cls, args, policy=inline, setup=st)


def run(ctx):
    ctx.rules.append('C14: for all states, models, trajectories and sample times an obstacle gets exactly the samples of its own motion; it only '
                     'changes direction, by reflection, when it overlaps another obstacle or leaves the room.')
    motion(ctx)
    model(ctx)
    rotation(ctx)
    states(ctx)
    overlaps(ctx)
    bounces(ctx)
    return 25


def signals(I, s, n=2, time0=None, extra=()):
    rows = lambda a: V(*[V(S('%s%d_old' % (a, k)), S('%s%d' % (a, k))) for k in range(n)])
    kv = [(tstr('time'), V(ZERO, time0) if time0 is not None else V(ZERO))]
    for key, a in (('position', 'x'), ('velocity', 'v'), ('acceleration', 'a')):
        kv.append((tstr(key), rows(a)))
    kv += list(extra)
    d = I.new_dict(kv)
    I.st[('f', s, 'signals')] = d
    return d


def interpolators(I, s):
    """values of the jump and input trajectories at any time"""
    def vals(name, n):
        def f(I, a, kw):
            def one(t):
                return V(*[T('getitem', T('call', mkstr(name), t), num(k)) for k in range(n)])
            t = I.arr(a[0])
            if t.op == 'vec':
                cols = [one(x) for x in t.args]
                return V(*[V(*[c.args[k] for c in cols]) for k in range(n)])
            return one(t)
        return f
    I.extra['jump_interp'] = vals('jump', 6)
    I.extra['input_interp'] = vals('input', 1)
    I.st[('f', s, 'state_incr_interp')] = T('ext', 'jump_interp')
    I.st[('f', s, 'input_interp')] = T('ext', 'input_interp')


def motion(ctx):
    where = ctx.loc('ObstaclexD', 'simulate')
    for n_samp, dt in ((5, num('1/10')), (1, num('1/2')), (3, num('1/100'))):
        for begin in ('first', 'later'):
            key = 'simulate.%s.%d' % (begin, n_samp)

            def go():
                t0 = None if begin == 'first' else P('t0')
                seen = {}

                def odeint(I, a, kw):
                    axis = I.arr(a[2]) if len(a) > 2 else NONE
                    y0 = I.arr(a[1])
                    if axis.op != 'vec' or y0.op != 'vec':
                        return None
                    seen['f'], seen['y0'], seen['axis'] = a[0], y0, axis
                    return V(*[y0 if k == 0 else V(*[T('getitem', T('call', mkstr('solution'), y0, t), num(i)) for i in range(len(y0.args))])
                               for k, t in enumerate(axis.args)])

                def setup(I, s):
                    install(I)
                    I.extra['odeint'] = odeint
                    interpolators(I, s)
                    I.st[('f', s, 'n_dim')] = num(2)
                    signals(I, s, 2, t0)
                a = run_method(ctx, 'ObstaclexD', 'simulate', [mul(num(n_samp), dt), dt], policy=lambda q: 'event' if q.endswith('ode') else 'inline', setup=setup)
                if 'axis' not in seen:
                    return ctx.unknown(key, 'integration not resolved', where)
                base = t0 if t0 is not None else ZERO
                want = V(*[add(base, mul(num(k), dt)) for k in range(n_samp + 1)])
                ctx.equal(key + '.times', seen['axis'], want, 'times at which the motion is evaluated', where)
                y0 = spec(ctx, 'start', 'ObstaclexD', [base], setup).ret
                ctx.equal(key + '.start', seen['y0'], y0, 'state the integration starts from', where)
                f = seen['f']
                ok = f.op == 'bound' and f.args[0] is OB or f.op == 'func'
                if ok:
                    I = a.I
                    I.policy = inline
                    model_(I, OB)
                    x = V(*[S('s%d' % k) for k in range(6)])
                    r = I.freeze(I.apply(f, [x, S('now')], {}))
                    w = spec(ctx, 'rate', 'ObstaclexD', [x, S('now')], lambda I, s: (setup(I, s), model_(I, s)))
                    ctx.equal(key + '.rate', r, w.ret, 'rate of change of the integrated state', where)
                else:
                    ctx.unknown(key + '.rate', 'integrated function not resolved', where)
                sig = a.I.st.get(('f', OB, 'signals'))
                d = a.I.freeze(sig)
                got = {kv.args[0]: kv.args[1] for kv in d.args[1:] if kv.op == 'kv'} if d.op == 'dict' else {}
                sol = [seen['y0']] + [V(*[T('getitem', T('call', mkstr('solution'), seen['y0'], t), num(i)) for i in range(6)]) for t in seen['axis'].args[1:]]
                jump = lambda t, i: T('getitem', T('call', mkstr('jump'), t), num(i))
                for l, (sname, letter) in enumerate((('position', 'x'), ('velocity', 'v'), ('acceleration', 'a'))):
                    w = V(*[V(S('%s%d_old' % (letter, k)), S('%s%d' % (letter, k)),
                              *[add(sol[j].args[2*l + k], jump(seen['axis'].args[j], 2*l + k)) for j in range(1, n_samp + 1)]) for k in range(2)])
                    ctx.equal('%s.%s' % (key, sname), got.get(tstr(sname), NONE), w, 'samples appended to %s' % sname, where)
                old = [ZERO] if t0 is None else [ZERO, t0]
                ctx.equal(key + '.time', got.get(tstr('time'), NONE), V(*(old + list(want.args[1:]))), 'sample times appended', where)
            ctx.guard(key, go)


def model_(I, s):
    A = V(*[V(*[S('A%d%d' % (i, j)) for j in range(6)]) for i in range(6)])
    B = V(*[V(S('B%d' % i)) for i in range(6)])
    I.st[('f', s, 'simulation_model')] = I.new_dict([(tstr('A'), A), (tstr('B'), B)])


# cases of imposed trajectories: {quantity: [(time, name)]}
TRAJ = {'none': {}, 'speed': {'velocity': [('0', 'u'), ('3', 'v'), ('5', 'w')]},
        'late': {'velocity': [('2', 'v')]},
        'mixed': {'position': [('4', 'p')], 'velocity': [('1', 'u'), ('4', 'v')], 'acceleration': [('2', 'a'), ('7/2', 'b')]}}


def model(ctx):
    where = ctx.loc('ObstaclexD', 'prepare_simulation')
    for name, traj in sorted(TRAJ.items()):
        def go():
            def val(q, nm, k):
                return S('%s_%s%d' % (q[:1] + nm, nm, k))

            def setup(I, s):
                install(I)
                I.st[('f', s, 'n_dim')] = num(2)

            def args(I):
                rows = []
                for q, pts in sorted(traj.items()):
                    rows.append((tstr(q), I.new_dict([(tstr('time'), I.new_list([num(t) for t, _ in pts])),
                                                      (tstr('values'), I.new_list([I.new_list([val(q, nm, k) for k in range(2)]) for _, nm in pts]))])))
                kv = [(tstr('trajectories'), I.new_dict(rows))] if rows else []
                init = I.new_dict([(tstr('position'), I.new_list([S('p0'), S('p1')])), (tstr('velocity'), I.new_list([S('q0'), S('q1')]))])
                return [init, I.new_dict(kv)]
            seen = []

            def interp1d(I, t, args):
                return None
            a = run_method(ctx, 'ObstaclexD', 'prepare_simulation', args, policy=inline, setup=setup)
            m = a.field(OB, 'simulation_model')
            d = {x.args[0]: x.args[1] for x in m.args[1:] if x.op == 'kv'} if m.op == 'dict' else {}
            ctx.equal('model.%s.A' % name, d.get(tstr('A'), NONE), spec(ctx, 'default_model', None, [num(2)]).ret, 'model of a free point', where)
            B = d.get(tstr('B'), NONE)
            ctx.equal('model.%s.B' % name, B, V(*[V(ZERO)]*6), 'no input', where)
            began(ctx, name, traj, val)
            # jumps imposed until a time: at every time of the trajectory, just the values given up to then
            f = a.field(OB, 'state_incr_interp')
            parts = interp_parts(f)
            if parts is None:
                ctx.unknown('model.%s.jumps' % name, 'jumps not resolved', where)
            else:
                x, y, kind, fill = parts
                times = sorted(set([Fraction_('0')] + [Fraction_(t) for q in traj.values() for t, _ in q]))
                key = 'model.%s.jumps' % name
                ctx.equal(key + '.kind', kind, tstr('zero'), 'jumps hold until the next one', where)
                # the default trajectories contain time one with zero jumps
                tx = [numval(t) for t in x.args]
                if any(t is None for t in tx):
                    ctx.unknown(key, 'times not resolved', where)
                else:
                    ctx.equal(key + '.sorted', V(*[num(t) for t in tx]), V(*[num(t) for t in sorted(tx)]), 'times in order', where)
                    for t in times:
                        want = V(*[sum_([val(q, nm, k) for tt, nm in traj.get(q, []) if Fraction_(tt) <= t and Fraction_(tt) != 0] or [ZERO])
                                   for q in ('position', 'velocity', 'acceleration') for k in range(2)])
                        i = max([j for j, u in enumerate(tx) if u <= t] or [-1])
                        got = V(*[r.args[i] for r in y.args]) if i >= 0 else NONE
                        ctx.equal('%s.at%s' % (key, t), got, want, 'jumps imposed until t = %s' % t, where)
                    last = V(*[r.args[-1] for r in y.args])
                    ctx.equal(key + '.after', fill, last, 'the jumps stay after the last time', where)
            sg = a.field(OB, 'signals')
            d = {x.args[0]: x.args[1] for x in sg.args[1:] if x.op == 'kv'} if sg.op == 'dict' else {}
            for q, w in (('position', V(V(S('p0')), V(S('p1')))), ('velocity', V(V(S('q0')), V(S('q1')))), ('acceleration', V(V(ZERO), V(ZERO))), ('time', V(ZERO))):
                ctx.equal('model.%s.initial.%s' % (name, q), d.get(tstr(q), NONE), w, 'initial %s' % q, where)
        ctx.guard('model.' + name, go)


def began(ctx, name, traj, val):
    """a value imposed at time zero is the initial one, the others are what the user gave"""
    where = ctx.loc('ObstaclexD', '__init__')
    for cls in ('Obstacle2D', 'Obstacle3D'):
        def go():
            def setup(I, s):
                install(I)
                shape = T('sym', 'theshape', 'notnone', 'object')
                I.st[('f', shape, 'n_dim')] = num(2)

            def args(I):
                rows = [(tstr(q), I.new_dict([(tstr('time'), I.new_list([num(t) for t, _ in pts])),
                                              (tstr('values'), I.new_list([I.new_list([val(q, nm, k) for k in range(2)]) for _, nm in pts]))])) for q, pts in sorted(traj.items())]
                init = I.new_dict([(tstr('position'), I.new_list([S('p0'), S('p1')])), (tstr('velocity'), I.new_list([S('q0'), S('q1')]))])
                return [init, T('sym', 'theshape', 'notnone', 'object'), I.new_dict([(tstr('trajectories'), I.new_dict(rows))] if rows else []), I.new_dict([])]
            a = run_method(ctx, cls, '__init__', args, setup=setup, policy=lambda q: 'event' if q.endswith('prepare_simulation') else 'inline')
            ev = [e for e in a.events if e.name.endswith('prepare_simulation')]
            key = 'begin.%s.%s' % (cls, name)
            if not ev:
                return ctx.unknown(key, 'preparation of the simulation not found', where)
            arg = ev[0].args[0] if ev[0].args else dict(ev[0].kw).get('initial', NONE)
            arg = a.I.freeze(arg)
            if arg.op != 'dict' or any(x.op != 'kv' for x in arg.args[1:]):
                return ctx.unknown(key, 'initial state not resolved', where)
            got = {x.args[0]: x.args[1] for x in arg.args[1:]}
            first = {q: nm for q, pts in traj.items() for t, nm in pts if Fraction_(t) == 0}
            for q, w in (('position', 'p'), ('velocity', 'q')):
                want = L(*[val(q, first[q], k) for k in range(2)]) if q in first else L(S(w + '0'), S(w + '1'))
                ctx.equal('%s.%s' % (key, q), plain(got.get(tstr(q), NONE)), plain(want), 'initial %s' % q, where)
        ctx.guard('begin.%s.%s' % (cls, name), go)


def Fraction_(s):
    from fractions import Fraction
    return Fraction(s)


def interp_parts(f):
    if f.op not in ('call', 'interp1d'):
        return None
    args = [x for x in f.args if isinstance(x, Term) and x.op != 'kwarg']
    kw = {x.args[0]: x.args[1] for x in f.args if isinstance(x, Term) and x.op == 'kwarg'}
    if f.op == 'call':
        args = args[1:]
    x = args[0] if args else kw.get('x')
    y = args[1] if len(args) > 1 else kw.get('y')
    if x is None or y is None or x.op != 'vec' or y.op != 'vec' or not all(r.op == 'vec' and len(r.args) == len(x.args) for r in y.args):
        return None
    kind = kw.get('kind', args[2] if len(args) > 2 else tstr('linear'))
    return x, y, kind, kw.get('fill_value', NONE)


def rotation(ctx):
    where = ctx.loc('Obstacle2D', 'simulate')
    dt = P('dt')
    for n in (1, 4):
        def go():
            def setup(I, s):
                install(I)
                I.st[('f', s, 'n_dim')] = num(2)
                signals(I, s, 2, P('t0'), [(tstr('orientation'), V(V(S('old'), S('theta')))), (tstr('angular_velocity'), V(V(S('oldw'), S('omega'))))])
            a = run_method(ctx, 'Obstacle2D', 'simulate', [mul(num(n), dt), dt], setup=setup,
                           policy=lambda q: 'event' if q.endswith('ObstaclexD.simulate') else 'inline')
            d = a.field(OB, 'signals')
            got = {x.args[0]: x.args[1] for x in d.args[1:] if x.op == 'kv'} if d.op == 'dict' else {}
            w = spec(ctx, 'angle', None, [S('theta'), S('omega'), num(n), dt]).ret
            ctx.equal('rotate.%d' % n, got.get(tstr('orientation'), NONE), V(V(S('old'), *w.args)), 'orientation grows with the angular velocity', where)
            ctx.equal('rotate.%d.speed' % n, got.get(tstr('angular_velocity'), NONE), V(V(S('oldw'), *[S('omega')]*(n + 1))), 'constant angular velocity', where)
            ev = [e for e in a.events if e.name.endswith('simulate')]
            if len(ev) == 1 and len(ev[0].args) >= 2:
                ctx.equal('rotate.%d.moves' % n, T('tuple', *ev[0].args[-2:]), T('tuple', mul(num(n), dt), dt), 'the obstacle also moves', where)
            elif not ev:
                ctx.bad('rotate.%d.moves' % n, 'a rotating obstacle does not move', where, '')
        ctx.guard('rotate.%d' % n, go)


def states(ctx):
    for cls, keys in (('ObstaclexD', ('position', 'velocity', 'acceleration')),
                      ('Obstacle2D', ('position', 'velocity', 'acceleration', 'orientation', 'angular_velocity'))):
        where = ctx.loc(cls, 'set_state')
        for given in [()] + [(k,) for k in keys] + [keys]:
            key = '%s.set_state.%s' % (cls, '+'.join(given) if len(given) < 3 else 'all')

            def go():
                def val(k):
                    return [S('phi')] if k in ('orientation', 'angular_velocity') else [S(k + '0'), S(k + '1')]

                def setup(I, s):
                    install(I)
                    I.st[('f', s, 'n_dim')] = num(2)
                    signals(I, s, 2, P('t0'))
                a = run_method(ctx, cls, 'set_state', lambda I: [I.new_dict([(tstr(k), I.new_list(val(k))) for k in given])], policy=inline, setup=setup)
                d = a.field(OB, 'signals')
                got = {x.args[0]: x.args[1] for x in d.args[1:] if x.op == 'kv'} if d.op == 'dict' else {}
                for k in keys:
                    n = 1 if k in ('orientation', 'angular_velocity') else 2
                    w = V(*[V(x) for x in (val(k) if k in given else [ZERO]*n)])
                    ctx.equal('%s.%s' % (key, k), got.get(tstr(k), NONE), w, 'measured state', where)
            ctx.guard(key, go)


def shape_of(ctx, I, name, kind):
    if kind == 'circle':
        s = T('sym', name, 'notnone')
        I.types[s] = ctx.prog.cls('Circle')
        I.st[('f', s, 'radius')] = P(name + '_r')
        return s
    return rectangle(ctx, I, name, P(name + '_w'), P(name + '_h'))


def obstacle(ctx, I, name, kind):
    o = OB if name == 'self' else T('sym', name, 'notnone', 'object')
    I.types[o] = ctx.prog.cls('Obstacle2D')
    I.st[('f', o, 'shape')] = shape_of(ctx, I, name + 's', kind)
    I.st[('f', o, 'n_dim')] = num(2)
    I.st[('f', o, 'signals')] = I.new_dict([(tstr('position'), V(V(S('zz'), S(name + '_x')), V(S('zz'), S(name + '_y'))))])
    return o


def overlaps(ctx):
    where = ctx.loc('Obstacle2D', 'overlaps_with')
    pos = lambda n: L(S(n + '_x'), S(n + '_y'))
    for k1 in ('circle', 'rectangle'):
        for k2 in ('circle', 'rectangle'):
            key = 'overlap.%s.%s' % (k1, k2)

            def go():
                other = T('sym', 'other', 'notnone', 'object')

                def setup(I, s):
                    install(I)
                    obstacle(ctx, I, 'self', k1)
                    obstacle(ctx, I, 'other', k2)
                mixed = k1 != k2
                helpers = ('point_in_polyhedron', 'circle_polyhedron_intersection')
                a = run_method(ctx, 'Obstacle2D', 'overlaps_with', [other], setup=setup,
                               policy=lambda q: 'pure' if q.split('.')[-1] in helpers else 'inline')
                got = matrices_truth(a.ret)
                if k1 == k2 == 'circle':
                    w = spec(ctx, 'circles_overlap', None, [pos('self'), P('selfs_r'), pos('other'), P('others_r')]).ret
                    ctx.equal(key, got, w, 'circles overlap when closer than the sum of their radii', where)
                elif k1 == k2:
                    w = spec27(ctx, 'overlap', P('others_w'), P('others_h'), pos('other'), P('selfs_w'), P('selfs_h'), pos('self'))
                    ctx.equal(key, got, matrices_truth(w), 'rectangles overlap', where)
                else:
                    # decided by the two tests (C27), asked about the right objects
                    c, r = ('self', 'other') if k1 == 'circle' else ('other', 'self')
                    calls = [t for t in tm.subterms(a.ret) if t.op in ('fcall', 'call', 'mcall') and any(isinstance(x, Term) and x.op == 'str' and x.args[0].split('.')[-1] in helpers for x in t.args)]
                    if not calls:
                        return ctx.unknown(key, 'tests not resolved', where)
                    by = {}
                    for t in calls:
                        nm = [x.args[0].split('.')[-1] for x in t.args if isinstance(x, Term) and x.op == 'str'][0]
                        by[nm] = [x for x in t.args if isinstance(x, Term) and x.op != 'str']
                    obj = lambda n: OB if n == 'self' else other
                    want = {helpers[0]: [V(S(c + '_x'), S(c + '_y')), T('sym', r + 's', 'notnone'), V(S(r + '_x'), S(r + '_y'))],
                            helpers[1]: [obj(c), T('sym', r + 's', 'notnone'), V(S(r + '_x'), S(r + '_y'))]}
                    for h in helpers:
                        if h not in by:
                            ctx.bad('%s.%s' % (key, h), 'overlap decided without %s' % h, where, '')
                            continue
                        ctx.equal('%s.%s' % (key, h), T('tuple', *[plain(x.args[1]) if x.op == 'kwarg' else plain(x) for x in by[h][:3]]),
                                  T('tuple', *[plain(x) for x in want[h]]), 'test on centre and polygon', where)
                    atoms = [tm.truth(t) for t in calls]
                    if len(set(calls)) == 2:
                        ctx.equal(key + '.either', got, bor(atoms[0], atoms[1]), 'overlap when the centre is inside or a side is touched', where)
            ctx.guard(key, go)
    where = ctx.loc('Obstacle2D', 'is_outside_of')
    for kind in ('circle', 'rectangle'):
        def go():
            def setup(I, s):
                install(I)
                obstacle(ctx, I, 'self', kind)

            def args(I):
                return [I.new_dict([(tstr('shape'), rectangle(ctx, I, 'room', P('W'), P('H'))), (tstr('position'), L(S('rx'), S('ry')))])]
            a = run_method(ctx, 'Obstacle2D', 'is_outside_of', args, setup=setup, policy=inline)
            W, H = div(P('W'), num(2)), div(P('H'), num(2))
            lims = L(sub(S('rx'), W), add(S('rx'), W), sub(S('ry'), H), add(S('ry'), H))
            if kind == 'circle':
                w = spec(ctx, 'circle_beyond', None, [pos('self'), P('selfs_r'), lims]).ret
            else:
                pts = L(*[L(mul(num(i), div(P('selfs_w'), num(2))), mul(num(j), div(P('selfs_h'), num(2)))) for i in (1, -1) for j in (1, -1)])
                w = spec(ctx, 'polygon_beyond', None, [pts, pos('self'), lims]).ret
            ctx.equal('outside.' + kind, matrices_truth(a.ret), matrices_truth(w), 'outside of the room', where)
        ctx.guard('outside.' + kind, go)


def matrices_truth(t):
    return lift(lambda x: tm.truth(x), t)


DIRS = {'up right': (1, 1), 'up left': (-1, 1), 'down right': (1, -1), 'down left': (-1, -1), 'right': (1, 0), 'up': (0, 1), 'left': (-1, 0), 'down': (0, -1)}


def bounces(ctx):
    where = ctx.loc('Environment', 'simulate')
    me, other = T('sym', 'mover', 'notnone', 'object'), T('sym', 'other', 'notnone', 'object')
    for dn, d in sorted(DIRS.items()):
        for cause in ('obstacle', 'border', 'nothing', 'not bouncing'):
            key = 'bounce.%s.%s' % (cause.replace(' ', '_'), dn.replace(' ', '_'))

            def go():
                comp = [mul(num(s), P('v%d' % k)) if s else ZERO for k, s in enumerate(d)]
                asked = {'o': 0, 'b': 0}

                def answer(kind, hit):
                    def f(I, t, bound):
                        if kind == 'o' and me in bound.values() and other not in bound.values():
                            return TRUE       # everything overlaps itself
                        asked[kind] += 1
                        if not hit:
                            return FALSE
                        return TRUE if asked[kind] == 1 else tm.truth(T('sym', 'probe%d' % asked[kind]))
                    return f

                def setup(I, s):
                    install(I)
                    for o, moves in ((me, True), (other, False)):
                        I.types[o] = ctx.prog.cls('Obstacle2D')
                        vel = I.new_dict([(tstr('velocity'), I.new_dict([]))])
                        I.st[('f', o, 'simulation')] = I.new_dict([(tstr('trajectories'), vel)] if moves else [])
                        I.st[('f', o, 'options')] = I.new_dict([(tstr('bounce'), mkbool(moves and cause != 'not bouncing'))])
                    I.st[('f', me, 'signals')] = I.new_dict([(tstr('position'), V(V(S('ox'), S('x')), V(S('oy'), S('y')))),
                                                             (tstr('velocity'), V(V(S('ou'), comp[0]), V(S('ov'), comp[1])))])
                    I.st[('f', s, 'obstacles')] = I.new_list([me, other])
                    I.st[('f', s, 'room')] = I.new_list([S('hall')])
                    I.ret_models['overlaps_with'] = answer('o', cause in ('obstacle', 'not bouncing'))
                    I.ret_models['is_outside_of'] = answer('b', cause in ('border', 'not bouncing'))
                ev = ('overlaps_with', 'is_outside_of', 'simulate', 'update_plots')
                a = run_method(ctx, 'Environment', 'simulate', [S('span'), S('dt')], setup=setup,
                               policy=lambda q: 'inline' if q.endswith('Environment.simulate') else 'event' if q.split('.')[-1] in ev else 'inline')
                sg = a.I.freeze(a.I.st.get(('f', me, 'signals')))
                got = {x.args[0]: x.args[1] for x in sg.args[1:] if x.op == 'kv'}
                p, v = got[tstr('position')], got[tstr('velocity')]
                ctx.equal(key + '.position', p, V(V(S('ox'), S('x')), V(S('oy'), S('y'))), 'bouncing does not move the obstacle', where)
                reflected(ctx, key + '.velocity', v, comp, cause in ('obstacle', 'border'), where)
                moved = [(e.recv, e.args) for e in a.events if e.name == '.simulate' or e.name.endswith('simulate')]
                for o in (me, other):
                    mine = [x for x in a.events if x.name.lstrip('.') == 'simulate' and o in (x.recv, )]
                    if not mine:
                        ctx.bad('%s.moves.%s' % (key, o.args[0]), 'an obstacle is not simulated', where, '')
                    elif len(mine) > 1:
                        ctx.bad('%s.moves.%s' % (key, o.args[0]), 'an obstacle is simulated more than once', where, '')
                    else:
                        ctx.ok('%s.moves.%s' % (key, o.args[0]), 'simulated once', where)
            ctx.guard(key, go)


def reflected(ctx, key, v, comp, hit, where):
    """the last sample of the velocity: every component kept or reversed, something reversed exactly when something is hit"""
    if v.op != 'vec' or len(v.args) != 2 or any(r.op != 'vec' or len(r.args) != 2 for r in v.args):
        return ctx.unknown(key, 'velocity not resolved', where)
    ctx.equal(key + '.past', V(*[r.args[0] for r in v.args]), V(S('ou'), S('ov')), 'earlier samples', where)
    new = [r.args[1] for r in v.args]

    def leaf(x, y):
        n = 0
        for g, w in zip((x, y), comp):
            if w is ZERO and g is ZERO:
                continue
            if same(g, w):
                continue
            if same(g, neg(w)):
                n += 1
                continue
            return T('str', 'wrong')
        if not hit:
            return TRUE if n == 0 else T('str', 'turned')
        if n == 0:
            return T('str', 'kept')
        if n == 2 and all(c is not ZERO for c in comp):
            return T('str', 'reversed')
        return TRUE
    r = lift(leaf, *new)
    und = decided(T('tuple', *new), [])
    if r is TRUE:
        ctx.ok(key, 'reflected' if hit else 'kept', where)
    elif und:
        ctx.unknown(key, 'velocity not resolved (%s)' % ', '.join(und), where)
    else:
        ctx.bad(key, 'velocity after %s is `%s`, before it was `%s`' % ('hitting something' if hit else 'a free motion', short(T('tuple', *new), 200), short(T('tuple', *comp))),
                where, T('tuple', *new).dig)
