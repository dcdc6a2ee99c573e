"""C04: collision avoidance: vehicle and obstacle are on opposite sides of a common separating plane, with
all checkpoints, radii and the safety margin on the right side."""
from ..behave import *
from ..terms import *
from .c01 import splines, LIMITS, models

S = lambda n: T('sym', n, 'notnone')

O = lambda n: T('sym', n, 'notnone', 'object')

FEEDS = {'Holonomic': 'feed_planar', 'Holonomic3D': 'feed_space', 'HolonomicOrient': 'feed_holonomicorient',
         'Dubins': 'feed_dubins', 'Bicycle': 'feed_bicycle', 'AGV': 'feed_agv', 'Quadrotor': 'feed_planar',
         'Quadrotor3D': 'feed_quadrotor3d', 'SimpleQuadrotor3D': 'feed_simplequadrotor3d', 'Trailer': 'feed_trailer'}


ME = T('sym', 'self', 'notnone')
FIXED = [T('attr', ME, 'shapes'), T('attr', ME, 'options'), T('attr', ME, 'label')]

# the room outline and the corner points are quantities of their own
ROOMCALLS = ('mcall:get_canvas_limits', 'mcall:get_hyperplanes', 'mcall:get_checkpoints', 'mcall:values', 'dictvalues')


def vehicle_side(ctx, key, method, spec, extra, what, setup=None):
    where = ctx.loc('Vehicle', method)

    def go():
        args = [S('hyperplanes'), S('room'), S('positions'), S('horizon_time')] + extra
        names = []

        def slack(box):
            def model(I, t, bound):
                if bound.get('size0', ONE) is not ONE:
                    return t
                box.append(I.freeze(bound.get('name', NONE)))
                return T('list', S('slack_spline'))

            def f(I, s):
                I.ret_models['define_spline_variable'] = model
                if setup:
                    setup(I, s)
            return f
        a = run_method(ctx, 'Vehicle', method, args, setup=slack(names))
        b = run_spec(ctx, 'collision.' + spec, 'Vehicle', args, setup=slack([]))
        require_constraints(ctx, key, a, b, what, where, known=ROOMCALLS)
        # the method is called once per segment and once more for the other vehicles: every call needs slacks of its own
        for n in sorted(set(names)):
            its = [x for x in tm.subterms(n) if x.op in ('iter', 'idx', 'it', 'loopidx')]
            atoms = [x for x in tm.subterms(tm.substitute(n, {x: ZERO for x in its})) if x.op in ('sym', 'attr', 'mcall', 'fcall', 'getitem')]
            own = [x for x in atoms if x.op in ('attr', 'mcall') and ME in tm.subterms(x) and x not in FIXED]
            own += [x for x in atoms if x.op == 'sym' and x in args]
            if own:
                ctx.ok(key + '.slack', 'slack variables of different calls are different variables', where)
            else:
                ctx.bad(key + '.slack', 'slack variable `%s` gets the same name in every call (each segment, and avoidance of other vehicles): '
                        'the slack is shared' % short(n), where, '')
        return a, b
    return ctx.guard(key, go)


def three(I, s):
    I.st[('f', s, 'n_dim')] = num(3)


def run(ctx):
    ctx.rules.append('C04: specified separation inequalities are among the imposed ones for all shapes, hyperplanes and checkpoints; '
                     'every vehicle feeds its own position splines into them; one plane per segment, shape and avoided obstacle or vehicle pair.')
    vehicle_side(ctx, 'vehicle2d', 'define_collision_constraints_2d', 'vehicle_2d_sep', [], 'vehicle without heading')
    vehicle_side(ctx, 'vehicle2d.heading', 'define_collision_constraints_2d', 'vehicle_2d_sep', [S('tg_ha'), S('offset')], 'vehicle with heading')
    vehicle_side(ctx, 'vehicle3d', 'define_collision_constraints_3d', 'vehicle_3d', [], 'vehicle in space', three)
    for c in ('2D', '3D'):
        where = ctx.loc('Obstacle' + c, 'define_collision_constraints')

        def go():
            a = run_method(ctx, 'Obstacle' + c, 'define_collision_constraints', [S('hyperplanes')])
            b = run_spec(ctx, 'collision.obstacle_' + c.lower(), 'Obstacle' + c, [S('hyperplanes')])
            require_constraints(ctx, 'obstacle' + c, a, b, 'obstacle side', where)
        ctx.guard('obstacle' + c, go)
    n = dict((c, k) for c, _, k in LIMITS)
    names = ('.define_collision_constraints_2d', '.define_collision_constraints_3d', '.define_collision_constraints')
    for cls in sorted(FEEDS):
        where = ctx.loc(cls, 'define_collision_constraints')

        def go():
            ev = ('define_collision_constraints_2d', 'define_collision_constraints_3d')
            std = std_policy(events=ev)

            def policy(q):
                # the delegated call on the lead vehicle is an event, not followed
                if q.endswith('.define_collision_constraints') and not q.endswith('.%s.define_collision_constraints' % cls):
                    return 'event'
                return std(q)
            args = [S('hyperplanes'), S('room'), splines(n[cls]), S('horizon_time')]
            a = run_method(ctx, cls, 'define_collision_constraints', args, policy=policy)
            b = run_spec(ctx, 'collision.' + FEEDS[cls], cls, args, policy=policy)
            require_events(ctx, cls + '.feed', bind(ctx, a), bind(ctx, b), names, cls + ' position', where, forbid_extra=False)
        ctx.guard(cls + '.feed', go)
    environment(ctx)
    intervehicle(ctx)
    models(ctx, ('.define_collision_constraints', '.define_intervehicle_collision_constraints'), 'every problem avoids collisions on every segment')
    return 20


SIG = {'.define_collision_constraints_2d': ['hyperplanes', 'room', 'positions', 'horizon_time', 'tg_ha', 'offset'],
       '.define_collision_constraints_3d': ['hyperplanes', 'room', 'positions', 'horizon_time']}
DEF = {'tg_ha': ZERO, 'offset': ZERO}


def bind(ctx, run):
    """arguments by name, defaults filled in"""
    for e in run.events:
        if e.name in SIG:
            names = SIG[e.name]
            kw = dict(e.kw)
            for k, v in zip(names, e.args):
                kw[k] = v
            for k in names:
                if kw.get(k) is None and k in DEF:
                    kw[k] = DEF[k]
            p = kw.get('positions')
            if p is not None and p.op in ('vec', 'tuple'):
                kw['positions'] = T('list', *p.args)
            e.kw = kw
            e.args = []
    return run


def scene(ctx, nd, od, nseg, own):
    """a vehicle with two shapes and two obstacles, in `nseg` rooms (`own`: the rooms name their obstacles)"""
    def f(I, s):
        v = S('vehicle')
        I.types[v] = ctx.prog.cls('Vehicle')
        I.ret_models['define_spline_variable'] = m_spline_variable
        I.st[('f', v, 'n_dim')] = num(nd)
        I.st[('f', v, 'n_seg')] = num(nseg)
        I.st[('f', v, 'shapes')] = I.new_list([O('shape0'), O('shape1')])
        I.st[('f', s, 'n_dim')] = num(nd)
        rooms = []
        for k in range(nseg):
            r = [(tstr('shape'), S('roomshape%d' % k)), (tstr('position'), S('roompos%d' % k)), (tstr('orientation'), ZERO)]
            if own:
                r.append((tstr('obstacles'), I.new_list([O('obst%d' % (2*k)), O('obst%d' % (2*k + 1))])))
            rooms.append(I.new_dict(r))
        I.st[('f', s, 'room')] = I.new_list(rooms)
        I.st[('f', s, 'obstacles')] = I.new_list([O('obst0'), O('obst1')] if not own else [O('obst%d' % k) for k in range(2*nseg)])
        for k in range(4):
            I.st[('f', O('obst%d' % k), 'n_dim')] = num(od)
    return f


def event_only(*names):
    std = std_policy(events=('init',))

    def policy(q):
        if q.split('.')[-1] in names and '.Environment.' not in q and not q.startswith('spec.'):
            return 'event'
        return std(q)
    return policy


def members(t, g0=TRUE):
    """gated members of a (conditional) list value, given a condition; None if not resolved"""
    if g0 is FALSE:
        return []
    if t.op == 'ite':
        c = condatom(t.args[0])
        a, b = members(t.args[1], band(g0, c)), members(t.args[2], band(g0, bnot(c)))
        if a is None or b is None:
            return None
        return a + b
    if t.op in ('list', 'tuple', 'vec'):
        return [(band(g0, g), y) for x in t.args for g, y in leaves(x) if band(g0, g) is not FALSE]
    if t.op == 'clist':
        out = []
        for i in t.args:
            g = g0
            while i.op == 'opt':
                g = band(g, i.args[0])
                if len(i.args) != 2:
                    return None
                i = i.args[1]
            if g is FALSE:
                continue
            if i.op != 'one':
                return None
            out += [(band(g, h), y) for h, y in leaves(i.args[0]) if band(g, h) is not FALSE]
        return out
    return None


def plane(t):
    """(normal components, offset) of a hyperplane dictionary"""
    if t.op != 'dict' or t.args[0] is not NONE or not all(x.op == 'kv' for x in t.args[1:]):
        return None
    d = {x.args[0]: x.args[1] for x in t.args[1:]}
    a, b = d.get(tstr('a')), d.get(tstr('b'))
    if a is None or b is None:
        return None
    return a, b


def entries(t, g0=TRUE):
    """key -> gated members of a dictionary of lists"""
    if g0 is FALSE:
        return {}
    if t.op == 'ite':
        c = condatom(t.args[0])
        x, y = entries(t.args[1], band(g0, c)), entries(t.args[2], band(g0, bnot(c)))
        if x is None or y is None:
            return None
        out = {}
        for d in (x, y):
            for k, v in d.items():
                out.setdefault(k, []).extend(v)
        return out
    if t.op != 'dict' or t.args[0] is not NONE:
        return None
    out = {}
    for x in t.args[1:]:
        g = g0
        while x.op == 'opt':
            g = band(g, x.args[0])
            x = x.args[1]
        if g is FALSE:
            continue
        if x.op != 'kv':
            return None
        m = members(x.args[1], g)
        if m is None:
            return None
        out[x.args[0]] = m
    return out


def comp(a, k):
    """k-th component of a normal vector (explicit or symbolic)"""
    if a.op in ('list', 'tuple', 'vec'):
        return a.args[k] if k < len(a.args) else None
    return getitem(a, num(k))


def und_plane(t):
    """what is not understood in a plane component (the optimisation variables themselves are atoms)"""
    m = {x: T('sym', 'var%s' % x.dig[:12], 'notnone') for x in tm.subterms(t) if x.op == 'mcall' and x.args[0] is tstr('define_spline_variable')}
    m.update({x: T('sym', 'new%s' % x.dig[:12], 'notnone') for x in tm.subterms(t) if x.op == 'new' or x.op == 'call' and 'new' in repr(x.args[:1])})
    return decided(tm.substitute(t, m))


def arg(e, pos, name):
    if name in e.kw:
        return e.kw[name]
    return e.args[pos] if pos < len(e.args) else None


def unit_norm(run, a, n, cond):
    """is sum of squares of the components bounded by one, under cond?"""
    got = FALSE
    want = canon_le(sub(sum_([mul(comp(a, k), comp(a, k)) for k in range(n)]), ONE))
    for (pc, loops, kind, p, ev) in constraint_set(run):
        if not loops and (p is want or same(p, want)):
            got = bor(got, pc)
    return band(cond, bnot(got)) is FALSE


def environment(ctx):
    where = ctx.loc('Environment', 'define_collision_constraints')
    ctx.rules.append('C04 scene rule: in every segment each (vehicle shape, avoided obstacle) pair shares one plane of its own, '
                     'with bounded normal, given to both sides; the vehicle gets the room, splines and horizon time of that segment.')
    for nd, od, nseg, own in ((2, 2, 1, False), (2, 2, 2, False), (2, 2, 2, True), (3, 3, 1, False), (3, 2, 1, False)):
        key = 'scene%d%d.%d%s' % (nd, od, nseg, 'own' if own else '')

        def go():
            a = run_method(ctx, 'Environment', 'define_collision_constraints', [S('vehicle'), S('splines'), S('hts')],
                           setup=scene(ctx, nd, od, nseg, own), policy=event_only('define_collision_constraints'))
            veh = [e for e in a.events if e.name == '.define_collision_constraints' and e.recv is S('vehicle')]
            obs = {}
            for e in a.events:
                if e.name == '.define_collision_constraints' and e.recv is not S('vehicle'):
                    m = members(arg(e, 0, 'hyperplanes'), e.pc)
                    if m is None or e.loops:
                        return ctx.unknown(key, 'planes of an obstacle not resolved: %s' % short_ev(e)[:200], where)
                    obs.setdefault(e.recv, []).extend((g, plane(p)) for g, p in m)
            if any(e.loops for e in veh):
                return ctx.unknown(key, 'segment loop not resolved', where)
            used = {}
            for seg in range(nseg):
                sp = getitem(S('splines'), num(seg))
                mine = [e for e in veh if same(arg(e, 2, 'splines'), sp)]
                k = '%s.seg%d' % (key, seg)
                if not mine:
                    und = [x for e in veh for x in decided(arg(e, 2, 'splines'), [sp])]
                    (ctx.unknown if und else ctx.bad)(k, 'the vehicle gets no constraints on its splines of segment %d' % seg, where, *([] if und else [''.join(arg(e, 2, 'splines').dig[:6] for e in veh)]))
                    continue
                e = mine[0]
                ctx.equal(k + '.horizon', arg(e, 3, 'horizon_time') or NONE, getitem(S('hts'), num(seg)), 'horizon time of segment %d' % seg, where)
                rm = entries_of(arg(e, 1, 'room'))
                if rm is None:
                    ctx.unknown(k + '.room', 'room not resolved', where)
                else:
                    ctx.equal(k + '.room', rm.get(tstr('shape'), NONE), S('roomshape%d' % seg), 'room of segment %d' % seg, where)
                d = entries(arg(e, 0, 'hyperplanes'))
                if d is None:
                    ctx.unknown(k + '.planes', 'planes of the vehicle not resolved', where)
                    continue
                who = [O('obst%d' % (i + (2*seg if own else 0))) for i in range(2)]
                for shape in (O('shape0'), O('shape1')):
                    ms = [(g, plane(p)) for g, p in d.get(shape, [])]
                    for o in who:
                        avoid = truth(getitem(attr(o, 'options'), tstr('avoid')))
                        kk = '%s.%s.%s' % (k, short(shape), short(o))
                        pair = FALSE
                        norm = True
                        und = []
                        for g, p in ms:
                            for h, q in obs.get(o, []):
                                if p is None or q is None:
                                    und.append('plane')
                                    continue
                                both = band(g, h)
                                if both is FALSE or not same(p[1], q[1]):
                                    continue
                                if not all(comp(p[0], i) is not None and comp(q[0], i) is not None and same(comp(p[0], i), comp(q[0], i)) for i in range(od)):
                                    continue
                                if nd > od:
                                    z = comp(p[0], 2)
                                    if z is None or 'zero-extension' == zero_like(z) or not zero_like(z):
                                        continue
                                pair = bor(pair, both)
                                ident = (p[1], both)
                                norm = norm and unit_norm(a, q[0], od, both)
                                prev = used.setdefault(p[1], (seg, shape, o))
                                if prev != (seg, shape, o) and not und_plane(p[1]):
                                    ctx.bad(kk + '.own', 'the plane is also used for %s' % short(T('tuple', num(prev[0]), prev[1], prev[2])), where, p[1].dig)
                        for g, p in ms + obs.get(o, []):
                            if p is not None:
                                for x in (p[0], p[1]):
                                    und += und_plane(x)
                        miss = band(avoid, bnot(pair))
                        text = 'segment %d: %s and %s have a separating plane in common' % (seg, short(shape), short(o))
                        if miss is FALSE:
                            ctx.ok(kk, text, where)
                            (ctx.ok if norm else ctx.bad)(kk + '.norm', 'its normal is bounded by one' if norm else 'segment %d, %s, %s: norm of the plane normal is not bounded by one' % (seg, short(shape), short(o)), where)
                        elif und or decided(pair, [avoid]):
                            ctx.unknown(kk, text + ': unresolved %s' % ', '.join(sorted(set(und)))[:200], where)
                        else:
                            ctx.bad(kk, 'not established: %s%s' % (text, '' if pair is FALSE else ' (only when %s)' % short(pair, 120)), where, pair.dig)
        ctx.guard(key, go)


def zero_like(z):
    return z is ZERO or (z.op in ('fcall', 'new', 'call', 'mcall') and any(x.op in ('fcall', 'call', 'vec') and 'fill' in repr(x)[:40] or x is ZERO for x in tm.subterms(z)))


def entries_of(t):
    if t is None or t.op != 'dict':
        return None
    return {x.args[0]: x.args[1] for x in t.args[1:] if x.op == 'kv'}


def intervehicle(ctx):
    where = ctx.loc('Environment', 'define_intervehicle_collision_constraints')
    ctx.rules.append('C04 pair rule: every pair of shapes of different vehicles shares one plane with opposite orientation.')
    for nd, nseg in ((2, 1), (3, 1), (2, 2)):
        key = 'vehicles%d.%d' % (nd, nseg)
        V = [O('veh%d' % k) for k in range(3)]

        def setup(I, s):
            I.ret_models['define_spline_variable'] = m_spline_variable
            I.st[('f', s, 'n_dim')] = num(nd)
            I.st[('f', s, 'room')] = I.new_list([S('room%d' % k) for k in range(nseg)])
            for k, v in enumerate(V):
                I.types[v] = ctx.prog.cls('Vehicle')
                I.st[('f', v, 'n_dim')] = num(nd)
                I.st[('f', v, 'n_seg')] = num(nseg)
                I.st[('f', v, 'shapes')] = I.new_list([O('shape%d%d' % (k, i)) for i in range(2)])
        vl = T('list', *V)

        def go():
            a = run_method(ctx, 'Environment', 'define_intervehicle_collision_constraints', [vl, S('hts')], setup=setup,
                           policy=event_only('define_collision_constraints'))
            ev = [e for e in a.events if e.name == '.define_collision_constraints']
            if any(e.loops or e.recv not in V for e in ev):
                return ctx.unknown(key, 'calls per vehicle not resolved', where)
            used = {}
            for seg in range(nseg):
                got = {}
                for v in V:
                    sp = getitem(attr(v, 'splines'), num(seg))
                    mine = [e for e in ev if e.recv is v and same(arg(e, 2, 'splines'), sp)]
                    k = '%s.seg%d.%s' % (key, seg, short(v))
                    if not mine:
                        und = [x for e in ev for x in decided(arg(e, 2, 'splines'), [sp])]
                        if und:
                            ctx.unknown(k, 'splines not resolved', where)
                        else:
                            ctx.bad(k, 'segment %d: %s gets no constraints on its own splines' % (seg, short(v)), where, ''.join(e.recv.dig[:4] + arg(e, 2, 'splines').dig[:4] for e in ev))
                        continue
                    e = mine[0]
                    ctx.equal(k + '.horizon', arg(e, 3, 'horizon_time') or NONE, getitem(S('hts'), num(seg)), 'horizon time', where)
                    ctx.equal(k + '.room', arg(e, 1, 'room'), S('room%d' % seg), 'room', where)
                    got[v] = entries(arg(e, 0, 'hyperplanes'))
                for i in range(3):
                    for j in range(i + 1, 3):
                        di, dj = got.get(V[i]), got.get(V[j])
                        for p in range(2):
                            for q in range(2):
                                kk = '%s.seg%d.%d%d-%d%d' % (key, seg, i, p, j, q)
                                if di is None or dj is None:
                                    ctx.unknown(kk, 'planes not resolved', where)
                                    continue
                                A = [(g, plane(x)) for g, x in di.get(O('shape%d%d' % (i, p)), [])]
                                B = [(g, plane(x)) for g, x in dj.get(O('shape%d%d' % (j, q)), [])]
                                cond, und, norm = FALSE, [], True
                                for g, x in A:
                                    for h, y in B:
                                        if x is None or y is None:
                                            und.append('plane')
                                            continue
                                        if not same(x[1], neg(y[1])) or not all(
                                                comp(x[0], n) is not None and comp(y[0], n) is not None and same(comp(x[0], n), neg(comp(y[0], n))) for n in range(nd)):
                                            continue
                                        both = band(g, h)
                                        cond = bor(cond, both)
                                        norm = norm and unit_norm(a, x[0], nd, both)
                                        ident = canon_le(x[1])
                                        atom = frozenset(t for t in tm.subterms(x[1]) if t.op == 'mcall')
                                        prev = used.setdefault(atom, kk)
                                        if prev != kk and atom:
                                            ctx.bad(kk + '.own', 'the plane is also used for %s' % prev, where, x[1].dig)
                                for g, x in A + B:
                                    if x is not None:
                                        und += [u for t in x for u in und_plane(t)]
                                text = 'segment %d: shape %d of vehicle %d and shape %d of vehicle %d are separated by one plane' % (seg, p, i, q, j)
                                # vehicles in the list are distinct objects
                                if cond is TRUE:
                                    ctx.ok(kk, text, where)
                                    (ctx.ok if norm else ctx.bad)(kk + '.norm', 'bounded normal' if norm else text + ': norm of the normal is not bounded by one', where)
                                elif und or decided(cond):
                                    ctx.unknown(kk, text + ' unresolved %s' % ', '.join(sorted(set(und)))[:150], where)
                                elif cond is not FALSE:
                                    ctx.unknown(kk, text + ': only when %s' % short(cond, 160), where)
                                else:
                                    ctx.bad(kk, 'not established: ' + text, where, ''.join(sorted(repr(x)[:0] + (x[1].dig[:4] if x else '') for _, x in A + B)))
        ctx.guard(key, go)
