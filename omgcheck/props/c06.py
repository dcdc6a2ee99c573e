"""C06: the obstacle motion given to the optimiser is the constant-acceleration extrapolation (or the given
spline) of the obstacle's measured state, continued over the segments; rotation of rotating obstacles."""
from ..behave import *
from ..terms import *
from .c04 import S, O, scene, event_only, arg, members

ME = T('sym', 'self', 'notnone')


def spline_leaf(t):
    """coefficients of a BSpline value [basis, coefficients]"""
    if t.op == 'new' and t.args[0] is tstr('BSpline') and len(t.args) == 3:
        return t.args[1], t.args[2]
    return None


def prediction(ctx):
    where = ctx.loc('ObstaclexD', 'init')
    ctx.rules.append('C06 prediction rule: control points of every predicted piece equal the constant-acceleration extrapolation '
                     'of the measured state, for a free horizon and for 1, 2 and 3 given segment durations, in 2 and 3 dimensions.')
    for nd in (2, 3):
        for n in (0, 1, 2, 3, 'scalar'):
            key = 'predict%d.%s' % (nd, n)

            def go():
                def setup(I, s):
                    I.ret_models['define_parameter'] = m_vector
                    I.st[('f', s, 'n_dim')] = num(nd)
                    # the trajectory is the quadratic one
                    I.st[('f', s, 'options')] = I.new_dict([(tstr('spline_traj'), FALSE)])

                def ht(I):
                    if n == 0:
                        return [NONE]
                    if n == 'scalar':
                        return [num(3)]
                    return [I.new_list([S('T%d' % k) for k in range(n)])]
                a = run_method(ctx, 'ObstaclexD', 'init', ht, setup=setup)
                b = run_spec(ctx, 'obstacles.quadratic', 'ObstaclexD', ht, setup=setup)
                got = a.field(ME, 'pos_spline')
                if got.op not in ('list', 'tuple', 'vec') or len(got.args) != nd:
                    return ctx.unknown(key, 'predicted position not resolved: %s' % short(got), where)
                for k in range(nd):
                    sp = spline_leaf(got.args[k])
                    if sp is None or sp[1].op not in ('vec', 'list', 'tuple'):
                        ctx.unknown('%s.%d' % (key, k), 'predicted spline not resolved: %s' % short(got.args[k]), where)
                        continue
                    ctx.equal('%s.%d.coeffs' % (key, k), T('list', *sp[1].args), T('list', *b.ret.args[k].args),
                              'axis %d: control points of the predicted motion' % k, where)
                    ctx.equal('%s.%d.basis' % (key, k), sp[0], attr(ME, 'basis'), 'axis %d: basis of the predicted motion' % k, where)
                x, y = a.field(ME, 't'), b.field(ME, 't')
                if not (x.op == 'attr'):
                    ctx.equal(key + '.t', x, y, 'time within the segment', where)
            ctx.guard(key, go)

    def basis():
        w = ctx.loc('ObstaclexD', '__init__')
        a = run_method(ctx, 'ObstaclexD', '__init__', [S('initial'), S('shape'), S('simulation'), S('options')],
                       policy=std_policy(events=('set_default_options', 'set_options', 'prepare_simulation')))
        t = a.field(ME, 'basis')
        z = T('list', *[num(v) for v in (0, 0, 0, 1, 1, 1)])
        ctx.equal('basis', t, T('new', tstr('BSplineBasis'), z, num(2)), 'one quadratic piece over the normalised horizon', w)
    ctx.guard('basis', basis)

    def given():
        def setup(I, s):
            I.st[('f', s, 'n_dim')] = num(2)
            I.st[('f', s, 'options')] = I.new_dict([(tstr('spline_traj'), TRUE), (tstr('spline_params'), S('spline_params'))])
        a = run_method(ctx, 'ObstaclexD', 'init', [NONE], setup=setup)
        b = run_spec(ctx, 'obstacles.given_spline', 'ObstaclexD', [], setup=setup)
        ctx.equal('given', a.field(ME, 'pos_spline'), b.field(ME, 'pos_spline'), 'motion given as a spline', where)
    ctx.guard('given', given)

    def shape():
        a = run_method(ctx, 'ObstaclexD', 'init', [NONE])
        b = run_spec(ctx, 'obstacles.shape_parameters', 'ObstaclexD', [])
        for f in ('checkpoints', 'rad'):
            ctx.equal('shape.' + f, a.field(ME, f), b.field(ME, f), 'corner points and radii given to the optimiser', where)
    ctx.guard('shape', shape)


def values(ctx):
    ctx.rules.append('C06 value rule: the parameter values are the last measured position, velocity, acceleration and orientation, '
                     'and the corner points and radii of the shape.')
    for cls, spec in (('ObstaclexD', 'parameters'), ('Obstacle2D', 'parameters_2d'), ('Obstacle3D', 'parameters')):
        for st in (TRUE, FALSE):
            def setup(I, s):
                I.st[('f', s, 'options')] = I.new_dict([(tstr('spline_traj'), st), (tstr('spline_params'), S('spline_params'))])
            where = ctx.loc(cls, 'set_parameters')

            def go():
                a = run_method(ctx, cls, 'set_parameters', [S('current_time')], setup=setup)
                b = run_spec(ctx, 'obstacles.' + spec, cls, [S('current_time')], setup=setup)
                da, db = getentry(a.ret, ME), getentry(b.ret, ME)
                if da is None:
                    return ctx.unknown('%s.values' % cls, 'parameter values not resolved: %s' % short(a.ret), where)
                require_dict(ctx, '%s.values%d' % (cls, st is TRUE), da, db, 'parameter value', where)
            ctx.guard('%s.values' % cls, go)
    for cls, spec in (('ObstaclexD', 'set_state'), ('Obstacle2D', 'set_state_2d'), ('Obstacle3D', 'set_state')):
        where = ctx.loc(cls, 'set_state')

        def go():
            def setup(I, s):
                I.st[('f', s, 'signals')] = I.new_dict([])
            for full in (True, False):
                d = lambda I: [I.new_dict([(tstr(k), S('given_' + k)) for k in
                                           ('position', 'velocity', 'acceleration', 'orientation', 'angular_velocity')[:5 if full else 1]])]
                a = run_method(ctx, cls, 'set_state', d, setup=setup)
                b = run_spec(ctx, 'obstacles.' + spec, cls, d, setup=setup)
                require_dict(ctx, '%s.state%d' % (cls, full), a.field(ME, 'signals'), b.field(ME, 'signals'), 'imposed state', where)
        ctx.guard('%s.state' % cls, go)


def getentry(t, k):
    if t.op != 'dict':
        return None
    for x in t.args[1:]:
        if x.op == 'kv' and x.args[0] is k:
            return x.args[1]
    return None


def segments(ctx):
    """before the constraints of segment idx are posed, the obstacle predicts that very segment"""
    where = ctx.loc('Environment', 'define_collision_constraints')
    ctx.rules.append('C06 segment rule: the prediction of an obstacle is built for the durations of segments 0..idx before its '
                     'constraints of segment idx are posed.')
    for nseg, own in ((1, False), (2, False), (3, False), (2, True)):
        key = 'segments%d%s' % (nseg, 'own' if own else '')

        def go():
            hts = [S('T%d' % k) for k in range(nseg)]
            base = scene(ctx, 2, 2, nseg, own)

            def setup(I, s):
                base(I, s)
            a = run_method(ctx, 'Environment', 'define_collision_constraints',
                           lambda I: [S('vehicle'), S('splines'), I.new_list(hts)],
                           setup=setup, policy=event_only('define_collision_constraints', 'init'))
            obst = sorted(set(e.recv for e in a.events if e.name == '.init' and e.recv is not None), key=repr)
            if not obst:
                return ctx.unknown(key, 'no prediction found', where)
            if any(e.loops for e in a.events if e.name in ('.init', '.define_collision_constraints')):
                return ctx.unknown(key, 'loops not resolved', where)
            for o in obst:
                seg = {}
                for e in a.events:
                    if e.recv is not o or e.name not in ('.init', '.define_collision_constraints'):
                        continue
                    if e.name == '.init':
                        h = arg(e, 0, 'horizon_times') or NONE
                        m = members(h)
                        last = h, m, e
                        seg['init'] = last
                    else:
                        # to which segment do these constraints belong: the planes are those of the vehicle's next call
                        nxt = [v for v in a.events if v.seq > e.seq and v.name == '.define_collision_constraints' and v.recv is S('vehicle')]
                        if not nxt:
                            continue
                        T_ = arg(nxt[0], 3, 'horizon_time')
                        if T_ not in hts:
                            ctx.unknown(key, 'segment not identified', where)
                            continue
                        i = hts.index(T_)
                        k = '%s.%s.seg%d' % (key, short(o), i)
                        if 'init' not in seg:
                            ctx.bad(k, '%s poses constraints in segment %d before its prediction is built' % (short(o), i), where)
                            continue
                        h, m, ie = seg['init']
                        if m is None:
                            (ctx.unknown if decided(h, hts) or h.op not in ('none', 'sym') else ctx.bad)(k, 'durations given to the prediction: %s' % short(h), where)
                            continue
                        ctx.equal(k, T('list', *[x for _, x in m]), T('list', *hts[:i + 1]),
                                  '%s predicts segment %d' % (short(o), i), where)
        ctx.guard(key, go)


def rotation(ctx):
    where = ctx.loc('Obstacle2D', 'init')
    ctx.rules.append('C06 rotation rule: a still obstacle uses cos/sin of its orientation with unit weight; a rotating one the rational '
                     'representation of cos/sin(theta + omega t) with eight control values per turn.')
    om = getitem(getitem(attr(ME, 'signals'), tstr('angular_velocity')), T('tuple', T('slice', NONE, NONE, NONE), num(-1)))

    def go():
        def setup(I, s):
            I.st[('f', s, 'options')] = I.new_dict([(tstr('spline_traj'), FALSE), (tstr('horizon_time'), S('horizon'))])
        a = run_method(ctx, 'Obstacle2D', 'init', [NONE], setup=setup)
        b = run_spec(ctx, 'obstacles.still', 'Obstacle2D', [])
        for f in ('cos', 'sin', 'gon_weight'):
            t = a.field(ME, f)
            if t.op != 'ite':
                ctx.unknown('still.' + f, 'not distinguished: %s' % short(t), where)
                continue
            still = [(g, x) for g, x in leaves(t) if not any(y.op == 'new' for y in tm.subterms(x))]
            if not still:
                ctx.unknown('still.' + f, 'no value for a still obstacle', where)
                continue
            for g, x in still:
                ctx.equal('still.' + f, x, b.field(ME, f), 'orientation of an obstacle that does not rotate', where)
                z = eq0(om)
                if same(g, z) or g is z:
                    ctx.ok('still.%s.when' % f, 'used when the angular velocity is zero', where)
                elif decided(g, [z]):
                    ctx.unknown('still.%s.when' % f, 'condition not resolved: %s' % short(g), where)
                else:
                    ctx.bad('still.%s.when' % f, 'fixed orientation used when %s, specified when the angular velocity is zero' % short(g), where, g.dig)
        # rotating: numerators are combinations of two splines with cos and sin of theta0
        c, s = [moving(a.field(ME, f)) for f in ('cos', 'sin')]
        if c is None or s is None:
            return ctx.unknown('rotating', 'rotating orientation not resolved', where)
        dc, ds = angle_parts(c), angle_parts(s)
        if dc is None or ds is None:
            return ctx.unknown('rotating', 'rotating orientation not resolved into spline times cos/sin', where)
        (th1, cc, cs), (th2, sc, ss) = dc, ds
        b = run_spec(ctx, 'obstacles.rotating', 'Obstacle2D', [S('CW'), S('SW'), getitem(om, ZERO)])
        bc = angle_parts(b.field(ME, 'cos'))
        same_t = lambda x: rename_symbol(x)
        ctx.equal('rotating.theta', same_t(th1), same_t(bc[0]), 'orientation at the start of the horizon', where)
        ctx.equal('rotating.theta2', same_t(th2), same_t(bc[0]), 'orientation at the start of the horizon', where)
        # cos = CW cos - SW sin ; sin = CW sin + SW cos
        ctx.equal('rotating.cw', cc, ss, 'the same cosine spline multiplies cos(theta0) in cos and sin(theta0) in sin', where)
        ctx.equal('rotating.sw', neg(cs), sc, 'the same sine spline multiplies -sin(theta0) in cos and cos(theta0) in sin', where)
        w = moving(a.field(ME, 'gon_weight'))
        # knots: one double knot per quarter turn
        want = run_spec(ctx, 'obstacles.quarter_knots', 'Obstacle2D', [getitem(om, ZERO)], setup=setup).ret
        got = [x.args[1] for x in tm.subterms(w or NONE) if x.op == 'new' and x.args[0] is tstr('BSplineBasis') and len(x.args) > 1]
        got = [x for x in got if any(y.op == 'cat' for y in tm._pd(x) and [m[0] for mm in tm._pd(x) for m in mm])]
        ca = lambda x: set(m[0] for mm in tm._pd(x) for m in mm if m[0].op == 'cat')
        if len(got) == 1 and ca(got[0]) == ca(want):
            ctx.equal('rotating.knots', got[0], want, 'quarter turns in units of the horizon', where)
        else:
            ctx.unknown('rotating.knots', 'knots of the rotation not resolved', where)
        cw = [x for x in tm.subterms(want) if x.op == 'ceil']
        cg = [x for g in got for x in tm.subterms(g) if x.op == 'ceil']
        if len(set(cw)) == 1 and len(set(cg)) == 1:
            r = numval(div(cg[0].args[0], cw[0].args[0]))
            if r is None:
                ctx.unknown('rotating.quarters', 'number of quarter turns not resolved', where)
            elif r >= 1:
                ctx.ok('rotating.quarters', 'the knots cover the horizon', where)
            else:
                ctx.bad('rotating.quarters', 'only %s of the quarter turns of the horizon are provided' % r, where, str(r))
        for name, t in (('COS', cc), ('SIN', sc), ('WEIGHT', w)):
            tab = table(t)
            want = const_table(ctx, name)
            if tab is None or want is None:
                ctx.unknown('rotating.' + name, 'control values not resolved: %s' % short(t or NONE), where)
                continue
            sg, vals, per = tab
            if per != 8 or len(vals) < 8:
                ctx.bad('rotating.%s.period' % name, 'control values repeat every %s points, one turn has 8' % per, where, str(per))
                continue
            ctx.equal('rotating.' + name, T('list', *vals[:8]), T('list', *want), 'control values of one turn', where)
            if name == 'SIN':
                so = sign_of(getitem(om, ZERO))
                if sg is ONE:
                    ctx.bad('rotating.sense', 'the sense of rotation does not enter the sine spline', where)
                else:
                    ctx.equal('rotating.sense', sg, so, 'the sense of rotation multiplies the sine spline', where)
            else:
                ctx.equal('rotating.%s.factor' % name, sg, ONE, 'no other factor', where)
    ctx.guard('rotation', go)


def sign_of(x):
    return call('sign', x)


def rename_symbol(x):
    m = {y: T('sym', 'segment_time', 'notnone') for y in tm.subterms(x)
         if (y.op == 'attr' and y.args[0] is ME and y.args[1] == 't') or (y.op == 'mcall' and y.args[0] is tstr('define_symbol') and tstr('t') in y.args)}
    return tm.substitute(x, m)


def moving(t):
    r = [x for g, x in leaves(t) if any(y.op == 'new' for y in tm.subterms(x))]
    r = list(dict.fromkeys(r))
    return r[0] if len(r) == 1 else None


def angle_parts(t):
    """t = A*cos(th) + B*sin(th)  ->  (th, A, B)"""
    th = [y.args[0] for y in tm.subterms(t) if y.op in ('cos', 'sin') and len(y.args) == 1]
    th = list(dict.fromkeys(th))
    if len(th) != 1:
        return None
    c, s = T('cos', th[0]), T('sin', th[0])
    A, B = {}, {}
    for m, k in tm._pd(t).items():
        d = dict(m)
        for at, out in ((c, A), (s, B)):
            if d.get(at) == 1:
                mm = tuple((x, e) for x, e in m if x is not at)
                if any(x in (c, s) for x, e in mm):
                    return None
                out[mm] = out.get(mm, 0) + k
                break
        else:
            return None
    return th[0], tm._mk(A), tm._mk(B)


def table(t):
    """(factor, control values, period) of factor*BSpline(basis, T.dot([vals[k % n] ...]))"""
    if t is None:
        return None
    f, sp = ONE, t
    if t.op == 'poly':
        d = tm._pd(t)
        if len(d) != 1:
            return None
        (m, k), = d.items()
        sps = [x for x, e in m if x.op == 'new' and e == 1]
        if len(sps) != 1:
            return None
        sp = sps[0]
        f = tm._mk({tuple((x, e) for x, e in m if x is not sp): k})
    r = spline_leaf(sp)
    if r is None:
        return None
    for x in tm.subterms(r[1]):
        if x.op == 'getitem' and x.args[0].op in ('vec', 'list', 'tuple') and len(x.args[0].args) >= 8 and x.args[1].op == 'mod':
            n = numval(x.args[1].args[1])
            return f, list(x.args[0].args), None if n is None else int(n)
    return None


def const_table(ctx, name):
    m = ctx.prog.modules['spec.obstacles']
    I = ctx.interp()
    t = I.freeze(I.global_name(m, name))
    return list(t.args) if t.op in ('list', 'vec', 'tuple') else None


def run(ctx):
    prediction(ctx)
    values(ctx)
    segments(ctx)
    rotation(ctx)
    return 30
