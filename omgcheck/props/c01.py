"""C01: kinematic limits.  Every inequality of the vehicle model must be entailed by the constraints
the vehicle declares, with the right power of the horizon time, for both signs and every axis."""
from ..behave import *

LIMITS = [  # class, spec, number of splines, floor of inequalities
    ('Holonomic', 'limits_holonomic', 2), ('Holonomic1D', 'limits_holonomic1d', 1), ('Holonomic3D', 'limits_holonomic3d', 3),
    ('HolonomicOrient', 'limits_holonomicorient', 3), ('Dubins', 'limits_dubins', 2), ('Bicycle', 'limits_bicycle', 2),
    ('AGV', 'limits_agv', 2), ('Quadrotor', 'limits_quadrotor', 2), ('Quadrotor3D', 'limits_quadrotor3d', 3),
    ('SimpleQuadrotor3D', 'limits_simplequadrotor3d', 3), ('Tool', 'limits_tool', 3), ('Trailer', 'limits_trailer', 3)]


def splines(n):
    return T('list', *[T('sym', 'spl%d' % k, 'notnone') for k in range(n)])


def run(ctx):
    ctx.rules.append('C01: specified inequalities (normal form, up to a positive factor) are a subset of the imposed ones, '
                     'under at least the specified option branch.')
    for cls, spec, n in LIMITS:
        where = ctx.loc(cls, 'define_trajectory_constraints')

        def go():
            a = run_method(ctx, cls, 'define_trajectory_constraints', [splines(n), T('sym', 'T', 'notnone')])
            s = run_spec(ctx, 'vehicles.' + spec, cls, [splines(n), T('sym', 'T', 'notnone')])
            require_constraints(ctx, cls, a, s, cls + ' limit', where)
        ctx.guard(cls, go)
        bounds(ctx, cls)
    models(ctx, ('.define_trajectory_constraints', '.define_constraint'), 'limits on every segment of every vehicle, over positive durations', order=False)
    return 40


S = lambda n: T('sym', n, 'notnone')
O = lambda n: T('sym', n, 'notnone', 'object')
ME = T('sym', 'self', 'notnone')
PROBLEMS = (('FixedTPoint2point', 'fixed'), ('FreeEndPoint2point', 'fixed'), ('FreeTPoint2point', 'free'), ('MultiFrameProblem', 'frames'),
            ('GCodeProblem', 'gcode'))
STEPS = ('define_trajectory_constraints', 'define_collision_constraints', 'define_intervehicle_collision_constraints', 'define_init_constraints',
         'define_terminal_constraints', 'define_connection_constraints', 'define_splines', 'init')


def models(ctx, names, what, order=True, prefix='model'):
    """what every problem imposes when it is built, for one and two vehicles and one to three segments"""
    for cls, spec in PROBLEMS:
        where = ctx.loc(cls, 'construct')
        for nv in ((1,) if spec == 'gcode' else (1, 2, 3)):
            for ns in ((1, 2, 3) if spec in ('frames', 'gcode') else (1,)):
                for avoid in ((TRUE, FALSE) if nv == 2 and spec != 'gcode' else (TRUE,)):
                    key = '%s.%s%d.%d%s' % (prefix, cls, nv, ns, '' if avoid is TRUE else 'n')

                    def setup(I, s):
                        vs = [O('veh%d' % k) for k in range(nv)]
                        ys = {}
                        for v in vs:
                            I.types[v] = I.prog.cls('Tool' if spec == 'gcode' else 'Holonomic')
                            I.st[('f', v, 'n_seg')] = num(ns)
                            ys[v] = [S('y_%s_seg%d' % (v.args[0], k)) for k in range(ns)]
                        env = attr(ME, 'environment')
                        I.types[env] = I.prog.cls('Environment')
                        I.st[('f', env, 'room')] = I.new_list([S('room%d' % k) for k in range(ns)])
                        I.st[('f', s, 'vehicles')] = I.new_list(vs)
                        I.st[('f', s, 'n_frames')] = I.st[('f', s, 'n_segments')] = num(ns)
                        I.st[('f', s, 'options')] = I.new_dict([(tstr('inter_vehicle_avoidance'), avoid), (tstr('verbose'), ZERO)])

                        def segments(I, t, bound):
                            v = t.args[1] if t.op == 'mcall' else t
                            if bound.get('n_seg') is not num(ns):
                                return t
                            return I.new_list(ys[v]) if v in ys else t
                        I.ret_models['define_splines'] = segments

                    def go():
                        a = run_method(ctx, cls, 'construct', [], setup=setup, events=STEPS)
                        b = run_spec(ctx, 'imposed.model_' + spec, cls, [], setup=setup, events=STEPS)
                        require_events(ctx, key, a, b, names, what, where, forbid_extra=False, kws=KW)
                    ctx.guard(key, go)


# (the G-code problem lets the outermost coefficients free by `skip`)
KW = ('splines', 'segment', 'horizon_time', 'horizon_times', 'vehicle', 'vehicles', 'hyperplanes', 'room', 'expr', 'lb', 'ub')


POSITIONAL = {'Holonomic3D': ['shapes'], 'Tool': ['tolerance'], 'Trailer': ['lead_veh']}


def bounds(ctx, cls):
    """the limits used are the ones the user passed, else the default"""
    where = ctx.loc(cls, '__init__')

    def go():
        me = T('sym', 'self', 'notnone')
        args = [T('sym', n, 'notnone') for n in POSITIONAL.get(cls, [])]
        kw = {'options': T('sym', 'options'), 'bounds': T('sym', 'bounds')}
        a = run_method(ctx, cls, '__init__', args, dict(kw), events=('define_knots',))
        b = run_spec(ctx, 'bounds.bounds_' + cls.lower(), cls, [T('sym', 'bounds'), T('sym', 'options')])
        fields = sorted(k[2] for k in b.st if k[0] == 'f' and k[1] is me and k[2] != 'options')
        for f in fields:
            ctx.equal('%s.bounds.%s' % (cls, f), a.field(me, f), b.field(me, f), '%s limit %s' % (cls, f), where)
        for f, v in zip(POSITIONAL.get(cls, []), args):
            pass
    ctx.guard(cls + '.bounds', go)

