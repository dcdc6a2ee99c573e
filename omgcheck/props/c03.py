"""C03: state, input and pose signals describe the motion of the optimised splines and are consistent
with the dynamics the simulator integrates."""
from ..behave import *
from .c01 import splines, LIMITS

ODE = {'Holonomic': 'integrator', 'Holonomic1D': 'integrator', 'Holonomic3D': 'integrator', 'HolonomicOrient': 'integrator',
       'Tool': 'integrator', 'Dubins': 'unicycle', 'Bicycle': 'bicycle', 'AGV': 'agv', 'Quadrotor': 'quadrotor',
       'Quadrotor3D': 'quadrotor3d', 'SimpleQuadrotor3D': 'quadrotor3d', 'Trailer': 'trailer'}
POSE = {'Holonomic': 'planar', 'Holonomic1D': 'line', 'Holonomic3D': 'space', 'Tool': 'space', 'HolonomicOrient': 'state',
        'Dubins': 'state', 'Bicycle': 'first3', 'AGV': 'first3', 'Quadrotor': 'quadrotor', 'Quadrotor3D': 'quadrotor3d',
        'SimpleQuadrotor3D': 'quadrotor3d', 'Trailer': 'trailer'}
SIZE = {'Trailer': 6}


def run(ctx):
    ctx.rules.append('C03: state/input/pose signals, state-to-pose map and dynamics equal the vehicle model in normal form.')
    s = lambda n: T('sym', n, 'notnone')
    for cls, _, n in LIMITS:
        compare_method(ctx, cls + '.ode', cls, 'ode', 'signals.ode_' + ODE[cls], [s('state'), s('input')], what=cls + ' dynamics')
        compare_method(ctx, cls + '.pose', cls, 'state2pose', 'signals.pose_' + POSE[cls], [s('state')], what=cls + ' pose')
        if cls not in ('Bicycle', 'AGV'):
            where = ctx.loc(cls, 'splines2signals')

            def go():
                a = run_method(ctx, cls, 'splines2signals', [splines(n), s('time')])
                b = run_spec(ctx, 'signals.signals_' + cls.lower(), cls, [splines(n), s('time')])
                require_dict(ctx, cls + '.signals', a.ret, b.ret, cls + ' signal', where)
            ctx.guard(cls + '.signals', go)
        else:
            where = ctx.loc(cls, 'splines2signals')

            def go2():
                a = run_method(ctx, cls, 'splines2signals', [splines(n), s('time')])
                b = run_spec(ctx, 'signals.input_' + cls.lower(), cls, [splines(n), s('time')])
                d = {x.args[0].args[0]: x.args[1] for x in a.ret.args[1:] if x.op == 'kv'}
                V, delta, ddelta, heading, x, y = b.ret.args
                for nm, v, sig in (('speed', V, 'input'), ('steering rate', ddelta, 'input'), ('steering angle', delta, 'state'),
                                   ('heading', heading, 'state')):
                    require_inside(ctx, '%s.signals.%s' % (cls, nm.replace(' ', '_')), d[sig], v, '%s %s signal' % (cls, nm), where)
                for nm, v in (('x', x), ('y', y)):
                    require_inside(ctx, '%s.signals.%s' % (cls, nm), d['state'], v, '%s position %s' % (cls, nm), where)
            ctx.guard(cls + '.signals', go2)
    return 30
