"""C25: a solve starts from the plan it continues, and a restart from the straight way to the target."""
from ..behave import *
from ..terms import *
from .. import matrices
from . import c12
from .c04 import S, O
from .c07 import fleet, base_inline, CALLS
from .c14 import inline

ME = T('sym', 'self', 'notnone')
V = lambda *xs: T('vec', *xs)
GUESS = (('Holonomic', 'straight', 2, 2, 2), ('Holonomic3D', 'straight', 3, 3, 3), ('Holonomic1D', 'straight_spline', 1, 1, 1),
         ('HolonomicOrient', 'oriented', 3, 3, 3), ('Dubins', 'wheeled', 2, 3, 3), ('Bicycle', 'wheeled', 2, 4, 4), ('AGV', 'wheeled', 2, 4, 3),
         ('Quadrotor', 'padded', 2, 5, 2), ('Quadrotor3D', 'tilted', 3, 8, 5), ('SimpleQuadrotor3D', 'straight_simple', 3, 8, 3))


def run(ctx):
    ctx.rules.append('C25: the variables a solve starts from are those of the last plan, moved by the time that has passed, or after a restart those of '
                     'the straight way from the predicted state to the target, segment by segment and vehicle by vehicle.')
    guesses(ctx)
    steps(ctx)
    restarts(ctx)
    return 40


def vehicle(cls, n_spl, nx, ng, name='self', degree=1, intervals=4, n_seg=1, more=None):
    def st(I, s):
        c12.setup(I)
        case = c12.Case(degree, c12.widths(intervals))
        I.st[('f', s, 'basis')] = case.basis(I)
        I.st[('f', s, 'degree')] = num(degree)
        I.st[('f', s, 'n_spl')] = num(n_spl)
        I.st[('f', s, 'n_seg')] = num(n_seg)
        I.st[('f', s, 'prediction')] = I.new_dict([(tstr('state'), V(*[S('%s_s%d' % (name, k)) for k in range(nx)]))])
        for f in ('poseT', 'positionT'):
            I.st[('f', s, f)] = V(*[S('%s_g%d' % (name, k)) for k in range(ng)])
        if more:
            more(I, s)
    return st


def same(ctx, key, a, b, what, where):
    """two lists of arrays, compared entry by entry"""
    def flat(t):
        if t.op in ('list', 'tuple', 'vec'):
            return [x for u in t.args for x in flat(u)]
        return [t]

    def shape(t):
        if t.op in ('list', 'tuple', 'vec'):
            return (len(t.args),) + (tuple(shape(u) for u in t.args))
        return ()
    if a.op not in ('list', 'tuple', 'vec'):
        return ctx.equal(key, a, b, what, where)
    if shape(a) != shape(b):
        if any(x.op in ('opaque', 'call', 'mcall') for x in flat(a)):
            return ctx.unknown(key, 'not resolved', where)
        return ctx.bad(key, '%s: %s entries, expected %s' % (what, str(shape(a))[:60], str(shape(b))[:60]), where, 'shape')
    for i, (x, y) in enumerate(zip(flat(a), flat(b))):
        if ctx.equal('%s.%d' % (key, i), x, y, '%s, entry %d' % (what, i), where) is False:
            break


def guesses(ctx):
    for cls, sp, n_spl, nx, ng in GUESS:
        for degree, intervals in ((1, 4), (2, 4)):
            key = 'guess.%s.%d' % (cls, degree)
            n = num(degree + intervals)

            def go():
                st = vehicle(cls, n_spl, nx, ng, degree=degree, intervals=intervals)
                a = run_method(ctx, cls, 'get_init_spline_value', [], setup=st, policy=inline)
                b = run_spec(ctx, 'guess.' + sp, cls, [n], setup=st, policy=inline)
                same(ctx, key, a.ret, b.ret, 'first guess of a %s' % cls, ctx.loc(cls, 'get_init_spline_value'))
            ctx.guard(key, go)
    for ns in (2, 3):
        key = 'guess.segments%d' % ns

        def segments():
            st = vehicle('Holonomic', 2, 2, 2, n_seg=ns)
            goals = lambda I: I.new_list([V(S('sub%d_0' % k), S('sub%d_1' % k)) for k in range(ns - 1)])
            a = run_method(ctx, 'Holonomic', 'get_init_spline_value', lambda I: [goals(I)], setup=st, policy=inline)
            b = run_spec(ctx, 'guess.through', 'Holonomic', lambda I: [num(5), goals(I)], setup=st, policy=inline)
            same(ctx, key, a.ret, b.ret, 'first guess over %d segments' % ns, ctx.loc('Holonomic', 'get_init_spline_value'))
        ctx.guard(key, segments)
    for target in (True, False):
        key = 'guess.Trailer.%s' % ('target' if target else 'free')

        def trailer():
            def more(I, s):
                lead = T('sym', 'lead', 'notnone')
                I.types[lead] = I.prog.cls('Dubins')
                vehicle('Dubins', 2, 3, 3, name='lead')(I, lead)
                I.st[('f', s, 'lead_veh')] = lead
                if target:
                    I.st[('f', s, 'theta_trT')] = S('theta_trT')
                else:
                    I.st.pop(('f', s, 'theta_trT'), None)
                    I.absent = getattr(I, 'absent', set()) | {'theta_trT'}
            st = vehicle('Trailer', 3, 3, 3, more=more)
            a = run_method(ctx, 'Trailer', 'get_init_spline_value', [], setup=st, policy=inline)
            b = run_spec(ctx, 'guess.trailing', 'Trailer', [num(5)], setup=st, policy=inline)
            same(ctx, key, a.ret, b.ret, 'first guess of a trailer', ctx.loc('Trailer', 'get_init_spline_value'))
        ctx.guard(key, trailer)


def steps(ctx):
    args = [S('current_time'), S('update_time')]
    names = ('.transform_primal_splines', '.set_variables')
    for cls, sp, fields in (('FixedTPoint2point', 'loop.fixed_init_step', ('current_time_prev',)), ('FreeTPoint2point', 'loop.free_init_step', ()),
                            ('MultiFrameProblem', 'guess.frames_step', ()), ('GCodeProblem', 'guess.segments_step', ())):
        for n in ((1, 2, 3) if sp.startswith('guess') else (1,)):
            for prev in ((True, False) if cls.startswith(('Fixed', 'GCode')) else (True,)):
                key = 'step.%s%d%s' % (cls, n, '' if prev else '.first')

                def go():
                    def st(I, s):
                        fleet(1, n, n_frames=num(n), n_segments=num(n))(I, s)
                        f, v = ('current_time_prev', S('prev')) if cls.startswith('Fixed') else ('motion_time_guess', I.new_list([S('g%d' % k) for k in range(n)]))
                        if prev:
                            I.st[('f', s, f)] = v
                    where = ctx.loc(cls, 'init_step')
                    a = run_method(ctx, cls, 'init_step', args, setup=st, events=CALLS)
                    b = run_spec(ctx, sp, cls, args, setup=st, events=CALLS)
                    for r in (a, b):
                        applied(r, 3 if cls.startswith('Fixed') else 2)
                    require_events(ctx, key, a, b, names, 'start of a solve', where)
                    for f in fields:
                        ctx.equal('%s.%s' % (key, f), a.field(ME, f), b.field(ME, f), 'time of the last solve', where)
                ctx.guard(key, go)

    def transform():
        a = run_method(ctx, 'FixedTPoint2point', 'init_primal_transform', [S('basis')])
        b = run_spec(ctx, 'guess.over_knot', 'FixedTPoint2point', [S('basis')])
        ctx.equal('transform', a.ret, b.ret, 'the shift is over one knot', ctx.loc('FixedTPoint2point', 'init_primal_transform'))
    ctx.guard('transform', transform)


def applied(run, n):
    """the function handed to transform_primal_splines, by what it does to coefficients"""
    I = run.I
    I.policy = lambda q: 'inline' if 'lambda' in q or 'init_step' in q else 'pure'
    for e in run.events:
        if e.name == '.transform_primal_splines' and e.args:
            e.args = [I.freeze(I.apply(e.args[0], [S('coeffs'), S('basis'), S('matrix')][:n], {}))] + list(e.args[1:])


def restarts(ctx):
    names = ('.init_variables', '.init_parameters', '.set_variables')
    pol = base_inline('Problem.reinitialize')
    for cls, sp in (('FixedTPoint2point', 'restart'), ('FreeTPoint2point', 'restart'), ('MultiFrameProblem', 'restart_frames')):
        for n in (1, 2):
            for ns in ((1, 2, 3) if cls.startswith('Multi') else (1,)):
                for arg in ([], [S('father')]):
                    key = 'restart.%s%d.%d%s' % (cls, n, ns, 'f' if arg else '')

                    def go():
                        def st(I, s):
                            fleet(n, ns, n_frames=num(ns))(I, s)
                        where = ctx.loc(cls, 'reinitialize')
                        ev = CALLS + ('compute_rectangle_overlap_center',)
                        a = run_method(ctx, cls, 'reinitialize', arg, setup=st, policy=base_events(ev, 'Problem.reinitialize'))
                        b = run_spec(ctx, 'guess.' + sp, cls, arg, setup=st, policy=base_events(ev, 'Problem.reinitialize'))
                        require_events(ctx, key, a, b, names, 'restart', where)
                        require_order(ctx, key, a, 'init_variables', 'set_variables', where)
                    ctx.guard(key, go)
    for n in (1, 2):
        for ns in (1, 2):
            for given in (False, True):
                key = 'reset.%d.%d%s' % (n, ns, '.given' if given else '')

                def reset():
                    def st(I, s):
                        fleet(n, ns)(I, s)
                        for v in range(n):
                            I.st[('f', O('vehicle%d' % v), 'n_spl')] = num(2)
                        I.ret_models['obj:get_init_spline_value'] = I.ret_models['get_init_spline_value'] = lambda I, t, bound: I.new_list([V(V(T('attr', t, mkstr('x%d' % k)), T('attr', t, mkstr('y%d' % k))))
                                                                                               for k in range(ns)])
                    arr = [V(V(S('gx%d' % k), S('gy%d' % k))) for k in range(ns)]
                    args = lambda I: [I.new_list(arr)] if given else []
                    where = ctx.loc('Problem', 'reset_init_guess')

                    def setup(I, s):
                        matrices.install(I)
                        st(I, s)
                    a = run_method(ctx, 'Problem', 'reset_init_guess', args, setup=setup, events=CALLS)
                    b = run_spec(ctx, 'guess.reset_given' if given else 'guess.reset_own', 'Problem', args, setup=setup, events=CALLS)
                    require_events(ctx, key, a, b, ('.set_variables',), 'first guess after a reset', where)
                ctx.guard(key, reset)


def base_events(events, *inl):
    std = std_policy(events=events)
    return lambda q: 'inline' if any(q.endswith(x) for x in inl) else std(q)


from ..core import std_policy        # noqa
from .c07 import require_order       # noqa
