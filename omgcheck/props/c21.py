"""C21: the simulation loop around the updates keeps time and hands back what was simulated; the reported objective is that of the motion made."""
from ..behave import *
from ..terms import *
from .c04 import S, O
from .c07 import ME, base_inline, fleet, as_truth, require_order
from .. import matrices

EV = ('update', 'update_timing', 'final', 'reset', 'simulate', 'hard_stop', 'overrule_state', 'overrule_input', 'sleep', 'get_variables', 'store',
      'compute_partial_objective', 'reset_init_time', 'compute_objective', 'integral')
SIM, DEP = 'Simulator', 'Deployer'


def world(n, stops=(FALSE, TRUE), kind='FixedTPoint2point', step=None):
    """a simulator of n vehicles; every update moves the signals, every advance of the clock the time"""
    def f(I, s):
        matrices.install(I)
        p = O('problem')
        I.types[p] = I.prog.cls(kind)
        vs = [O('vehicle%d' % k) for k in range(n)]
        dep = O('deployer')
        I.types[dep] = I.prog.cls(DEP)
        for k, v in enumerate(vs):
            I.types[v] = I.prog.cls('Holonomic')
        I.st[('f', s, 'problem')] = p
        I.st[('f', s, 'deployer')] = dep
        I.st[('f', s, 'sample_time')] = num(step) if step else S('sample_time')
        I.st[('f', s, 'current_time')] = S('now0')
        I.st[('f', p, 'vehicles')] = I.new_list(vs)
        count = [0, 0]

        def moved():
            count[0] += 1
            for k, v in enumerate(vs):
                I.st[('f', v, 'signals')] = O('signals%d_%d' % (k, count[0]))
                I.st[('f', v, 'traj_storage')] = O('storage%d_%d' % (k, count[0]))
                I.st[('f', v, 'trajectories')] = O('trajectories%d_%d' % (k, count[0]))
        moved()

        def update(I_, t, bound):
            moved()
            return stops[min(count[0] - 2, len(stops) - 1)]

        def clock(I_, t, bound):
            count[1] += 1
            I_.st[('f', s, 'current_time')] = S('now%d' % count[1])
            return NONE

        def simulate(I_, t, bound):
            moved()
            return NONE
        I.ret_models['update'] = update
        I.ret_models['update_timing'] = clock
        I.ret_models['simulate'] = simulate
        I.ret_models['hard_stop'] = simulate
    return f


def two(ctx, cls, method, spec, args, setup, policy=None, events=EV, kwargs=None):
    where = ctx.loc(cls, method)
    a = run_method(ctx, cls, method, args, kwargs=kwargs, setup=setup, policy=policy, events=events)
    b = run_spec(ctx, 'running.' + spec, cls, args, kwargs=kwargs, setup=setup, policy=policy, events=events)
    return a, b, where


def opaque(names):
    """calls which are not entered here"""
    std = std_policy(events=EV)

    def p(q):
        if q.split('.')[-1] in names:
            return 'event'
        return std(q)
    return p


def run(ctx):
    ctx.rules.append('C21: Simulator.run/step/run_once/hard_stop/sleep, Deployer.update and the objective of a point-to-point problem are compared with a '
                     'specification: calls, their order and arguments, the clock, and what is returned.')
    loop(ctx)
    single(ctx)
    objective(ctx)
    slacks(ctx)
    rest(ctx)
    index(ctx)
    deployed(ctx)
    return 45


def loop(ctx):
    for n in (1, 2):
        for name, stops in (('1', (TRUE,)), ('2', (FALSE, TRUE)), ('3', (FALSE, FALSE, TRUE))):
            key = 'run%d.%s' % (n, name)

            def go():
                a, b, w = two(ctx, SIM, 'run', 'simulation', [], world(n, stops, step='0.01'))
                require_events(ctx, key, a, b, ('.update', '.update_timing', '.final', '.reset'), 'the loop', w)
                for x, y in (('reset', 'update'), ('update', 'final'), ('update_timing', 'final')):
                    require_order(ctx, key, a, x, y, w)
                ctx.equal(key + '.ret', a.ret, b.ret, 'trajectories and signals handed back', w)
            ctx.guard(key, go)
        for kind, spec in (('FixedTPoint2point', 'fixed_step'), ('FreeTPoint2point', 'free_step')):
            for stop in (TRUE, FALSE):
                key = 'step%d.%s.%s' % (n, kind, 'stop' if stop is TRUE else 'go')

                def go():
                    a, b, w = two(ctx, SIM, 'step', spec, [S('update_time')], world(n, (stop,), kind))
                    require_events(ctx, key, a, b, ('.update', '.update_timing', '.final'), 'one step', w)
                    require_order(ctx, key, a, 'update', 'update_timing', w)
                    ctx.equal(key + '.ret', a.ret, b.ret, 'state, time, motion time, stop flag, trajectories and signals', w)
                ctx.guard(key, go)


def single(ctx):
    for n in (1, 2):
        for name, args, kw in (('plan', [FALSE], None), ('whole', [], None), ('stopped', [], lambda I: {'hard_stop': I.new_dict(
                [(tstr('time'), S('stop_time')), (tstr('perturbation'), S('perturbation'))])})):
            key = 'once%d.%s' % (n, name)

            def go():
                w = ctx.loc(SIM, 'run_once')
                runs = []
                for spec in (False, True):
                    box = {}

                    def st(I, s):
                        world(n)(I, s)
                        if kw:
                            box['kw'] = kw(I)
                    runs.append(call_kw(ctx, spec, st, args, box))
                a, b = runs
                require_events(ctx, key, a, b, ('.reset', '.update', '.simulate', '.hard_stop', '.final', '.update_timing'), 'one planned motion', w)
                for x, y in (('reset', 'update'), ('update', 'simulate'), ('update', 'hard_stop'), ('simulate', 'final'), ('simulate', 'update_timing'),
                             ('hard_stop', 'final'), ('hard_stop', 'update_timing')):
                    if {'.' + x, '.' + y} <= set(e.name for e in b.events):
                        require_order(ctx, key, a, x, y, w)
                ctx.equal(key + '.ret', a.ret, b.ret, 'trajectories handed back', w)
            ctx.guard(key, go)

        def stop():
            key = 'hard%d' % n
            args = [S('current_time'), S('stop_time'), S('perturbation')]
            a, b, w = two(ctx, SIM, 'hard_stop', 'hard_stop', args, world(n))
            require_events(ctx, key, a, b, ('.simulate', '.overrule_state', '.overrule_input'), 'an abrupt stop', w)
            require_order(ctx, key, a, 'simulate', 'overrule_state', w)
        ctx.guard('hard%d' % n, stop)

        def asleep():
            key = 'sleep%d' % n
            a, b, w = two(ctx, SIM, 'sleep', 'sleep', [S('sleep_time')], world(n))
            require_events(ctx, key, a, b, ('.sleep', '.update_timing'), 'waiting', w)
            require_order(ctx, key, a, 'sleep', 'update_timing', w)
        ctx.guard('sleep%d' % n, asleep)


def call_kw(ctx, spec, st, args, box):
    """the keyword arguments are built in the interpreter of the call"""
    kws = {}

    def setup(I, s):
        st(I, s)
        kws.update({k: v for k, v in (box.get('kw') or {}).items()})
    if spec:
        return run_spec(ctx, 'running.once', SIM, args, kwargs=kws, setup=setup, events=EV)
    return run_method(ctx, SIM, 'run_once', args, kwargs=kws, setup=setup, events=EV)


def goals(n, counts=(2, 1)):
    def f(I, s):
        fleet(n)(I, s)
        I.st[('f', s, 'term_con_len')] = I.new_list([num(counts[k]) for k in range(n)])
    return f


def objective(ctx):
    cls = 'FixedTPoint2point'
    for n in (1, 2):
        for m, spec, args in (('compute_partial_objective', 'partial', [S('current_time'), S('update_time')]), ('compute_objective', 'objective', [])):
            key = '%s.%s%d' % (cls, m, n)

            def go():
                ev = [e for e in EV if e not in ('compute_partial_objective', 'compute_objective')]
                a, b, w = two(ctx, cls, m, spec, args, goals(n), events=ev)
                if m == 'compute_objective':
                    ctx.equal(key, a.ret, b.ret, 'reported objective', w)
                else:
                    ctx.equal(key, a.field(ME, 'objective'), b.field(ME, 'objective'), 'objective of the motion made so far', w)
            ctx.guard(key, go)
    sim = [S('current_time'), S('simulation_time'), S('sample_time')]
    for cls, spec in (('FixedTPoint2point', 'fixed_counted'), ('FreeTPoint2point', 'free_counted')):
        for init in (NONE, S('init_time')):
            key = '%s.counted.%s' % (cls, 'init' if init is not NONE else 'run')

            def go():
                a, b, w = two(ctx, cls, 'simulate', spec, sim, fleet(1, init_time=init))
                require_events(ctx, key, a, b, ('.compute_partial_objective',), 'the motion counted', w)
            ctx.guard(key, go)

    def free():
        cls = 'FreeTPoint2point'
        a = run_method(ctx, cls, 'compute_partial_objective', [S('current_time')], events=())
        w = ctx.loc(cls, 'compute_partial_objective')
        ctx.equal('free.partial', a.field(ME, 'objective'), S('current_time'), 'motion time so far', w)
        a = run_method(ctx, cls, 'compute_objective', [], setup=lambda I, s: I.st.__setitem__(('f', s, 'objective'), S('objective')), events=())
        ctx.equal('free.objective', a.ret, S('objective'), 'reported objective', ctx.loc(cls, 'compute_objective'))
    ctx.guard('free', free)


def slacks(ctx):
    """the objective is read from the slack variables that were declared"""
    from .c02 import problem, CONDITIONS
    for cls in ('FixedTPoint2point', 'FreeEndPoint2point'):
        for n in (1, 2, 3):
            key = '%s.slacks%d' % (cls, n)

            def go():
                names = []
                options = {'hard_term_con': FALSE, 'no_term_con_der': FALSE}
                a = run_method(ctx, cls, 'define_terminal_constraints', [], setup=problem(n, 1, None, 'all' if cls == 'FreeEndPoint2point' else None, names, **options),
                               events=CONDITIONS)
                counts = a.field(ME, 'term_con_len')

                def st(I, s):
                    fleet(n)(I, s)
                    I.st[('f', s, 'term_con_len')] = counts
                    I.st[('f', s, 'objective')] = ZERO
                b = run_method(ctx, cls, 'compute_objective', [], setup=st, events=EV)
                w = ctx.loc(cls, 'define_terminal_constraints')
                declared = set(x for x, _ in names)
                read = [e.args[1] if len(e.args) > 1 else e.kw.get('name') for e in b.events if e.name == '.get_variables']
                if not declared or not read or any(x is None or x.op != 'str' for x in list(declared) + read):
                    return ctx.unknown(key, 'names not resolved', w)
                if declared == set(read):
                    ctx.ok(key, '%d slack variables' % len(declared), w)
                else:
                    odd = sorted(short(x) for x in declared ^ set(read))[0]
                    ctx.bad(key, 'slack variables declared and read for the objective differ: %s' % odd, w, '')
            ctx.guard(key, go)


def rest(ctx):
    """a vehicle that waits keeps the last point of its plan"""
    for n in (1, 2):
        key = 'rest%d' % n

        def go():
            def st(I, s):
                fleet(n)(I, s)
                matrices.install(I)
                I.types[attr(s, 'father')] = I.prog.cls('OptiFather')

                def splines(I_, t, bound):
                    if bound.get('spline', TRUE) is FALSE:
                        return T('vec', *[T('vec', *[getitem(t, num(2*j + k)) for k in range(2)]) for j in range(3)])
                    out = [T('getitem', t, num(k)) for k in range(2)]
                    for o in out:
                        I_.types[o] = I_.prog.cls('BSpline')
                    return I_.new_list(out)
                I.ret_models['get_variables'] = splines
            args = [S('current_time'), S('sleep_time'), S('sample_time')]
            a, b, w = two(ctx, 'Problem', 'sleep', 'problem_sleep', args, st, policy=base_inline('problem.Problem.simulate'))
            require_events(ctx, key, a, b, ('.store', '.simulate'), 'waiting', w)
            require_order(ctx, key, a, 'store', 'simulate', w)
            got = {k: a.I.freeze(v) for k, v in a.st.items() if k[0] == 'f' and k[2] == 'coeffs'}
            exp = {k: b.I.freeze(v) for k, v in b.st.items() if k[0] == 'f' and k[2] == 'coeffs'}
            for j, k in enumerate(sorted(exp, key=str)):
                ctx.equal('%s.%d' % (key, j), got.get(k, T('attr', k[1], 'coeffs')), exp[k], 'a constant plan at the last point', w)
        ctx.guard(key, go)


def deployed(ctx):
    """an update hands back the plan it stored"""
    for n in (1, 2):
        key = 'deployed%d' % n

        def go():
            vs = [O('vehicle%d' % k) for k in range(n)]
            new = [O('new%d' % k) for k in range(n)]

            def st(I, s):
                world(n)(I, s)

                def store(I_, t, bound):
                    for k, v in enumerate(vs):
                        I_.st[('f', v, 'trajectories')] = new[k]
                    return NONE
                I.ret_models['store'] = store
            a = run_method(ctx, DEP, 'update', [S('current_time')], setup=st, events=EV + ('initialize', 'predict', 'solve'))
            w = ctx.loc(DEP, 'update')

            def after(I, s):
                world(n)(I, s)
                for k, v in enumerate(vs):
                    I.st[('f', v, 'trajectories')] = new[k]
            b = run_spec(ctx, 'running.deployed', DEP, [S('current_time')], setup=after)
            ctx.equal(key, a.ret, b.ret, 'the new plan of every vehicle', w)
        ctx.guard(key, go)


def index(ctx):
    """the sample nearest to a time"""
    for t, k in (('0', 0), ('0.04', 0), ('0.06', 1), ('0.11', 1), ('0.19', 2), ('0.2', 2)):
        key = 'index.' + t

        def go():
            def st(I, s):
                matrices.install(I)
                times = T('vec', num(0), num('0.1'), num('0.2'))
                I.st[('f', s, 'time')] = times
                I.st[('f', s, 'sample_time')] = num('0.1')

                def least(I_, a, kw):
                    x = I_.freeze(a[0])
                    v = [numval(y) for y in x.args] if x.op in ('vec', 'list') else [None]
                    return num(v.index(min(v))) if None not in v else None
                I.extra['argmin'] = least
            a = run_method(ctx, SIM, 'time2index', [num(t)], setup=st)
            ctx.equal(key, a.ret, num(k), 'nearest sample', ctx.loc(SIM, 'time2index'))
        ctx.guard(key, go)
