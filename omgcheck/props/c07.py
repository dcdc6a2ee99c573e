"""C07: one control update predicts, solves, stores and simulates in that order, with the data meant for it."""
from ..behave import *
from ..terms import *
from ..core import std_policy
from .c04 import S, O

ME = T('sym', 'self', 'notnone')
ARGS = ('current_time', 'update_time', 'sample_time')
CALLS = ('init_step', 'set_variables', 'reset_init_guess', 'get_variables', 'set_parameters', 'update_bounds', 'set_dual_variables', 'predict',
         'solve', 'store', 'initialize', 'problem', 'simulate', 'stop_criterium', 'final', 'update', 'update_timing', 'reset',
         'check_terminal_conditions', 'transform_primal_splines', 'compute_partial_objective', 'update_plots', 'reset_init_time',
         'reinitialize', 'init_variables', 'init_parameters', 'get_init_spline_value')


def fleet(n, n_seg=1, **fields):
    def f(I, s):
        vs = [O('vehicle%d' % k) for k in range(n)]
        for v in vs:
            I.types[v] = I.prog.cls('Vehicle')
            I.st[('f', v, 'n_seg')] = num(n_seg)
        I.st[('f', s, 'vehicles')] = I.new_list(vs)
        for k, v in fields.items():
            I.st[('f', s, k)] = v
    return f


def as_truth(t):
    """truth value of a product of truth values"""
    def f(x):
        if x.op == 'poly' and len(x.args) == 1 and x.args[0][1] > 0:
            r = TRUE
            for a, e in x.args[0][0]:
                r = band(r, truth(a))
            return r
        return truth(x)
    return lift(f, t)


def base_inline(*inline):
    """a call of the base class version is part of the method itself"""
    std = std_policy(events=CALLS)

    def p(q):
        if any(q.endswith(x) for x in inline):
            return 'inline'
        return std(q)
    return p


def require_order(ctx, key, run, first, second, where):
    """every `first` happens before every `second` in the same call"""
    a = [k for k, e in enumerate(run.events) if e.name.lstrip('.') == first]
    b = [k for k, e in enumerate(run.events) if e.name.lstrip('.') == second]
    ob = '%s/%s<%s' % (key, first, second)
    if not a or not b:
        return ctx.unknown(ob, '%s or %s not called here' % (first, second), where)
    E = run.events
    again = lambda i: E[i].loops and any(j > i and E[j].loops == E[i].loops for j in b)     # a later iteration
    late = [(i, j) for i in a for j in b if i > j and band(E[i].pc, E[j].pc) is not FALSE and not again(i)]
    if not late:                # within a loop: preceded by one of the same iteration
        late = [(a[0], j) for j in b if not any(i < j and (not E[j].loops or not E[i].loops or E[i].loops == E[j].loops) for i in a)]
    if late:
        i, j = late[0]
        ctx.bad(ob, '`%s` at %s comes after `%s` at %s' % (short_ev(run.events[i]), run.events[i].where, short_ev(run.events[j]), run.events[j].where),
                where, first + second)
    else:
        ctx.ok(ob, '%s before %s' % (first, second), where)


def pair(ctx, key, cls, method, spec, args, setup=None, policy=None, events=CALLS):
    where = ctx.loc(cls, method)
    a = run_method(ctx, cls, method, args, setup=setup, policy=policy, events=events)
    b = run_spec(ctx, 'loop.' + spec, cls, args, setup=setup, policy=policy, events=events)
    return a, b, where


def run(ctx):
    ctx.rules.append('C07: the calls of one control update, their arguments and their order; the time anchor handed to the optimiser, to the stored plan '
                     'and to the simulation is the same; the shift of the warm start is the elapsed time.')
    args = [S(x) for x in ARGS]

    def solve():
        a, b, w = pair(ctx, 'solve', 'Problem', 'solve', 'solve', args[:2])
        require_events(ctx, 'solve', a, b, ('.init_step', '.set_parameters', '.update_bounds', '.problem', '.set_variables', '.set_dual_variables',
                                            '.reset_init_guess'), 'solving', w)
        for x, y in (('init_step', 'get_variables'), ('get_variables', 'problem'), ('set_parameters', 'problem'), ('update_bounds', 'problem'),
                     ('problem', 'set_variables'), ('problem', 'set_dual_variables'), ('set_variables', 'reset_init_guess')):
            require_order(ctx, 'solve', a, x, y, w)
    ctx.guard('solve', solve)

    # --- predict: every vehicle from its own measured state
    for n, st, es in [(n, st, es) for n in (1, 2) for st in ('none', 'own') for es in (TRUE, FALSE)]:
        key = 'predict%d.%s%s' % (n, st, '.enforced' if es is TRUE else '')

        def predict():
            def a_(I):
                g = []
                for x in ('state', 'input', 'dinput'):
                    if st == 'none':
                        g.append(NONE)
                    else:
                        items = [I.new_list([S('%s%d%d' % (x, k, j)) for j in range(2)]) for k in range(n)]
                        g.append(I.new_list(items))
                return [S('current_time'), S('predict_time'), S('sample_time')] + g + [S('delay'), es, S('enforce_inputs')]
            a, b, w = pair(ctx, key, 'Problem', 'predict', 'predict', a_, setup=fleet(n))
            require_events(ctx, key, a, b, ('.predict',), 'prediction of every vehicle', w)
        ctx.guard(key, predict)
    def bare():
        # one vehicle: its measurement may be given without a list around it
        def args(I, wrap):
            g = [O(x) for x in ('state', 'input', 'dinput')]         # arrays: of a class that is no list
            for x in g:
                I.types[x] = I.prog.cls('Vehicle')
            return [S('current_time'), S('predict_time'), S('sample_time')] + [I.new_list([x]) if wrap else x for x in g] + [S('delay'), FALSE, FALSE]
        w = ctx.loc('Problem', 'predict')
        a = run_method(ctx, 'Problem', 'predict', lambda I: args(I, False), setup=fleet(1), events=CALLS)
        b = run_spec(ctx, 'loop.predict', 'Problem', lambda I: args(I, True), setup=fleet(1), events=CALLS)
        require_events(ctx, 'predict1.bare', a, b, ('.predict',), 'prediction of the only vehicle', w)
        a = run_method(ctx, 'Problem', 'predict', args_[:3], setup=fleet(1), events=CALLS)
        b = run_spec(ctx, 'loop.predict', 'Problem', args_[:3], setup=fleet(1), events=CALLS)
        require_events(ctx, 'predict1.default', a, b, ('.predict',), 'prediction without measurement', w)
    args_ = [S('current_time'), S('predict_time'), S('sample_time')]
    ctx.guard('predict1.bare', bare)

    for cls in ('FixedTPoint2point', 'FreeTPoint2point'):
        def first():
            a, b, w = pair(ctx, cls + '.first', cls, 'initialize', 'initialize', args[:1], policy=base_inline('.initialize'))
            ctx.equal(cls + '.start_time', a.field(ME, 'start_time'), b.field(ME, 'start_time'), 'the deployment starts now', w)
        ctx.guard(cls + '.first', first)
    # --- deployment
    for step in (NONE, S('update_time')):
        key = 'deploy.%s' % ('given' if step is not NONE else 'own')

        def deploy():
            a_ = [S(x) for x in ('current_time', 'states', 'inputs', 'dinputs')] + [step, S('enforce_states'), S('enforce_inputs')]
            st = lambda I, s: (fleet(1)(I, attr(ME, 'problem')), None)
            a, b, w = pair(ctx, key, 'Deployer', 'update', 'deploy', a_, setup=st)
            require_events(ctx, key, a, b, ('.initialize', '.predict', '.solve', '.store'), 'update', w)
            for x, y in (('initialize', 'predict'), ('predict', 'solve'), ('solve', 'store')):
                require_order(ctx, key, a, x, y, w)
            for f in ('current_time', 'iteration0'):
                ctx.equal('%s.%s' % (key, f), a.field(ME, f), b.field(ME, f), 'deployer keeps %s' % f, w)
        ctx.guard(key, deploy)

    def redeploy():
        a, b, w = pair(ctx, 'reset', 'Deployer', 'reset', 'redeploy', [])
        require_events(ctx, 'reset', a, b, ('.reinitialize',), 'restart', w)
        ctx.equal('reset.first', a.field(ME, 'iteration0'), TRUE, 'the next update is a first update', w)
    ctx.guard('reset', redeploy)
    # --- simulator
    def update():
        a, b, w = pair(ctx, 'simulator', 'Simulator', 'update', 'simulator_update', [])
        require_events(ctx, 'simulator', a, b, ('.update', '.simulate', '.stop_criterium'), 'simulated update', w)
        ctx.equal('simulator.ret', a.ret, b.ret, 'stop flag', w)
        require_order(ctx, 'simulator', a, 'update', 'simulate', w)
        require_order(ctx, 'simulator', a, 'simulate', 'stop_criterium', w)
    ctx.guard('simulator', update)

    def simulate_run():
        w = ctx.loc('Simulator', 'run')
        a = run_method(ctx, 'Simulator', 'run', [], events=CALLS)
        for x, y in (('reset', 'update'), ('update', 'final'), ('update', 'update_timing')):
            require_order(ctx, 'run', a, x, y, w)
    ctx.guard('run', simulate_run)
    for step in (NONE, S('update_time')):
        key = 'timing.%s' % ('given' if step is not NONE else 'own')
        compare_method(ctx, key, 'Simulator', 'update_timing', 'loop.update_timing', [step], observe=(), fields=('time', 'current_time'), what='clock')

    # --- problems
    for n in (1, 2):
        for cls, pre, extra in (('FixedTPoint2point', 'fixed', ()), ('FreeTPoint2point', 'free', ())):
            for init in (NONE, S('init_time')):
                key = '%s%d.%s' % (cls, n, 'init' if init is not NONE else 'run')
                st = fleet(n, init_time=init)

                def parameters():
                    a, b, w = pair(ctx, key, cls, 'set_parameters', pre + '_parameters', [S('current_time')], setup=st,
                                   policy=base_inline('Problem.set_parameters'))
                    inner_dict(ctx, key + '.parameters', a, b, w)
                if n == 1:
                    ctx.guard(key + '.parameters', parameters)

                def store():
                    a, b, w = pair(ctx, key, cls, 'store', pre + '_store', args, setup=st)
                    require_events(ctx, key + '.store', a, b, ('.store',), 'stored plan', w)
                ctx.guard(key + '.store', store)

                def simulate():
                    pol = base_inline('problem.Problem.simulate')
                    a, b, w = pair(ctx, key, cls, 'simulate', pre + '_simulate', [S('current_time'), S('simulation_time'), S('sample_time')],
                                   setup=st, policy=pol)
                    require_events(ctx, key + '.simulate', a, b, ('.simulate',), 'simulation', w)
                ctx.guard(key + '.simulate', simulate)
        for cls, spec in (('FixedTPoint2point', 'stop'), ('FreeTPoint2point', 'free_stop')):
            key = '%s%d.stop' % (cls, n)

            def stop():
                a, b, w = pair(ctx, key, cls, 'stop_criterium', spec, args[:2], setup=fleet(n), policy=base_inline('Point2pointProblem.stop_criterium'))
                ctx.equal(key, as_truth(a.ret), as_truth(b.ret), 'stop only when every vehicle arrived', w)
            ctx.guard(key, stop)
    frames(ctx, args)
    agents(ctx, args)
    return 120


def frames(ctx, args):
    """several segments with their own durations"""
    for n in (1, 2, 3):
        for init in (NONE, S('init_time')):
            for cls, pre, nv in (('MultiFrameProblem', 'frames', 1), ('MultiFrameProblem', 'frames', 2), ('GCodeProblem', 'gcode', 1)):
                key = '%s%d.%d%s' % (cls, n, nv, 'i' if init is not NONE else '')
                st = fleet(nv, n, init_time=init, n_frames=num(n), n_segments=num(n))

                def store():
                    a, b, w = pair(ctx, key, cls, 'store', pre + '_store', args, setup=st)
                    require_events(ctx, key + '.store', a, b, ('.store',), 'stored plan', w)

                def simulate():
                    a, b, w = pair(ctx, key, cls, 'simulate', 'frames_simulate', [S('current_time'), S('simulation_time'), S('sample_time')], setup=st)
                    require_events(ctx, key + '.simulate', a, b, ('.simulate',), 'simulation', w)

                def parameters():
                    a, b, w = pair(ctx, key, cls, 'set_parameters', 'free_parameters', [S('current_time')], setup=st,
                                   policy=base_inline('Problem.set_parameters'))
                    inner_dict(ctx, key + '.parameters', a, b, w)

                def stop():
                    a, b, w = pair(ctx, key, cls, 'stop_criterium', pre + '_stop', args[:2], setup=st)
                    ctx.equal(key + '.stop', as_truth(a.ret), as_truth(b.ret), 'stop only when every vehicle arrived', w)
                ctx.guard(key + '.store', store)
                if pre == 'frames':
                    ctx.guard(key + '.simulate', simulate)
                if nv == 1:
                    ctx.guard(key + '.parameters', parameters)
                if init is NONE:
                    ctx.guard(key + '.stop', stop)


def inner_dict(ctx, key, a, b, w):
    x, y = [r.ret for r in (a, b)]
    inner = lambda t: [q.args[1] for q in t.args[1:] if q.op == 'kv' and q.args[0] is ME] if t.op == 'dict' else []
    x, y = inner(x), inner(y)
    if len(x) == 1 and len(y) == 1:
        require_dict(ctx, key, x[0], y[0], 'parameters of the problem', w)
    else:
        ctx.unknown(key, 'parameters not resolved', w)


def problems(I, s):
    ps = [O('problem%d' % k) for k in range(2)]
    for p in ps:
        I.types[p] = I.prog.cls('FixedTPoint2point')
    I.st[('f', s, 'problems')] = I.new_list(ps)


def agents(ctx, args):
    """a distributed problem does the same for every agent"""
    cls = 'DistributedProblem'
    sim = [S('current_time'), S('simulation_time'), S('sample_time')]

    def measured(I):
        return [S('current_time'), S('predict_time'), S('sample_time')] + [I.new_list([S(x + '0'), S(x + '1')]) for x in ('state', 'input', 'dinput')] + [
            S('delay'), S('enforce_states'), S('enforce_inputs')]
    for m, spec, a_, ev in (('initialize', 'all_initialize', args[:1], ('.initialize',)), ('store', 'all_store', args, ('.store',)),
                            ('predict', 'all_predict', measured, ('.predict',)), ('predict', 'all_predict', sim, ('.predict',)),
                            ('simulate', 'all_simulate', sim, ('.simulate',))):
        key = '%s.%s%s' % (cls, m, '.measured' if a_ is measured else '')

        def each():
            a, b, w = pair(ctx, key, cls, m, spec, a_, setup=problems)
            require_events(ctx, key, a, b, ev, 'every agent', w)
        ctx.guard(key, each)

    def stop():
        a, b, w = pair(ctx, cls, cls, 'stop_criterium', 'all_stop', args[:2], setup=problems)
        ctx.equal(cls + '.stop', as_truth(a.ret), as_truth(b.ret), 'stop only when every agent arrived', w)
    ctx.guard(cls + '.stop', stop)
