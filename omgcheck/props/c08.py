"""C08: prediction, simulation and storage follow the plan sample by sample."""
from ..behave import *
from ..terms import *
from .c04 import S

ME = T('sym', 'self', 'notnone')
KEYS = ('state', 'input', 'pose', 'splines', 'time', 'dinput')
CALLS = ('integrate_ode', '_state2pose', 'add_disturbance', '_add_to_memory', 'set_initial_conditions', 'update_plots')


def vehicle(options, signals=True, trajectories=True, simulated=TRUE):
    def f(I, s):
        if trajectories:
            I.st[('f', s, 'trajectories')] = I.new_dict([(tstr(k), S('plan_' + k)) for k in KEYS])
        if signals:
            I.st[('f', s, 'signals')] = I.new_dict([(tstr(k), S('signal_' + k)) for k in KEYS])
        I.st[('f', s, 'prediction')] = I.new_dict([])
        I.st[('f', s, 'options')] = I.new_dict([(tstr(k), v) for k, v in options.items()])
        I.st[('f', s, 'to_simulate')] = simulated
    return f


def signals_model(I, t, bound):
    return I.new_dict([(tstr(k), getitem(t, tstr(k))) for k in ('state', 'input', 'dinput')])


def unshape(t):
    """reshaping a one-dimensional signal to one row keeps its samples"""
    m = {x: x.args[1] for x in tm.subterms(t) if x.op == 'mcall' and x.args[0] is tstr('reshape') and len(x.args) == 4 and x.args[2] is ONE}
    for _ in range(4):
        if not m:
            break
        t = tm.substitute(t, m)
        m = {x: x.args[1] for x in tm.subterms(t) if x.op == 'mcall' and x.args[0] is tstr('reshape') and len(x.args) == 4 and x.args[2] is ONE}
    return t


def merged(t):
    """a choice between dictionaries as a dictionary of choices"""
    if t.op != 'ite':
        return t
    a, b = merged(t.args[1]), merged(t.args[2])
    if a.op != 'dict' or b.op != 'dict' or a.args[0] is not b.args[0] or not all(x.op == 'kv' for x in a.args[1:] + b.args[1:]):
        return t
    da, db = {x.args[0]: x.args[1] for x in a.args[1:]}, {x.args[0]: x.args[1] for x in b.args[1:]}
    c = condatom(t.args[0])
    return T('dict', a.args[0], *sorted(T('kv', k, ite(c, da.get(k, T('missing')), db.get(k, T('missing')))) for k in set(da) | set(db)))


def run(ctx):
    ctx.rules.append('C08: number of samples = round(duration/sample_time); prediction, simulated and stored signals are the specified samples of '
                     'the plan or of the integrated dynamics, for every combination of prediction/update options and given states.')
    # --- prediction
    where = ctx.loc('Vehicle', 'predict')
    args0 = [S('current_time'), S('predict_time'), S('sample_time')]
    for ideal in (TRUE, FALSE):
        for s0 in (NONE, S('state0')):
            key = 'predict.%s.%s' % ('ideal' if ideal is TRUE else 'integrated', 'given' if s0 is not NONE else 'own')

            def go():
                a, b = [f(ctx, *n, args=args0 + [s0, NONE, NONE, S('delay')], setup=vehicle({'ideal_prediction': ideal}),
                          events=CALLS) for f, n in ((run_method, ('Vehicle', 'predict')), (run_spec, ('motion.predict', 'Vehicle')))]
                require_dict(ctx, key, a.field(ME, 'prediction'), b.field(ME, 'prediction'), 'predicted', where)
            ctx.guard(key, go)
    for es in (TRUE, FALSE):
        for ei in (TRUE, FALSE):
            if es is FALSE and ei is TRUE:
                continue
            for given in range(4):
                for sig in (True, False):
                    key = 'enforce%d%d.%d%d' % (es is TRUE, ei is TRUE, given, sig)

                    def go():
                        g = [S('state0'), S('input0'), S('dinput0')][:given]
                        g += [NONE]*(3 - given)
                        a, b = [f(ctx, *n, args=args0 + g + [ZERO, es, ei], setup=vehicle({'ideal_prediction': FALSE}, signals=sig),
                                  events=CALLS) for f, n in ((run_method, ('Vehicle', 'predict')), (run_spec, ('motion.predict', 'Vehicle')))]
                        if not [e for e in b.events if e.name == '.set_initial_conditions'] and es is FALSE:
                            return
                        require_events(ctx, key, a, b, ('.set_initial_conditions',), 'imposed start', where)
                    ctx.guard(key, go)
    # --- simulation
    where = ctx.loc('Vehicle', 'simulate')
    for ideal in (TRUE, FALSE):
        for dist in (NONE, S('disturbance')):
            for lag in (TRUE, FALSE):
                for sig in (True, False):
                    if ideal is TRUE and (dist is not NONE or lag is TRUE):
                        continue
                    key = 'simulate.%s%s%s%s' % ('ideal' if ideal is TRUE else 'ode', '' if dist is NONE else '.dist',
                                                 '.lag' if lag is TRUE else '', '' if sig else '.first')

                    def go():
                        st = vehicle({'ideal_update': ideal, 'input_disturbance': dist, '1storder_delay': lag}, signals=sig)
                        a, b = [f(ctx, *n, args=[S('simulation_time'), S('sample_time')], setup=st, events=CALLS)
                                for f, n in ((run_method, ('Vehicle', 'simulate')), (run_spec, ('motion.simulate', 'Vehicle')))]
                        x, y = a.field(ME, 'signals'), b.field(ME, 'signals')
                        if sig:
                            require_dict(ctx, key, x, y, 'simulated', where)
                        else:
                            first(ctx, key, x, y, where)
                        require_events(ctx, key + '.memory', a, b, ('._add_to_memory',), 'history kept for plots', where)
                    ctx.guard(key, go)

    def still():
        st = vehicle({'ideal_update': FALSE, 'input_disturbance': NONE, '1storder_delay': FALSE}, simulated=FALSE)
        a = run_method(ctx, 'Vehicle', 'simulate', [S('simulation_time'), S('sample_time')], setup=st, events=CALLS)
        ctx.equal('simulate.off', a.field(ME, 'signals'), T('dict', NONE, *sorted(T('kv', tstr(k), S('signal_' + k)) for k in KEYS)),
                  'a vehicle that is not simulated keeps its signals', where)
    ctx.guard('simulate.off', still)
    # --- integration
    for ode in (NONE, S('rate')):
        key = 'integrate%d' % (ode is NONE)
        compare_method(ctx, key, 'Vehicle', 'integrate_ode', 'motion.integrate_ode',
                       [S('state0'), S('input'), S('duration'), S('sample_time')] + ([] if ode is NONE else [ode]), what='integrated state')
    compare_method(ctx, 'rate', 'Vehicle', '_ode', 'motion.rate', [S('state'), S('time'), S('input_interp')], what='state rate', events=(), pure=('ode',))
    compare_method(ctx, 'lag', 'Vehicle', '_ode_1storder', 'motion.lagged_rate', [S('state'), S('time'), S('input_interp')], what='first order lag')
    # --- overruling
    for m, spec, n in (('overrule_state', 'overrule_state', 1), ('overrule_input', 'overrule_input', 1), ('overrule_input', 'overrule_input', 2)):
        key = '%s%d' % (m, n)
        where = ctx.loc('Vehicle', m)

        def go():
            args = [S('value'), S('dvalue')][:n]
            a, b = [f(ctx, *q, args=args, setup=vehicle({}), events=CALLS)
                    for f, q in ((run_method, ('Vehicle', m)), (run_spec, ('motion.' + spec, 'Vehicle')))]
            require_dict(ctx, key, a.field(ME, 'prediction'), b.field(ME, 'prediction'), 'prediction', where)
            for r in (a, b):
                r.events = [e for e in r.events if e.recv is not None and e.recv.op == 'sym' and e.name == 'setitem']
            require_events(ctx, key, a, b, ('setitem',), 'last sample', where)
        ctx.guard(key, go)
    # --- storage
    for c in ctx.prog.subclasses('Vehicle', True):
        if 'store' in c.methods:
            storage(ctx, c)
    where = ctx.loc('Vehicle', '_add_to_memory')

    def memory():
        mk = lambda I: [I.new_dict([(tstr('old'), I.new_list([S('first')]))]), I.new_dict([(tstr('old'), S('a')), (tstr('new'), S('b'))]), num(2)]
        out = []
        for f, q in ((run_method, ('Vehicle', '_add_to_memory')), (run_spec, ('motion.remember', 'Vehicle'))):
            box = []

            def args(I):
                x = mk(I)
                box.append(x[0])
                return x
            r = f(ctx, *q, args=args)
            out.append(r.I.freeze(box[0]))
        require_dict(ctx, 'memory', out[0], out[1], 'history', where)
    ctx.guard('memory', memory)
    return 60


def first(ctx, key, x, y, where):
    """value of the signals when the vehicle had none before"""
    dx, dy = [[v for g, v in leaves(t) if v.op == 'dict'] for t in (x, y)]
    if len(dx) != 1 or len(dy) != 1:
        return ctx.unknown(key, 'first signals not resolved: %s' % short(x), where)
    has = [c for c in conds(y)]
    pick = lambda t: T('dict', t.args[0], *[T('kv', a.args[0], without(a.args[1])) if a.op == 'kv' else a for a in t.args[1:]])
    require_dict(ctx, key, pick(dx[0]), pick(dy[0]), 'simulated', where)


def conds(t):
    return [g for g, v in leaves(t)]


def without(t):
    """the case without earlier signals"""
    while t.op == 'ite' and 'hasattr' in repr(t.args[0]):
        t = t.args[2]
    return t


def storage(ctx, c):
    where = ctx.loc(c, 'store')
    for n, dur in ((1, 'scalar'), (1, 'list'), (2, 'list')):
        for axis in (NONE, S('axis')):
            key = '%s.store.%s%d%s' % (c.name, dur, n, '' if axis is NONE else '.axis')

            def go():
                def setup(I, s):
                    I.ret_models['splines2signals'] = signals_model

                def args(I):
                    d = [S('T%d' % k) for k in range(n)]
                    return [S('current_time'), S('sample_time'), S('segments'), I.new_list(d) if dur == 'list' else num(7)] + ([axis] if axis is not NONE else [])
                ev = ('splines2signals', '_state2pose')
                a = run_method(ctx, c, 'store', args, setup=setup, events=ev)
                b = run_spec(ctx, 'motion.store', c, args, setup=setup, events=ev)
                x, y = merged(unshape(a.field(ME, 'trajectories'))), merged(unshape(b.field(ME, 'trajectories')))
                require_dict(ctx, key, x, y, 'stored plan', where)
                ctx.equal(key + '.splines', a.field(ME, 'result_splines'), b.field(ME, 'result_splines'), 'stored splines', where)
            ctx.guard(key, go)
