"""C10: a vehicle counts as arrived exactly when it is at its goal and at rest."""
from ..behave import *
from ..terms import *
from ..core import std_policy
from .c04 import S, O
from .c07 import as_truth

ME = T('sym', 'self', 'notnone')
RULE = {'Holonomic': 'whole_state', 'Holonomic1D': 'whole_state', 'Holonomic3D': 'whole_state', 'HolonomicOrient': 'whole_state', 'Dubins': 'whole_state',
        'Tool': 'whole_state', 'Bicycle': 'steered', 'AGV': 'steered', 'Quadrotor': 'quadrotor', 'Quadrotor3D': 'quadrotor3d',
        'SimpleQuadrotor3D': 'simplequadrotor3d'}
TOL = {'Dubins': '0.01', 'Quadrotor': '0.01', 'Quadrotor3D': '0.5', 'SimpleQuadrotor3D': '0.5'}
EVENTS = ('check_terminal_conditions', 'update_signals')


def run(ctx):
    ctx.rules.append('C10: the truth value of every arrival test equals the specified one for all signals, goals and tolerances.')
    for cls, rule in sorted(RULE.items()):
        where = ctx.loc(cls, 'check_terminal_conditions')

        def go():
            a = run_method(ctx, cls, 'check_terminal_conditions', [])
            b = run_spec(ctx, 'arrival.' + rule, cls, [])
            ctx.equal(cls, as_truth(a.ret), as_truth(b.ret), 'arrived exactly when at the goal and at rest', where)
        ctx.guard(cls, go)
    trailer(ctx)
    tolerance(ctx)
    rendezvous(ctx)
    return 20


def trailer(ctx):
    cls = 'Trailer'
    where = ctx.loc(cls, 'check_terminal_conditions')
    lead = O('lead')
    for goal in (True, False):
        def setup(I, s):
            I.types[lead] = I.prog.cls('Dubins')
            I.st[('f', s, 'lead_veh')] = lead
            if goal:
                I.st[('f', s, 'theta_trT')] = S('theta_trT')
        key = 'Trailer' + ('.parking' if goal else '.towing')

        def go():
            pol = std_policy(events=EVENTS)
            a = run_method(ctx, cls, 'check_terminal_conditions', [], setup=setup, policy=lambda q: 'inline' if q.endswith('Trailer.check_terminal_conditions') else pol(q))
            b = run_spec(ctx, 'arrival.trailer', cls, [], setup=setup, policy=lambda q: 'inline' if q.startswith('spec.') else pol(q))
            fix = {x: T('sym', 'has_goal', 'notnone') for r in (a, b) for x in tm.subterms(r.ret) if x.op == 'hasattr'}
            val = {T('sym', 'has_goal', 'notnone'): TRUE if goal else FALSE}
            f = lambda t: tm.substitute(tm.substitute(as_truth(t), {x: val[y] for x, y in fix.items()}), {})
            ctx.equal(key, f(a.ret), f(b.ret), 'arrived exactly when trailer and leading vehicle arrived', where)
            # the leading vehicle is not simulated: it is told where it is before it is asked
            names = [e.name for e in a.events]
            if '.check_terminal_conditions' not in names:
                return ctx.unknown(key + '.told', 'leading vehicle not asked here', where)
            i = names.index('.check_terminal_conditions')
            told = [e for e in a.events[:i] if e.name == '.update_signals']
            own = a.field(lead, 'signals')
            sig = told[-1].kw.get('signals') if told else own
            if sig is None or (not told and own is attr(lead, 'signals')):
                return ctx.bad(key + '.told', 'the leading vehicle is asked whether it arrived without being told its signals', where, '')
            w = run_spec(ctx, 'arrival.leading', cls, [], setup=setup)
            require_dict(ctx, key + '.told', sig, w.ret, 'signals of the leading vehicle', where)
        ctx.guard(key, go)


def tolerance(ctx):
    """the tolerance a user does not set"""
    for cls in sorted(list(RULE) + ['Trailer']):
        where = ctx.loc(cls, 'set_default_options')

        def go():
            a = run_method(ctx, cls, 'set_default_options', [], policy=lambda q: 'inline' if q.endswith('set_default_options') else STD(q))
            d = a.field(ME, 'options')
            rows = {x.args[0]: x.args[1] for x in d.args[1:] if x.op == 'kv'} if d.op == 'dict' else None
            if rows is None or tstr('stop_tol') not in rows:
                return ctx.unknown(cls + '.tolerance', 'default options not resolved', where)
            b = run_spec(ctx, 'arrival.tolerance_%s' % {'0.01': 'small', '0.5': 'flying'}.get(TOL.get(cls), 'default'), None, [])
            ctx.equal(cls + '.tolerance', rows[tstr('stop_tol')], b.ret, 'default tolerance', where)
        ctx.guard(cls + '.tolerance', go)


STD = std_policy()


def rendezvous(ctx):
    cls = 'RendezVous'
    where = ctx.loc(cls, 'stop_criterium')
    for n in (2, 3):
        for axes in (1, 2):
            for shift in (0, 1):
                def setup(I, s):
                    vs = [O('vehicle%d' % k) for k in range(n)]
                    fl = O('fleet')
                    I.st[('f', s, 'vehicles')] = I.new_list(vs)
                    I.st[('f', s, 'fleet')] = fl
                    I.st[('f', fl, 'configuration')] = I.new_dict([(v, I.new_dict([(num(k + shift * (i % 2)), S('conf%d%d' % (i, k))) for k in reversed(range(axes))])) for i, v in enumerate(vs)])
                    rel = {v: I.new_dict([(w, I.new_list([S('rel_%s_%s_%d' % (v.args[0], w.args[0], k)) for k in range(axes)])) for w in vs if w is not v]) for v in vs}
                    ngh = {v: I.new_list([w for w in vs if w is not v]) for v in vs}

                    def look(d):
                        def f(I, t, bound):
                            for x in list(t.args) + list(getattr(bound, 'values', lambda: [])() if isinstance(bound, dict) else []):
                                if x in d:
                                    return d[x]
                            return t
                        return f
                    for nm, d in (('get_rel_config', rel), ('get_neighbors', ngh)):
                        I.ret_models['obj:' + nm] = look(d)
                        I.ret_models[nm] = look(d)
                key = 'RendezVous%d.%d%s' % (n, axes, '.mixed' if shift else '')

                def go():
                    args = [S('current_time'), S('update_time')]
                    a = run_method(ctx, cls, 'stop_criterium', args, setup=setup)
                    b = run_spec(ctx, 'arrival.meeting', cls, args, setup=setup)
                    ctx.equal(key, as_truth(a.ret), as_truth(b.ret), 'stop exactly when all agents meet', where)
                ctx.guard(key, go)
