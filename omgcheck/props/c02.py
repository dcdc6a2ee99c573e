"""C02: boundary conditions: (spline, value) pairs at start and end, the parameter values behind
them, and the user calls that set them, per vehicle and at problem level."""
from ..behave import *
from .c01 import splines, LIMITS, models

TH = T('sym', 'T', 'notnone')


def pairs(t):
    """flatten a returned list of (spline, value) tuples into gated pairs; None if unresolved"""
    if t.op == 'ite':
        c = condatom(t.args[0])
        a, b = pairs(t.args[1]), pairs(t.args[2])
        if a is None or b is None:
            return None
        return [(band(c, g), x) for g, x in a] + [(band(bnot(c), g), x) for g, x in b]
    if t.op in ('list', 'tuple', 'vec'):
        return [(TRUE, x) for x in t.args]
    return None


def loose(t):
    """items of clist terms as opaque entries"""
    p = pairs(t)
    if p is not None:
        return p
    if t.op in ('clist', 'cat'):
        return [(TRUE, x) for x in t.args if isinstance(x, Term)]
    return None


def same_pairs(ctx, key, a, s, what, where):
    pa, ps = loose(a), loose(s)
    if pa is None or ps is None:
        return ctx.equal(key, a, s, what, where)
    und = decided(a, [s])
    # group by value
    for side, src, dst, word in (('missing', ps, pa, 'not imposed'), ('extra', pa, ps, 'imposed but not specified')):
        for i, (g, x) in enumerate(src):
            if g is FALSE:
                continue
            got = FALSE
            for g2, y in dst:
                if same(x, y):
                    got = bor(got, g2)
            k = '%s/%s-%s' % (key, side, x.dig[:8])
            if band(g, bnot(got)) is FALSE:
                if side == 'missing':
                    ctx.ok(k, '%s: %s' % (what, short(x, 120)), where)
            elif und:
                ctx.unknown(k, '%s: %s unresolved (%s)' % (what, short(x, 120), ', '.join(und)), where)
            else:
                ctx.bad(k, '%s: %s = value %s%s' % (what, short(x, 240), word, ' when %s' % short(g, 100) if g is not TRUE else ''), where,
                        ''.join(sorted(y.dig[:6] for _, y in pa)))


def lists(ctx, key, a, s, what, where, parts=None):
    if parts is None:
        return same_pairs(ctx, key, a, s, what, where)
    if a.op in ('list', 'tuple', 'vec') and len(a.args) == len(parts):
        for p, x, y in zip(parts, a.args, s.args):
            same_pairs(ctx, key + '.' + p, x, y, what + ' ' + p, where)
    else:
        ctx.equal(key, a, s, what, where)


from .c04 import O

START = {'Trailer': None}
GOAL = {'Quadrotor3D': 'goal_quadrotor3d', 'SimpleQuadrotor3D': 'goal_position', 'Trailer': 'goal_trailer'}


def run(ctx):
    ctx.rules.append('C02: the (spline, value) pairs returned for start and end, the parameter values and the stored user '
                     'requests equal the specified ones in normal form.')
    for cls, _, n in LIMITS:
        low = cls.lower()
        ev = ('get_initial_constraints', 'get_terminal_constraints', 'set_parameters', 'update_prediction') if cls == 'Trailer' else ()

        def one(method, spec, args, parts=None, dictname=None, fields=(), kwargs=None):
            where = ctx.loc(cls, method)
            key = '%s.%s' % (cls, method)

            def go():
                # analyse the method itself, whatever its name; delegated lead-vehicle calls are events
                f = ctx.prog.cls(cls).find(method)
                pol = std_policy()
                lead = cls == 'Trailer' and method == 'get_initial_constraints'

                def setup(I, x):
                    if lead:
                        I.types[O('lead')] = I.prog.cls('Dubins')
                        I.st[('f', x, 'lead_veh')] = O('lead')

                def policy(q):
                    if not lead and ev and q.split('.')[-1] in ev and not q.endswith('.%s.%s' % (cls, method)) and '.Vehicle.' not in q:
                        return 'event'
                    return pol(q)
                a = run_method(ctx, cls, method, args, kwargs, setup, policy=policy)
                s = run_spec(ctx, 'vehicles.' + spec, cls, args, kwargs, setup, policy=policy)
                if dictname:
                    d = a.ret
                    me = T('sym', 'self', 'notnone')
                    inner = None
                    if d.op == 'dict':
                        for x in d.args[1:]:
                            if x.op == 'kv' and x.args[0] is me:
                                inner = x.args[1]
                    if inner is None:
                        ctx.unknown(key, 'parameter dictionary of the vehicle not resolved: %s' % short(d, 200), where)
                    else:
                        require_dict(ctx, key, inner, s.ret, '%s parameter value' % cls, where)
                elif fields:
                    for fl in fields:
                        x, y = a.field(T('sym', 'self', 'notnone'), fl), s.field(T('sym', 'self', 'notnone'), fl)
                        if y.op == 'dict' and x.op == 'dict':
                            require_dict(ctx, '%s:%s' % (key, fl), x, y, '%s sets %s' % (method, fl), where)
                        else:
                            ctx.equal('%s:%s' % (key, fl), x, y, '%s sets %s' % (method, fl), where)
                else:
                    lists(ctx, key, a.ret, s.ret, '%s %s' % (cls, method), where, parts)
                    if constraint_set(s):
                        require_constraints(ctx, key, a, s, cls + ' start', where)
            ctx.guard(key, go)
        one('get_initial_constraints', 'initial_' + low, [splines(n), TH])
        one('get_terminal_constraints', 'terminal_' + low, [splines(n)] if cls in ('Tool', 'Quadrotor') else [splines(n), TH],
            ['positions', 'derivatives'])
        one('set_parameters', 'params_' + low, [T('sym', 't', 'notnone')], dictname=True)
        if cls != 'Trailer':
            st, inp = T('sym', 'state', 'notnone'), T('sym', 'input')
            one('set_initial_conditions', 'start_' + low, [st, inp], fields=['prediction'] + (
                ['pose0'] if cls in ('Dubins', 'Bicycle', 'AGV') else []) + (['delta0'] if cls in ('Bicycle', 'AGV') else []))
            if cls == 'Tool':
                pass
        g = GOAL.get(cls, 'goal_pose')
        one('set_terminal_conditions', g, [T('sym', 'goal', 'notnone')] + ([T('sym', 'roll'), T('sym', 'pitch')] if cls == 'Quadrotor3D' else []),
            fields=[{'goal_position': 'positionT', 'goal_trailer': 'theta_trT'}.get(g, 'poseT')])
    imposed(ctx)
    models(ctx, ('.define_init_constraints', '.define_terminal_constraints', '.define_connection_constraints', '.define_objective'), 'every problem imposes its boundary conditions')
    return 80


ME = T('sym', 'self', 'notnone')
S = lambda n: T('sym', n, 'notnone')


def problem(n, nseg, degree=None, free=None, names=None, **options):
    """n vehicles with two splines per segment, two goal conditions, one condition at rest and two at the start"""
    def f(I, s):
        vs = [T('sym', 'veh%d' % k, 'notnone', 'object') for k in range(n)]
        cond = lambda nm, k: T('tuple', S('%s_spline%d' % (nm, k)), S('%s_value%d' % (nm, k)))
        known = {}
        for k, v in enumerate(vs):
            I.types[v] = I.prog.cls('Holonomic')
            segs = [[S('y%d%d%d' % (k, j, i)) for i in range(2)] for j in range(nseg)]
            I.st[('f', v, 'splines')] = I.new_list([I.new_list(g) for g in segs])
            for j, g in enumerate(segs):
                known[T('list', *g)] = '%d%d' % (k, j)
                for y in g:
                    b = T('sym', 'basis_' + y.args[0], 'notnone', 'object')
                    I.st[('f', y, 'basis')] = b
                    if degree is not None:
                        I.st[('f', b, 'degree')] = num(degree)
        I.st[('f', s, 'vehicles')] = I.new_list(vs)
        I.st[('f', s, 'motion_times')] = I.new_list([S('T%d' % k) for k in range(nseg)])
        I.st[('f', s, 'n_frames')] = I.st[('f', s, 'n_segments')] = num(nseg)
        I.st[('f', s, 'options')] = I.new_dict([(tstr(k), v) for k, v in sorted(options.items())])
        if free is not None:
            I.st[('f', s, 'free_ind')] = NONE if free == 'all' else I.new_dict([(v, I.new_list([num(i) for i in free])) for v in vs])

        def conditions(kinds):
            def model(I, t, bound):
                sp = bound.get('splines')
                sp = I.freeze(sp) if sp is not None else NONE
                nm = '%s_of_%s' % (short(t.args[1] if t.op == 'mcall' else t, 40), known.get(T('list', *sp.args) if sp.op in ('list', 'vec', 'tuple') else sp))
                if 'horizon_time' in bound and bound['horizon_time'] is not NONE:
                    nm += '_in_' + short(I.freeze(bound['horizon_time']), 40)
                r = [T('list', *[cond(nm + kind, k) for k in range(c)]) for kind, c in kinds]
                return r[0] if len(r) == 1 else T('tuple', *r)
            return model

        def slack(I, t, bound):
            kw = bound.get('**kwargs')
            b = I.freeze(bound['basis']) if 'basis' in bound else I.freeze(kw) if kw is not None else NONE
            if b.op == 'dict':
                b = dict((x.args[0], x.args[1]) for x in b.args[1:] if x.op == 'kv').get(tstr('basis'), NONE)
            if names is not None:
                names.append((I.freeze(bound.get('name', NONE)), b))
            return T('list', T('sym', 'slack_' + b.dig[:8], 'notnone'))
        I.ret_models['get_terminal_constraints'] = conditions([('goal', 2), ('rest', 1)])
        I.ret_models['get_initial_constraints'] = conditions([('start', 2)])
        I.ret_models['define_spline_variable'] = slack
    return f


CONDITIONS = ('get_terminal_constraints', 'get_initial_constraints')


def imposed(ctx):
    """which of the vehicles' conditions the problems impose, and how"""
    def case(key, cls, method, spec, n, nseg=1, degree=None, free=None, **options):
        where = ctx.loc(cls, method)

        def go():
            names = []
            a = run_method(ctx, cls, method, [], setup=problem(n, nseg, degree, free, names, **options), events=CONDITIONS)
            b = run_spec(ctx, 'imposed.' + spec, cls, [], setup=problem(n, nseg, degree, free, **options), events=CONDITIONS)
            require_constraints(ctx, key, a, b, '%s of %s' % (method, cls), where)
            require_events(ctx, key, a, b, ('.define_objective',), 'objective', where, forbid_extra=False)
            seen = {}
            for nm, basis in names:
                if seen.setdefault(nm, basis) is not basis:
                    ctx.bad(key + '.slack', 'two conditions share the slack variable `%s`' % short(nm), where, '')
                    break
            else:
                if names:
                    ctx.ok(key + '.slack', 'every condition has a slack variable of its own', where)
        ctx.guard(key, go)
    for n in (1, 2):
        for hard in (TRUE, FALSE):
            for noder in (TRUE, FALSE):
                o = '%d%s%s' % (n, 'hard' if hard is TRUE else '', 'noder' if noder is TRUE else '')
                case('fixed.terminal' + o, 'FixedTPoint2point', 'define_terminal_constraints', 'fixed_terminal', n, hard_term_con=hard, no_term_con_der=noder)
                if hard is FALSE:
                    case('free.terminal' + o, 'FreeTPoint2point', 'define_terminal_constraints', 'free_terminal', n, no_term_con_der=noder)
                    for ns in (1, 2):
                        case('frames%d.terminal%s' % (ns, o), 'MultiFrameProblem', 'define_terminal_constraints', 'last_terminal', n, ns, no_term_con_der=noder)
                        if n == 1:
                            case('gcode%d.terminal%s' % (ns, o), 'GCodeProblem', 'define_terminal_constraints', 'gcode_terminal', n, ns, no_term_con_der=noder)
        for free in ((0,), (1,), (0, 1), 'all'):
            case('freeend.terminal%d.%s' % (n, ''.join(map(str, free))), 'FreeEndPoint2point', 'define_terminal_constraints', 'freeend_terminal', n, free=free,
                 hard_term_con=FALSE, no_term_con_der=FALSE)
        for cls in ('FixedTPoint2point', 'FreeTPoint2point'):
            case('%s.initial%d' % (cls, n), cls, 'define_init_constraints', 'initial', n)
        for ns in (1, 2, 3):
            for cls in ('MultiFrameProblem', 'GCodeProblem'):
                if n == 1 or cls == 'MultiFrameProblem':
                    case('%s%d.initial%d' % (cls, ns, n), cls, 'define_init_constraints', 'first_initial', n, ns)
                    for deg in (2, 3) if ns > 1 else ():
                        case('%s%d.connection%d.%d' % (cls, ns, n, deg), cls, 'define_connection_constraints', 'connection', n, ns, deg)
