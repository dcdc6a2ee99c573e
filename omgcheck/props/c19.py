"""C19: fleets: who is whose neighbour, the configuration, and the constraints that make the vehicles agree on it."""
from ..behave import *
from ..terms import *
from .. import matrices
from ..core import std_policy
from .c04 import S, O
from .c27 import L, V
from .c01 import splines
from .c14 import inline
from .c07 import fleet as vehicles_

ME = T('sym', 'self', 'notnone')
FL = attr(ME, 'fleet')
CALLS = ('set_initial_conditions', 'set_terminal_conditions', 'overrule_state', 'overrule_input', 'define_substitute', 'get_fleet_center',
         'define_spline_symbol', 'define_spline_variable', 'define_parameter', 'define_symbol', 'get_variables', 'define_objective', 'integrate_once')


def run(ctx):
    ctx.rules.append('C19: for every fleet size and interconnection the neighbours, relative positions and agreement constraints are those of the '
                     'configuration; the posed equalities connect all vehicles of the fleet.')
    neighbours(ctx)
    configuration(ctx)
    handed_on(ctx)
    centres(ctx)
    agreement(ctx)
    meeting(ctx)
    return 60


def make(ctx, n, interconnection=None, args=None):
    I = ctx.interp(policy=inline)
    matrices.install(I)
    s = T('sym', 'self', 'notnone')
    I.types[s] = ctx.prog.cls('Fleet')
    vs = [O('veh%d' % k) for k in range(n)]
    for v in vs:
        I.types[v] = ctx.prog.cls('Holonomic')
    I.call_method(ctx.prog.cls('Fleet'), '__init__', [args(I, vs) if args else I.new_list(vs)] + ([tstr(interconnection)] if interconnection else []), {}, self_term=s)
    return I, s, vs


def call_(ctx, I, s, method, *args):
    try:
        r = I.freeze(I.call_method(I.types[s], method, list(args), {}, self_term=s))
    except AlwaysRaises:
        r = T('raises')
    ctx.functions |= set(q for q in I.visited if not q.startswith('spec.'))
    return r


def neighbours(ctx):
    where = ctx.loc('Fleet', 'set_neighbors')
    for kind in ('circular', 'full', None):
        for n in (1, 2, 3, 4, 5):
            key = 'neighbours.%s%d' % (kind, n)

            def go():
                I, s, vs = make(ctx, n, kind)
                for k, v in enumerate(vs):
                    got = call_(ctx, I, s, 'get_neighbors', v)
                    want = set(range(n)) - {k} if kind == 'full' else {(k + 1) % n, (k - 1) % n}
                    ob = '%s.%d' % (key, k)
                    if got.op not in ('list', 'tuple'):
                        ctx.unknown(ob, 'neighbours not resolved', where)
                    elif set(got.args) == set(vs[j] for j in want) or n == 1 and not got.args:
                        ctx.ok(ob, 'neighbours of vehicle %d of %d' % (k, n), where)
                    else:
                        ctx.bad(ob, 'neighbours of vehicle %d of %d (%s) are %s' % (k, n, kind, short(got, 80)), where, got.dig[:8])
            ctx.guard(key, go)

    def single():
        I, s, vs = make(ctx, 1, None, lambda I, vs: vs[0])
        ctx.equal('neighbours.single', I.freeze(I.getattr_(s, 'vehicles')), L(*vs), 'a fleet of one vehicle', where)
    ctx.guard('neighbours.single', single)

    def wrong():
        try:
            make(ctx, 3, 'star')
            ctx.bad('neighbours.unknown', 'an unknown interconnection is accepted', where)
        except AlwaysRaises:
            ctx.ok('neighbours.unknown', 'an unknown interconnection is refused', where)
    ctx.guard('neighbours.unknown', wrong)


def configuration(ctx):
    where = ctx.loc('Fleet', 'set_configuration')
    for n in (1, 2, 3, 4):
        for dim, kind in ((2, 'list'), (3, 'list'), (3, 'dict'), (1, 'list')):
            for turn in (False, True):
                key = 'configuration%d.%s%d%s' % (n, kind, dim, '.turned' if turn else '')
                angle = S('orientation') if turn else ZERO

                def go():
                    def conf(I):
                        out = []
                        for k in range(n):
                            xs = [S('p%d_%d' % (k, j)) for j in range(dim)]
                            out.append(I.new_list(xs) if kind == 'list' else I.new_dict([(num(j), xs[j]) for j in list(range(1 + k % 2, dim)) + list(range(1 + k % 2))]))
                        return I.new_list(out)
                    I, s, vs = make(ctx, n, 'full')
                    call_(ctx, I, s, 'set_configuration', conf(I), *([angle] if turn else []))
                    want = run_spec(ctx, 'fleet.turned', None, lambda J: [conf(J), angle], policy=inline, setup=lambda J, z: matrices.install(J)).ret
                    pos = [[entry(want.args[k], j) for j in range(dim)] for k in range(n)]
                    got = I.freeze(I.getattr_(s, 'configuration'))
                    for k, v in enumerate(vs):
                        d = entry(got, v)
                        for j in range(dim):
                            ctx.equal('%s.p%d%d' % (key, k, j), entry(d, num(j)), pos[k][j], 'position %d of vehicle %d in the fleet' % (j, k), where)
                        rel = I.freeze(I.getattr_(v, 'rel_pos_c'))
                        ctx.equal('%s.c%d' % (key, k), rel, L(*[neg(p) for p in pos[k]]), 'position of the centre seen by vehicle %d' % k, where)
                        rc = call_(ctx, I, s, 'get_rel_config', v)
                        for m, w in enumerate(vs):
                            if m != k:
                                ctx.equal('%s.r%d%d' % (key, k, m), entry(rc, w), L(*[sub(x, y) for x, y in zip(pos[k], pos[m])]),
                                          'position of vehicle %d relative to its neighbour %d' % (k, m), where)
                ctx.guard(key, go)

    def count():
        I, s, vs = make(ctx, 3, 'full')
        r = call_(ctx, I, s, 'set_configuration', I.new_list([I.new_list([S('a'), S('b')]), I.new_list([S('c'), S('d')])]))
        if r.op == 'raises':
            ctx.ok('configuration.count', 'every vehicle needs a place', where)
        else:
            ctx.bad('configuration.count', 'a configuration for 2 of 3 vehicles is accepted', where)
    ctx.guard('configuration.count', count)


def entry(d, k):
    k = num(k) if isinstance(k, int) else k
    if d.op == 'dict':
        for kv in d.args[1:]:
            if kv.op == 'kv' and kv.args[0] is k:
                return kv.args[1]
    return T('missing', d, k)


def neg(t):
    return sub(ZERO, t)


def handed_on(ctx):
    for method, sp, nargs in (('set_initial_conditions', 'conditions', 2), ('set_initial_conditions', 'conditions', 1), ('set_terminal_conditions', 'targets', 1),
                              ('overrule_state', 'states', 1), ('overrule_input', 'inputs', 1)):
        key = 'handed.%s%d' % (method, nargs)

        def go():
            args = lambda I: [I.new_list([S('%s%d' % (x, k)) for k in range(3)]) for x in ('a', 'b')[:nargs]]
            st = vehicles_(3)
            pol = std_policy(events=CALLS)
            a = run_method(ctx, 'Fleet', method, args, setup=st, policy=pol)
            b = run_spec(ctx, 'fleet.' + sp, 'Fleet', args, setup=st, policy=pol)
            require_events(ctx, key, a, b, ('.' + method,), 'every vehicle gets its own', ctx.loc('Fleet', method))
        ctx.guard(key, go)


def centres(ctx):
    where = ctx.loc('Vehicle', 'get_fleet_center')
    spl, rel = [S('spl0'), S('spl1')], [S('rel0'), S('rel1')]
    for substitute in (TRUE, FALSE):
        for aslist in (True, False):
            key = 'centre.%s%s' % ('s' if substitute is TRUE else 'd', 'l' if aslist else 'v')

            def go():
                def st(I, s):
                    matrices.install(I)
                    I.extra['vertsplit'] = lambda I, a, kw: I.new_list(rel)
                args = lambda I: [I.new_list(spl), I.new_list(rel) if aslist else V(*rel), substitute]
                a = run_method(ctx, 'Vehicle', 'get_fleet_center', args, setup=st, events=('define_substitute',))
                b = run_spec(ctx, 'fleet.centre', 'Vehicle', [L(*spl), L(*rel)], setup=st)
                if substitute is TRUE:
                    ev = [e for e in a.events if e.name == '.define_substitute']
                    if len(ev) != 1:
                        return ctx.unknown(key, 'substitute not found', where)
                    ctx.equal(key, arg(ev[0], 'expr', 1), b.ret, 'centre seen by the vehicle', where)
                else:
                    ctx.equal(key, a.ret, b.ret, 'centre seen by the vehicle', where)
            ctx.guard(key, go)
    for subs in (TRUE, FALSE):
        key = 'centre.Dubins%s' % ('s' if subs is TRUE else '')

        def dubins():
            def st(I, s):
                I.st[('f', s, 'options')] = I.new_dict([(tstr('substitution'), subs)])
                I.st[('f', s, 'degree')] = num(2)
                I.st[('f', s, 'n_dim')] = num(2)
                I.models.pop('.define_spline_variable', None)
                I.ret_models['define_spline_variable'] = lambda I, t, bound: I.new_list([S('centre0'), S('centre1')])
            args = lambda I: [I.new_list(spl), I.new_list(rel)]
            a = run_method(ctx, 'Dubins', 'get_fleet_center', args, setup=st)
            b = run_spec(ctx, 'fleet.centre_wheeled', 'Dubins', args, setup=st)
            require_constraints(ctx, key, a, b, 'centre of the fleet seen by a turned vehicle', ctx.loc('Dubins', 'get_fleet_center'))
        ctx.guard(key, dubins)

    def signal():
        def st(I, s):
            I.st[('f', s, 'options')] = I.new_dict([(tstr('substitution'), FALSE)])
            I.st[('f', s, 'rel_pos_c')] = I.new_list([S('rel0'), S('rel1')])
        args = [splines(2), S('time')]
        where = ctx.loc('Dubins', 'splines2signals')
        a = run_method(ctx, 'Dubins', 'splines2signals', args, setup=st)
        b = run_spec(ctx, 'fleet.centre_signal', 'Dubins', args, setup=st)
        ctx.equal('centre.Dubins.signal', entry(a.ret, tstr('fleet_center')), b.ret, 'reported centre of the fleet of a turned vehicle', where)
    ctx.guard('centre.Dubins.signal', signal)


SPLS = {}


def problem(n, kind, options=(), degree=2):
    """a problem with n vehicles of which the seen centres are C0_k, C1_k"""
    vs = [O('vehicle%d' % k) for k in range(n)]

    def nb(k):
        return [(k + 1) % n, (k - 1) % n] if kind == 'circular' else [j for j in range(n) if j != k]

    def st(I, s):
        vehicles_(n)(I, s)
        f = T('sym', 'fleet', 'notnone')
        I.types[f] = I.prog.cls('Fleet')
        I.st[('f', s, 'fleet')] = f
        I.st[('f', f, 'interconnection')] = tstr(kind)
        I.st[('f', f, 'vehicles')] = I.new_list(vs)
        I.st[('f', f, 'N')] = num(n)
        I.st[('f', f, 'nghb_list')] = I.new_dict([(v, I.new_list([vs[j] for j in nb(k)])) for k, v in enumerate(vs)])
        I.st[('f', f, 'configuration')] = I.new_dict([(v, I.new_dict([(num(j), S('p%d_%d' % (k, j))) for j in range(2)])) for k, v in enumerate(vs)])
        rel = lambda i, j, d: sub(S('p%d_%d' % (i, d)), S('p%d_%d' % (j, d)))
        I.st[('f', f, 'rel_config')] = I.new_dict([(v, I.new_dict([(vs[j], I.new_list([rel(k, j, 0), rel(k, j, 1)])) for j in nb(k)])) for k, v in enumerate(vs)])
        I.st[('f', s, 'options')] = I.new_dict([(tstr(a), b) for a, b in options] + [(tstr('verbose'), ZERO), (tstr('horizon_time'), S('horizon'))])
        I.st[('f', s, 'problems')] = I.new_list([O('problem%d' % k) for k in range(n)])
        for k, v in enumerate(vs):
            I.types[v] = I.prog.cls('Holonomic')
            for d in range(2):
                I.st[('f', attr(C(k, d), 'basis'), 'degree')] = num(degree)
            I.st[('f', v, 'label')] = tstr('vehicle%d' % k)
            I.st[('f', v, 'n_spl')] = num(2)
            I.st[('f', v, 'basis')] = S('basis%d' % k)
            I.st[('f', v, 'rel_pos_c')] = S('rel_pos_c%d' % k)
        for k in range(n):
            p = O('problem%d' % k)
            I.st[('f', p, 'free_ind')] = I.new_dict([(vs[k], I.new_list([ZERO, ONE]))])

        I.seen_ = {}

        def centre(I, t, bound):
            v = t.args[1] if t.op == 'mcall' else t
            if v not in vs:
                return t
            k = vs.index(v)
            I.seen_[v] = (bound.get('splines'), bound.get('rel_pos'), dict(bound))
            return I.new_list([C(k, 0), C(k, 1)])
        I.ret_models['get_fleet_center'] = centre
    return st, vs


def C(k, d):
    return S('centre%d_%d' % (k, d))


def inside(cls):
    ev = CALLS + ('define_constraint',)
    std = std_policy(events=ev)

    def p(q):
        if q.endswith('.construct') and not any(q.endswith(x + '.construct') for x in (cls,)):
            return 'event'
        return std(q)
    return p


def relation(p, n):
    """(a, b, d) when the expression is proportional to centre a minus centre b in direction d"""
    for d in range(2):
        for a in range(n):
            for b in range(a):
                x = sub(C(a, d), C(b, d))
                if p is x or p is neg(x) or same(p, x) or same(p, neg(x)):
                    return a, b, d
    return None


def agreement(ctx):
    for cls in ('FormationPoint2point', 'RendezVous', 'FormationPoint2pointDualDecomposition'):
        where = ctx.loc(cls, 'construct')
        for kind in ('circular', 'full'):
            for n in (2, 3, 4):
                key = '%s.%s%d' % (cls, kind, n)

                def go():
                    st, vs = problem(n, kind)
                    st2 = st
                    if cls == 'RendezVous':
                        def st2(I, s):
                            st(I, s)
                            inner = I.ret_models['get_fleet_center']

                            def wrapped(I, t, bound):
                                r = inner(I, t, bound)
                                return I.new_list([r]) if r is not t else t
                            I.ret_models['get_fleet_center'] = wrapped
                    a = run_method(ctx, cls, 'construct', [], setup=st2, policy=inside(cls))
                    pairs = connected(ctx, key, a, vs, n, where, 'all vehicles agree on the centre')
                    want = {(i, j) for i in range(n) for j in range(i) if kind == 'full' or (i - j) % n in (1, n - 1)}
                    if pairs is not None:
                        for i, j in sorted(want):
                            for d in range(2):
                                ob = '%s.pair%d%d.%d' % (key, i, j, d)
                                if (i, j, d) in pairs:
                                    ctx.ok(ob, 'neighbours %d and %d agree on coordinate %d' % (i, j, d), where)
                                else:
                                    ctx.bad(ob, 'neighbours %d and %d do not agree on coordinate %d of the centre' % (i, j, d), where)
                    seen(ctx, key, a, vs, where, cls == 'RendezVous')
                    if cls != 'RendezVous':
                        b = run_spec(ctx, 'fleet.rest', cls, [], setup=st2, policy=inside(cls))
                        own = [e for e in b.events if e.name == '.define_constraint']
                        got = [e for e in a.events if e.name == '.define_constraint' and expr(e) is not None and relation(expr(e), n) is None]
                        a.events = [e for e in a.events if e.name != '.define_constraint'] + got
                        require_events(ctx, key + '.rest', a, b, ('.define_constraint',), 'the formation is at rest at the end', where)
                ctx.guard(key, go)
        def parameters():
            st, vs = problem(3, 'circular')
            a = run_method(ctx, cls, 'set_parameters', [S('current_time')], setup=st)
            b = run_spec(ctx, 'fleet.parameters', cls, [], setup=st)
            for v in vs:
                ctx.equal('%s.parameters.%s' % (cls, v.args[0]), entry(a.ret, v), entry(b.ret, v), 'relative position handed to the solver', ctx.loc(cls, 'set_parameters'))
        ctx.guard(cls + '.parameters', parameters)
    central(ctx)


def seen(ctx, key, a, vs, where, free=False):
    """every centre is computed from the vehicle's own splines and relative position"""
    for k, v in enumerate(vs):
        ob = '%s.own%d' % (key, k)
        got = a.I.seen_.get(v)
        if got is None:
            ctx.unknown(ob, 'centre not taken from get_fleet_center', where)
            continue
        txt = [heads_syms(a.I.freeze(x)) for x in got[:2] if x is not None]
        others = {'vehicle%d' % j for j in range(len(vs)) if j != k} | {'problem%d' % j for j in range(len(vs)) if j != k}
        if any(t & others for t in txt):
            ctx.bad(ob, 'the centre of vehicle %d is computed from data of another vehicle' % k, where)
        elif free or all(('vehicle%d' % k) in t for t in txt):
            ctx.ok(ob, 'the centre of vehicle %d is computed from its own splines and position' % k, where)
        else:
            ctx.unknown(ob, 'source of the centre not resolved', where)


def heads_syms(t):
    out = set()
    todo, done = [t], set()
    while todo:
        x = todo.pop()
        if x in done:
            continue
        done.add(x)
        if x.op == 'sym':
            out.add(x.args[0])
        if x.op == 'poly':
            for m, c in x.args:
                todo += [y for y, e in m]
        else:
            todo += [y for y in x.args if isinstance(y, Term)]
    return out


def connected(ctx, key, a, vs, n, where, what):
    """the equalities posed make all centres equal"""
    pairs, odd = set(), []
    for e in a.events:
        if e.name != '.define_constraint' or expr(e) is None:
            continue
        r = relation(expr(e), n)
        lb, ub = bounds_of(e)
        if r is not None and e.pc is TRUE and not e.loops and lb is ZERO and ub is ZERO:
            pairs.add(r)
        elif decided(expr(e), [C(k, d) for k in range(n) for d in range(2)]) or e.loops:
            odd.append(e)
    for d in range(2):
        grp = {0}
        while True:
            more = {x for (i, j, k) in pairs if k == d for x in (i, j) if i in grp or j in grp} - grp
            if not more:
                break
            grp |= more
        ob = '%s.agree%d' % (key, d)
        if len(grp) == n:
            ctx.ok(ob, '%s, coordinate %d' % (what, d), where)
        elif odd and False:
            ctx.unknown(ob, 'constraints not resolved', where)
        else:
            ctx.bad(ob, '%s, coordinate %d: only vehicles %s are tied together' % (what, d, sorted(grp)), where, str(sorted(grp)))
            return None
    return pairs


def arg(e, name, k):
    return e.kw.get(name, e.args[k] if len(e.args) > k else None)


def expr(e):
    return arg(e, 'expr', 0)


def bounds_of(e):
    return arg(e, 'lb', 1), arg(e, 'ub', 2)


def central(ctx):
    cls = 'FormationPoint2pointCentral'
    where = ctx.loc(cls, 'construct')
    for kind in ('circular', 'full'):
        for n in (2, 3, 4):
            for soft in (False, True):
                for dev in ((None, num(-0.25)) if soft else (None,)):
                    key = '%s.%s%d%s%s' % (cls, kind, n, '.soft' if soft else '', 'm' if dev is not None else '')

                    def go():
                        opts = [('soft_formation', TRUE if soft else FALSE), ('soft_formation_weight', S('weight')),
                                ('max_formation_deviation', T('ext', 'inf') if dev is None else dev), ('inter_vehicle_avoidance', FALSE)]
                        st, vs = problem(n, kind, opts)
                        slacks = {}

                        def st2(I, s):
                            st(I, s)

                            def slack(I, t, bound):
                                nm = bound.get('name')
                                return I.new_list([T('sym', 'slack<%s>' % short(nm, 60), 'notnone')]) if nm is not None else t
                            I.ret_models['define_spline_variable'] = slack
                            I.models.pop('.define_spline_variable', None)
                        a = run_method(ctx, cls, 'construct', [], setup=st2, policy=inside(cls))
                        if not soft:
                            connected(ctx, key, a, vs, n, where, 'all vehicles agree on the centre')
                        else:
                            softened(ctx, key, a, st, n, where, dev)
                        seen(ctx, key, a, vs, where)
                    ctx.guard(key, go)

    def parameters():
        st, vs = problem(3, 'circular')
        pol = std_policy(events=CALLS)
        p = lambda q: 'event' if q.endswith('FixedTPoint2point.set_parameters') else pol(q)

        def st2(I, s):
            st(I, s)
            I.ret_models['set_parameters'] = lambda I, t, b: I.new_dict([(vs[0], I.new_dict([(tstr('other'), S('other'))]))])
        a = run_method(ctx, cls, 'set_parameters', [S('current_time')], setup=st2, policy=p)
        for k, v in enumerate(vs):
            ctx.equal('%s.parameters%d' % (cls, k), entry(entry(a.ret, v), tstr('rel_pos_c')), S('rel_pos_c%d' % k), 'relative position handed to the solver',
                      ctx.loc(cls, 'set_parameters'))
        ctx.equal('%s.parameters.kept' % cls, entry(entry(a.ret, vs[0]), tstr('other')), S('other'), 'other parameters are kept', ctx.loc(cls, 'set_parameters'))
    ctx.guard(cls + '.parameters', parameters)


def softened(ctx, key, a, st, n, where, dev):
    """both signs of the deviation are below a slack of their own, whose integral is penalised"""
    up = {}
    for e in a.events:
        if e.name != '.define_constraint' or expr(e) is None or e.pc is not TRUE or e.loops:
            continue
        lb, ub = bounds_of(e)
        p = expr(e)
        for s in [x for x in syms_of(p) if x.args[0].startswith('slack<')]:
            r = relation(add(p, s), n)
            if r is not None and ub is ZERO:
                x = add(p, s)
                d = sub(C(r[0], r[2]), C(r[1], r[2]))
                up.setdefault((r, s), set()).add(1 if same(x, d) else -1)
    by = {}
    for (r, s), signs in up.items():
        if signs == {1, -1}:
            by.setdefault(r, []).append(s)
    for d in range(2):
        grp = {0}
        while True:
            more = {x for (i, j, k) in by if k == d for x in (i, j) if i in grp or j in grp} - grp
            if not more:
                break
            grp |= more
        ob = '%s.agree%d' % (key, d)
        if len(grp) == n:
            ctx.ok(ob, 'the deviation from the formation is bounded by slacks in both directions, coordinate %d' % d, where)
        else:
            ctx.bad(ob, 'the deviation in coordinate %d is bounded in both directions for vehicles %s only' % (d, sorted(grp)), where, str(sorted(grp)))
    used = [s for ss in by.values() for s in ss]
    if len(set(used)) < len(used):
        ctx.bad(key + '.shared', 'one slack bounds several deviations', where)
    elif used:
        ctx.ok(key + '.shared', 'every deviation has its own slack', where)
    objs = [expr(e) for e in a.events if e.name == '.define_objective' and expr(e) is not None and e.pc is TRUE]
    for s in sorted(set(used), key=lambda x: x.args[0]):
        b = run_spec(ctx, 'fleet.penalty', 'FormationPoint2pointCentral', [s], setup=st, policy=inside('FormationPoint2pointCentral'))
        ob = '%s.%s.weight' % (key, s.args[0])
        if any(same(o, b.ret) for o in objs):
            ctx.ok(ob, 'weighted integral of the slack', where)
        elif any(decided(o, [b.ret]) for o in objs):
            ctx.unknown(ob, 'objective not resolved', where)
        else:
            ctx.bad(ob, 'slack %s is not penalised by its weighted integral over the rest of the horizon' % s.args[0], where)
        if dev is not None:
            ob = '%s.%s.limit' % (key, s.args[0])
            want = sub(s, num(0.25))
            lims = []
            for e in a.events:
                x = expr(e) if e.name == '.define_constraint' and e.pc is TRUE else None
                lo, hi = bounds_of(e) if x is not None else (None, None)
                lims += [sub(x, hi)] if x is not None and hi is not None and is_num(hi) else []
                lims += [sub(lo, x)] if x is not None and lo is not None and is_num(lo) else []
            if any(same(x, want) for x in lims):
                ctx.ok(ob, 'slack limited to the largest deviation', where)
            else:
                ctx.bad(ob, 'slack %s is not limited to the largest deviation' % s.args[0], where)


def syms_of(p):
    out = set()
    todo = [p]
    while todo:
        x = todo.pop()
        if x.op == 'sym':
            out.add(x)
        elif x.op == 'poly':
            for m, c in x.args:
                todo += [y for y, e in m]
    return out


def meeting(ctx):
    cls = 'RendezVous'
    where = ctx.loc(cls, 'stop_criterium')
    for n in (2, 3):
        def go():
            st, vs = problem(n, 'circular')
            a = run_method(ctx, cls, 'stop_criterium', [S('current_time'), S('update_time')], setup=st)
            b = run_spec(ctx, 'fleet.met', cls, [], setup=st)
            ctx.equal('met%d' % n, truth(a.ret), truth(b.ret), 'stop when all neighbours are at their relative positions', where)
        ctx.guard('met%d' % n, go)
