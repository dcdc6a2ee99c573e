"""C17: the vehicles of a distributed problem negotiate by ADMM: each update is the step of the method, on the shared
variables of that vehicle and its neighbours, and the steps follow each other in the right order."""
from .dual import *
from ..core import std_policy

CASES = ((3, 'spline'), (2, 'spline'), (4, 'spline'), (3, 'other'), (3, 'both'), (3, 'part'))


def run(ctx):
    ctx.rules.append('C17: with casadi structures and functions evaluated symbolically, the results of the x-, z- and multiplier updates, the residuals, the '
                     'acceleration and the exchange of values equal those of the method, for every value of the variables, multipliers, time and penalty.')
    for n, shared in CASES:
        for what in (z_update, inequality, start, l_update, residuals, communicate, init_step, parameters, initial, x_update, x_result):
            key = '%s%d.%s' % (shared, n, what.__name__)
            ctx.guard(key, lambda: what(ctx, key, n, shared))
    acceleration(ctx)
    coupling(ctx, 'ADMM')
    rounds(ctx)
    return 60


def where(ctx, m, cls='ADMM'):
    return ctx.loc(cls, m)


def spec(ctx, f, *args):
    a = [T('list', *x) if isinstance(x, list) else x for x in args]
    return run_spec(ctx, 'admm.' + f, None, a, policy=inline, setup=lambda I, s: matrices_(I)).ret


def matrices_(I):
    from .. import matrices
    matrices.install(I)
    I.extra['mtimes'] = mt


QI = ('x_i', 'z_i', 'z_i_p', 'l_i', 'l_i_p')
QIJ = ('x_j', 'z_ij', 'z_ij_p', 'l_ij', 'l_ij_p')
QJI = ('z_ji', 'l_ji')


def store(w, k, only=None):
    """current values of an updater"""
    out = []
    for names, st in ((QI, 'q_i'), (QIJ, 'q_ij'), (QJI, 'q_ji')):
        for nm in names:
            out.append((tstr(nm), w.struct(k, st, '%s%d' % (nm, k))))
    w.I.st[('f', w.upd[k], 'var_admm')] = w.I.new_dict(out)
    return {a.args[0]: raw(w.I, b) for a, b in out}


def splines_of(w, j):
    """for the entries of q(j): slices of coefficients of one spline, None for the others"""
    out, at = [], 0
    for c, d in w.entries(j):
        for nm, ind in d:
            if nm.startswith('splines'):
                for s in range(0, len(ind), LEN):
                    out.append((at + s, LEN, True))
            else:
                out.append((at, len(ind), False))
            at += len(ind)
    return out


def shifted_all(w, vec_, js, nm, rest):
    """every spline in a structure with the variables of the vehicles js shifted"""
    out, at = [], 0
    for j in js:
        for a, n, isspl in splines_of(w, j):
            part = T('vec', *vec_.args[at + a: at + a + n])
            out += list(moved(nm, part, rest).args) if isspl else list(part.args)
        at += w.size(j)
    return T('vec', *out)


def t0(w):
    return div(T('mod', T('round', S('current_time')), S('knot_time')), S('horizon_time'))


def knot_phase(I):
    return I.binop


def now(w):
    """time since the last knot over the horizon, as the code computes it"""
    return None


def z_update(ctx, key, n, shared):
    w = World(ctx, 'ADMM', n, shared)
    wh = where(ctx, 'construct_upd_z')
    w.call(0, 'construct_upd_z')
    v = store(w, 0)
    w.call(0, 'update_z', S('current_time'))
    zi, zij = w.var(0, 'z_i'), w.var(0, 'z_ij')
    nb = w.neighbours(0)
    ph = phase(w)
    fwd = lambda x, js: shifted_all(w, x, js, 'shift_knot1_fwd', [w.B, ph])
    x = T('vec', *(fwd(v['x_i'], [0]).args + fwd(v['x_j'], nb).args))
    l = T('vec', *(fwd(v['l_i'], [0]).args + fwd(v['l_ij'], nb).args))
    A, b = equations(w)
    z = spec(ctx, 'consensus', x, l, A, b, S('rho'))
    m = w.size(0)
    wzi = shifted_all(w, T('vec', *z.args[:m]), [0], 'shift_knot1_bwd', [w.B, ph])
    wzij = shifted_all(w, T('vec', *z.args[m:]), nb, 'shift_knot1_bwd', [w.B, ph])
    for k in range(m):
        ctx.equal('%s.own%d' % (key, k), pick(zi, k), wzi.args[k], 'copy of the own variable', wh)
    for k in range(m*len(nb)):
        ctx.equal('%s.other%d' % (key, k), pick(zij, k), wzij.args[k], 'copy of the variable of the neighbour', wh)
    ctx.equal(key + '.last', w.var(0, 'z_i_p'), v['z_i'], 'previous copy is kept', where(ctx, 'update_z'))
    ctx.equal(key + '.lastj', w.var(0, 'z_ij_p'), v['z_ij'], 'previous copy is kept', where(ctx, 'update_z'))


def inequality(ctx, key, n, shared):
    """a coupling that is no equality has no closed z-update"""
    from ..interp import AlwaysRaises
    wh = where(ctx, '_check_for_lineq')
    for slack in (0, 0.5):
        w = World(ctx, 'ADMM', n, shared)
        w.couple(0, slack)
        raised = False
        try:
            w.call(0, 'construct_upd_z')
        except AlwaysRaises:
            raised = True
        ob = '%s.slack%s' % (key, slack)
        if raised == (slack > 0):
            ctx.ok(ob, 'only equality couplings are accepted', wh)
        elif not raised and not w.I.st.get(('f', w.upd[0], 'problem_upd_z')):
            ctx.unknown(ob, 'the z-update is not resolved')
        else:
            ctx.bad(ob, 'an equality coupling is refused' if raised else 'the bounds of an inequality coupling are ignored by the z-update', wh)


def start(ctx, key, n, shared, cls='ADMM', groups=((QI, 0), (QIJ, 1), (QJI, 2)), built=('upd_x', 'upd_z', 'upd_l', 'upd_res')):
    """copies and multipliers start at zero"""
    w = World(ctx, cls, n, shared)
    I = w.I
    wh = where(ctx, 'init', cls)
    for x in built:
        I.models['.construct_' + x] = lambda I, *a, **k: ZERO
    w.call(0, 'init')
    m, nb = w.size(0), len(w.neighbours(0))
    for names, g in groups:
        for nm in names:
            ctx.equal('%s.%s' % (key, nm), w.var(0, nm, STORES[cls]), T('vec', *([ZERO]*(m*(1 if g == 0 else nb)))), nm + ' starts at zero', wh)


def pick(v, k):
    return v.args[k] if v.op == 'vec' and k < len(v.args) else T('getitem', v, num(k))


def phase(w):
    I = w.I
    import ast
    r = I.binop(ast.Mod(), T('round', S('current_time')), S('knot_time'))
    return div(r, S('horizon_time'))


def equations(w, k=0):
    """A z = b for the entries [own, neighbours]: x + rel = x_j"""
    m, nb = w.size(k), w.neighbours(k)
    A, b = [], []
    for q, j in enumerate(nb):
        for r in range(m):
            row = [ZERO]*(m*(1 + len(nb)))
            row[r] = num(1)
            row[m*(1 + q) + r] = num(-1)
            A.append(T('vec', *row))
            b.append(sub(num(0.75), S('rel%d' % (r % 2))))
    return T('vec', *A), T('vec', *b)


def l_update(ctx, key, n, shared):
    w = World(ctx, 'ADMM', n, shared)
    wh = where(ctx, 'construct_upd_l')
    w.call(0, 'construct_upd_l')
    v = store(w, 0)
    w.call(0, 'update_l', S('current_time'))
    for a, x, z in (('l_i', 'x_i', 'z_i'), ('l_ij', 'x_j', 'z_ij')):
        want = spec(ctx, 'multiplier', v[a], v[x], v[z], S('rho'))
        ctx.equal('%s.%s' % (key, a), w.var(0, a), want, 'multiplier after its update', wh)
        ctx.equal('%s.%s_p' % (key, a), w.var(0, a + '_p'), v[a], 'previous multiplier is kept', where(ctx, 'update_l'))


def residuals(ctx, key, n, shared):
    w = World(ctx, 'ADMM', n, shared)
    w.call(0, 'construct_upd_res')
    v = store(w, 0)
    r = w.I.freeze(w.call(0, 'get_residuals', S('current_time')))
    nb, ph = w.neighbours(0), phase(w)
    fwd = lambda a, b: T('vec', *(shifted_all(w, v[a], [0], 'shift_knot1_fwd', [w.B, ph]).args + shifted_all(w, v[b], nb, 'shift_knot1_fwd', [w.B, ph]).args))
    want = spec(ctx, 'residuals', fwd('x_i', 'x_j'), fwd('z_i', 'z_ij'), fwd('z_i_p', 'z_ij_p'), S('rho'))
    for k, nm in enumerate(('primal', 'dual', 'combined')):
        got = r.args[k + 1] if r.op == 'tuple' and len(r.args) == 4 else T('getitem', r, num(k + 1))
        ctx.equal('%s.%s' % (key, nm), got, want.args[k], nm + ' residual (squared)', where(ctx, 'construct_upd_res'))


def communicate(ctx, key, n, shared, cls='ADMM'):
    w = World(ctx, cls, n, shared)
    st, vs = STORES[cls], []
    vs = [STORE[cls](w, k) for k in range(n)]
    for k in range(n):
        w.call(k, 'communicate')
    for k in range(n):
        for q, j in enumerate(w.neighbours(k)):
            m = w.size(k)
            ctx.equal('%s.%d.x%d' % (key, k, j), part(w.var(k, 'x_j', st), q*m, m), vs[j]['x_i'], 'variables of a neighbour', where(ctx, 'communicate', cls))
            p = w.neighbours(j).index(k)
            for a, b in ((('z_ji', 'z_ij'), ('l_ji', 'l_ij')) if cls == 'ADMM' else (('l_ji', 'l_ij'),)):
                ctx.equal('%s.%d.%s%d' % (key, k, a, j), part(w.var(k, a, st), q*m, m), part(vs[j][b], p*m, m), 'what the neighbour holds of the own variables',
                          where(ctx, 'communicate', cls))


def part(v, lo, n):
    return T('vec', *v.args[lo:lo + n]) if v.op == 'vec' and len(v.args) >= lo + n else T('part', v, num(lo))


STORE = {'ADMM': store}
STORES = {'ADMM': 'var_admm', 'DDUpdater': 'var_dd'}


def init_step(ctx, key, n, shared, cls='ADMM', groups=((QI, 0), (QIJ, 1), (QJI, 2))):
    st, wh = STORES[cls], where(ctx, 'init_step', cls)
    for tm_, crossed in ((num(0), False), (num(0.3), False), (num(1), True), (num(1.0000000001), True), (num(1.5), False), (num(0.9999999), True)):
        w = World(ctx, cls, n, shared)
        I = w.I
        I.st[('f', w.prob[0], 'knot_time')] = num(0.5) if False else num(1)
        I.extra['round'] = exact_round
        v = STORE[cls](w, 0)
        w.call(0, 'init_step', tm_, S('update_time'))
        nb = w.neighbours(0)
        ob = '%s.t%s' % (key, show(tm_))
        ev = [e for e in I.events if e.name == '.init_step']
        if len(ev) == 1 and ev[0].recv is w.prob[0] and [I.freeze(x) for x in list(ev[0].kw.values())[:2]] == [tm_, S('update_time')]:
            ctx.ok(ob + '.problem', 'the problem of the vehicle prepares its step', wh)
        else:
            ctx.bad(ob + '.problem', 'the problem of the vehicle does not prepare its step', wh)
        for names, g in groups:
            for nm in names:
                js = ([0], nb, [0]*len(nb))[g]
                want = shifted_all(w, v[nm], js, 'shift_over_knot', [w.B]) if crossed else v[nm]
                ctx.equal('%s.%s' % (ob, nm), w.var(0, nm, st), want, '%s %s' % (nm, 'moved over the knot' if crossed else 'kept'), wh)


def exact_round(I, a, kw):
    x = numval(I.freeze(a[0]))
    d = numval(a[1]) if len(a) > 1 else 0
    if x is None:
        return T('round', I.freeze(a[0]))
    from fractions import Fraction
    s = Fraction(10)**int(d)
    return num(Fraction(round(x*s))/s)


def parameters(ctx, key, n, shared):
    w = World(ctx, 'ADMM', n, shared)
    v = store(w, 0)
    other = O('other')
    w.I.ret_models['set_parameters'] = lambda I, t, b: I.new_dict([(other, S('kept'))])
    r = w.I.freeze(w.call(0, 'set_parameters', S('current_time')))
    mine = entry(r, w.upd[0])
    wh = where(ctx, 'set_parameters')
    for nm in ('z_i', 'z_ji', 'l_i', 'l_ji'):
        x = entry(mine, tstr(nm))
        ctx.equal('%s.%s' % (key, nm), raw(w.I, x) if x is not None else T('missing'), v[nm], nm + ' handed to the x-update', wh)
    ctx.equal(key + '.rho', entry(mine, tstr('rho')), S('rho'), 'penalty handed to the x-update', wh)
    ctx.equal(key + '.kept', entry(r, other), S('kept'), 'parameters of the coupling kept', wh)


def entry(d, k):
    if d is None or d.op != 'dict':
        return None
    for x in reversed(d.args):
        if isinstance(x, Term) and x.op == 'kv' and x.args[0] is k:
            return x.args[1]
    return None


def own_values(w, k):
    out = []
    for c, d in w.entries(k):
        for nm, ind in d:
            m = raw(w.I, w.variable(c, nm, True))
            out += [S('num<%s>' % m.args[i].args[0]) for i in ind]
    return T('vec', *out)


def initial(ctx, key, n, shared):
    w = World(ctx, 'ADMM', n, shared)
    v = store(w, 0)
    w.call(0, 'init_var_admm')
    want = own_values(w, 0)
    wh = where(ctx, 'init_var_admm')
    nb = len(w.neighbours(0))
    for nm, x in (('x_i', want), ('z_i', want), ('z_ji', T('vec', *(list(want.args)*nb)))):
        ctx.equal('%s.%s' % (key, nm), w.var(0, nm), x, 'start of ' + nm, wh)
    for nm in ('l_i', 'l_ij', 'l_ji'):
        ctx.equal('%s.%s' % (key, nm), w.var(0, nm), v[nm], 'multipliers are kept', wh)


def x_update(ctx, key, n, shared):
    for ama in (FALSE, TRUE):
        w = World(ctx, 'ADMM', n, shared, [('AMA', ama)])
        I = w.I
        pars = {}

        def parameter(I, t, b):
            nm = b['name'].args[0]
            size = b.get('size0')
            size = int(numval(size)) if size is not None and numval(size) is not None else 1
            if nm == 'rho':
                pars[nm] = S('rho')
                return S('rho')
            pars[nm] = T('vec', *[S('%s.%d' % (nm, k)) for k in range(size)])
            return mx(I, ctx, pars[nm], 'MX', nm)
        I.ret_models['define_parameter'] = parameter
        I.ret_models['define_symbol'] = lambda I, t, b: S(b['name'].args[0])
        I.ret_models['construct_problem'] = lambda I, t, b: T('tuple', S('prob'), S('buildtime'))
        I.st[('f', w.upd[0], 'group')] = I.new_dict([(tstr('a'), w.veh[0])])
        store(w, 0)
        w.call(0, 'construct_upd_x')
        wh = where(ctx, 'construct_upd_x')
        k2 = key + ('.ama' if ama is TRUE else '')
        obj = [e for e in I.events if e.name == '.define_objective']
        nb = w.neighbours(0)
        ph = div(S('t'), S('T'))
        fwd = lambda x, js: shifted_all(w, x, js, 'shift_knot1_fwd', [w.B, ph])
        x = fwd(T('vec', *w.values_of(0, True)), [0])
        m = w.size(0)
        sizes = {'z_i': m, 'l_i': m, 'z_ji': m*len(nb), 'l_ji': m*len(nb)}
        for nm, s in sizes.items():
            if nm not in pars or len(pars[nm].args) != s:
                ctx.bad('%s.%s' % (k2, nm), 'parameter %s of the x-update is missing or has another size' % nm, wh, show(pars.get(nm, S('none')))[:40])
                return
        pairs = [(fwd(pars['z_i'], [0]), fwd(pars['l_i'], [0]))]
        for q in range(len(nb)):
            cut = lambda nm: fwd(T('vec', *pars[nm].args[q*m:(q + 1)*m]), [0])
            pairs.append((cut('z_ji'), cut('l_ji')))
        ps = [T('tuple', *p) for p in pairs]
        want = spec(ctx, 'linear', x, ps) if ama is TRUE else spec(ctx, 'lagrangian', x, ps, S('rho'))
        got = ZERO
        for e in obj:
            o = e.kw.get('expr')
            got = add(got, scalar_of(raw(I, o)))
        if not obj:
            ctx.bad(k2 + '.objective', 'no objective posed for the x-update', wh)
        else:
            ctx.equal(k2 + '.objective', got, want, 'augmented Lagrangian of the x-update', wh)
        b = I.st.get(('f', w.prob[0], 'father'))
        f = I.st.get(('f', w.upd[0], 'father_updx'))
        if b is not None and f is not None and b is f:
            ctx.ok(k2 + '.father', 'the problem of the vehicle works on the variables of the x-update', wh)
        else:
            ctx.bad(k2 + '.father', 'the problem of the vehicle does not work on the variables of the x-update', wh)


def scalar_of(t):
    return t.args[0] if t.op == 'vec' and len(t.args) == 1 else t


def x_result(ctx, key, n, shared):
    w = World(ctx, 'ADMM', n, shared)
    I = w.I
    wh = where(ctx, 'update_x')
    store(w, 0)
    I.st[('f', w.upd[0], 'problem_upd_x')] = O('solver')
    I.ret_models['update_bounds'] = lambda I, t, b: T('tuple', S('lb'), S('ub'))
    I.ret_models['set_parameters'] = lambda I, t, b: S('par') if I.last_recv is O('fx0') else t
    calls = []

    def getv(I, t, b):
        nm = b.get('name')
        return w.get_variables(I, t, b) if nm is not None and nm.op == 'str' else S('guess')
    I.ret_models['get_variables'] = getv
    w.call(0, 'update_x', S('current_time'))
    ctx.equal(key + '.x', w.var(0, 'x_i'), own_values(w, 0), 'shared variables after the x-update', wh)
    sv = [e for e in I.events if e.name == '.set_variables']
    sol = [x for x in (subterms_of(I.freeze(sv[0].kw.get('variables', list(sv[0].kw.values())[0]))) if sv else []) if x.op in ('mcall', 'call', 'fcall', 'ocall')]
    for nm, want in (('p', 'par'), ('x0', 'guess'), ('lbg', 'lb'), ('ubg', 'ub')):
        if sv and any(S(want) in subterms_of(x) for x in sol):
            ctx.ok('%s.%s' % (key, nm), '%s handed to the solver, its result kept' % nm, wh)
        elif not sv:
            ctx.bad('%s.%s' % (key, nm), 'the result of the x-update is not stored', wh)
        else:
            ctx.bad('%s.%s' % (key, nm), '%s is not handed to the solver of the x-update' % nm, wh)


def acceleration(ctx):
    wh = where(ctx, 'accelerate')
    for ama in (FALSE, TRUE):
        for reset in (FALSE, TRUE):
            for first in (True, False):
                for better in ((True, False) if reset is TRUE else (True,)):
                    key = 'accelerate.%s%s%s%s' % ('ama.' if ama is TRUE else '', 'reset.' if reset is TRUE else '', 'first' if first else 'later', '' if better else '.worse')

                    def go():
                        w = World(ctx, 'ADMM', 2, 'spline', [('AMA', ama), ('nesterov_reset', reset), ('eta', num(0.5))])
                        I = w.I
                        v = store(w, 0)
                        al, c = num(1), num(4)
                        if not first:
                            al = S('alpha')
                            I.st[('f', w.upd[0], 'alpha')] = al
                            I.st[('f', w.upd[0], 'c_res_p')] = num(10 if better else 6)
                        if first and not better:
                            return
                        w.call(0, 'accelerate', c)
                        quick = better
                        for nm in ('z_i', 'z_ij', 'l_i', 'l_ij'):
                            if not quick:
                                want = v[nm + '_p']
                            elif ama is TRUE and nm[0] == 'z':
                                want = v[nm]
                            else:
                                want = spec(ctx, 'ahead', v[nm], v[nm + '_p'], al)
                            ctx.equal('%s.%s' % (key, nm), w.var(0, nm), want, '%s after acceleration' % nm, wh)
                        want = spec(ctx, 'momentum', al) if quick else num(1)
                        ctx.equal(key + '.alpha', w.field(0, 'alpha'), want, 'momentum', wh)
                        ctx.equal(key + '.c', w.field(0, 'c_res_p'), c if quick else num(12), 'residual to compare the next with', wh)
                    ctx.guard(key, go)


# constraints between vehicles: (variables they depend on, with the entries), parameters
LAYOUTS = {
    'pair': (2, [([(0, 'a', (0, 1)), (1, 'a', (0, 1))], ())], ()),
    'ring': (3, [([(0, 'a', (0, 1)), (1, 'a', (0, 1))], ('p',)), ([(1, 'a', (0, 1)), (2, 'a', (0, 1))], ()), ([(2, 'a', (0, 1)), (0, 'a', (0, 1))], ())], ('p',)),
    'split': (3, [([(0, 'a', (3, 1)), (2, 'a', (2, 3))], ()), ([(0, 'a', (0, 1)), (1, 'b', (0,))], ('q',))], ('q',)),
    'three': (4, [([(0, 'a', (0,)), (1, 'a', (0,)), (2, 'a', (1,))], ('p', 'q')), ([(2, 'b', (0,)), (1, 'a', (1,))], ('p',))], ('p', 'q')),
    'twice': (2, [([(0, 'a', (2, 1)), (1, 'a', (1, 2))], ()), ([(0, 'a', (1, 3)), (1, 'a', (2, 0))], ())], ()),
    'alone': (2, [([(1, 'a', (0, 1))], ('p',))], ('p',)),
}


def coupling(ctx, cls):
    wh = where(ctx, 'interprete_constraints', 'DistributedProblem')
    for lay, (n, cons, pars) in LAYOUTS.items():
        key = 'coupling.' + lay

        def go():
            I = ctx.interp(policy=lambda q: 'inline' if q.split('.')[-2] in ('DistributedProblem', 'OptiChild') or q.startswith('spec.structs') else 'event')
            install(I, ctx)
            I.max_depth = 40
            me = T('sym', 'self', 'notnone')
            I.types[me] = ctx.prog.cls('ADMMProblem')
            upd, veh = [O('upd%d' % k) for k in range(n)], [O('veh%d' % k) for k in range(n)]
            probs, env, obst = [O('prob%d' % k) for k in range(n)], O('env'), O('obst')
            table = {}
            for k in range(n):
                I.types[upd[k]], I.types[veh[k]], I.types[probs[k]] = ctx.prog.cls('ADMM'), ctx.prog.cls('Holonomic'), ctx.prog.cls('FixedTPoint2point')
                sd = []
                for nm in ('a', 'b'):
                    m = mx(I, ctx, T('vec', *[S('%s%d.%d' % (nm, k, i)) for i in range(4)]), 'MX', '%s%d' % (nm, k))
                    table[k, nm] = m
                    sd.append((tstr('%s%d' % (nm, k)), I.new_list([m, tstr(nm)])))
                # a variable of the vehicle (a) and one of its problem (b)
                for o, e in ((veh[k], sd[:1]), (probs[k], sd[1:]), (upd[k], [])):
                    I.st[('f', o, 'symbol_dict')] = I.new_dict(e)
                    I.st[('f', o, '_index')] = num(k)
            child = lambda k, nm: veh[k] if nm == 'a' else probs[k]
            compose = [(tstr('%s%d' % (nm, k)), I.new_list([child(k, nm), tstr(nm)])) for k in range(n) for nm in ('a', 'b')]
            for o in (env, obst):
                I.st[('f', o, 'symbol_dict')] = I.new_dict([])
            I.types[env] = ctx.prog.cls('Environment')
            I.st[('f', env, 'obstacles')] = I.new_list([obst])
            for k in range(n):
                for o in (veh[k], probs[k]):
                    I.st[('f', o, 'symbol_dict')] = I.new_dict([(a, b) for a, b in compose if I.concrete_items(b)[0] is o])
            I.st[('f', me, 'vehicles')] = I.new_list(veh)
            I.st[('f', me, 'problems')] = I.new_list(probs)
            I.st[('f', me, 'environment')] = env
            fl_ = O('fleet')
            I.st[('f', me, 'fleet')] = fl_
            I.st[('f', fl_, 'N')] = num(n)
            psym = {p: mx(I, ctx, T('vec', S('%s.0' % p)), 'MX', 'my_' + p) for p in ('p', 'q')}
            I.st[('f', me, 'symbol_dict')] = I.new_dict([(tstr('my_' + p), I.new_list([me, tstr(p)])) for p in ('p', 'q')])
            I.st[('f', me, '_parameters')] = I.new_dict([(tstr(p), psym[p]) for p in ('p', 'q')])
            exprs = [S('con%d' % c) for c in range(len(cons))]
            tuples = [T('tuple', exprs[c], S('lb%d' % c), S('ub%d' % c)) for c in range(len(cons))]
            I.st[('f', me, '_constraints')] = I.new_dict([(tstr('c%d' % c), tuples[c]) for c in range(len(cons))])

            def dependency(I, t, b):
                e = I.freeze(list(b.values())[0])
                if e not in exprs:
                    return t
                deps, ps = cons[exprs.index(e)]
                return I.new_dict([(table[k, nm], I.new_list([num(i) for i in ind])) for k, nm, ind in deps] + [(psym[p], I.new_list([ZERO])) for p in ps])
            I.ret_models['get_dependency'] = dependency
            I.call_method(ctx.prog.cls('DistributedProblem'), 'interprete_constraints', [I.new_list(upd)], {}, self_term=me)
            q_i, q_ij, mine, par = {}, {}, {k: [] for k in range(n)}, {k: set() for k in range(n)}
            for c, (deps, ps) in enumerate(cons):
                for k, nm, ind in deps:
                    mine[k].append(tuples[c])
                    par[k] |= set(ps)
                    q_i.setdefault(k, {}).setdefault((child(k, nm), nm), set()).update(ind)
                    for k2, nm2, ind2 in deps:
                        if k2 != k:
                            q_ij.setdefault(k, {}).setdefault(k2, {}).setdefault((child(k2, nm2), nm2), set()).update(ind2)
            for k in range(n):
                f = lambda nm: I.freeze(I.st[('f', upd[k], nm)])
                own = {(a, nm.args[0]): numbers(v) for a, b in pairs_of(f('q_i')) for nm, v in pairs_of(b)}
                verdict(ctx, '%s.%d.q_i' % (key, k), own, {a: sorted(b) for a, b in q_i.get(k, {}).items()}, 'shared variables of vehicle %d' % k, wh)
                for nm, want in (('q_ij', {upd[j]: v for j, v in q_ij.get(k, {}).items()}),
                                 ('q_ji', {upd[j]: v[k] for j, v in q_ij.items() if k in v})):
                    got = {(u, a, x.args[0]): numbers(v) for u, d in pairs_of(f(nm)) for a, b in pairs_of(d) for x, v in pairs_of(b)}
                    w2 = {(u,) + a: sorted(b) for u, d in want.items() for a, b in d.items()}
                    verdict(ctx, '%s.%d.%s' % (key, k, nm), got, w2, '%s of vehicle %d' % ('variables of others vehicle %d is coupled to' % k if nm == 'q_ij' else
                                                                                         'own variables seen by others', k), wh)
                verdict(ctx, '%s.%d.par' % (key, k), set(a.args[0] for a, b in pairs_of(f('par_global'))), par[k], 'parameters of the couplings', wh)
                got = I.freeze(I.st[('f', upd[k], 'global_constraints')])
                verdict(ctx, '%s.%d.constraints' % (key, k), set(got.args), set(mine[k]), 'couplings vehicle %d takes part in' % k, wh)
        ctx.guard(key, go)


def numbers(v):
    if v.op not in ('list', 'vec', 'tuple') or any(numval(x) is None for x in v.args):
        raise Unresolved(show(v)[:120])
    return [int(numval(x)) if numval(x) is not None else x for x in v.args]


class Unresolved(Exception):
    pass


def pairs_of(d):
    if d.op != 'dict' or d.args[0] is not NONE or any(x.op != 'kv' for x in d.args[1:]):
        raise Unresolved(show(d)[:120])
    return [(x.args[0], x.args[1]) for x in d.args[1:]]


def verdict(ctx, ob, got, want, what, wh):
    if got == want:
        ctx.ok(ob, what, wh)
    else:
        ctx.bad(ob, '%s: %s instead of %s' % (what, plainly(got), plainly(want)), wh, plainly(got))


def plainly(x):
    if isinstance(x, dict):
        return '{%s}' % ', '.join(sorted('%s: %s' % (plainly(a), plainly(b)) for a, b in x.items()))
    if isinstance(x, (list, tuple)) and not isinstance(x, Term):
        return '[%s]' % ', '.join(plainly(y) for y in x)
    if isinstance(x, set):
        return '{%s}' % ', '.join(sorted(plainly(y) for y in x))
    return show(x) if isinstance(x, Term) else str(x)


STEPS = {'ADMMProblem': ['init_step', 'update_x', 'communicate', 'update_z', 'update_l', 'get_residuals', 'accelerate', 'communicate'],
         'DDProblem': ['init_step', 'update_xz', 'communicate', 'update_l', 'get_residuals', 'communicate']}


def rounds(ctx, cls='ADMMProblem', upd_cls='ADMM'):
    """one round of updates: nobody goes on before everybody has finished what the step needs"""
    wh = where(ctx, 'dual_update', cls)
    for n in (2, 3):
        for nest in (FALSE, TRUE) if cls == 'ADMMProblem' else (FALSE,):
            key = 'round%d%s' % (n, '.accelerated' if nest is TRUE else '')

            def go():
                names = set(STEPS[cls])
                I = ctx.interp(policy=lambda q: 'event' if q.split('.')[-1] in names else 'inline' if q.split('.')[-2] in (cls, 'DualProblem') else 'event')
                install(I, ctx)
                me = T('sym', 'self', 'notnone')
                I.types[me] = ctx.prog.cls(cls)
                us = [O('upd%d' % k) for k in range(n)]
                for u in us:
                    I.types[u] = ctx.prog.cls(upd_cls)
                    I.st[('f', u, 'label')] = tstr(u.args[0])
                I.st[('f', me, 'updaters')] = I.new_list(us)
                I.st[('f', me, 'options')] = I.new_dict([(tstr('verbose'), ZERO), (tstr('nesterov_acceleration'), nest)])
                I.st[('f', me, 'iteration')] = S('iteration')
                I.st[('f', me, 'update_times')] = I.new_list([])
                I.st[('f', me, 'residuals')] = I.new_dict([(tstr(r), T('vec', S(r + '_before'))) for r in ('primal', 'dual', 'combined')])
                tim = lambda nm: (lambda I, t, b: S('time_' + nm))
                for nm in ('update_x', 'update_z', 'update_l', 'update_xz'):
                    I.ret_models[nm] = tim(nm)

                def res(I, t, b):
                    u = I.last_recv.args[0]
                    if cls == 'DDProblem':
                        return T('tuple', S('time_res'), S('pr_' + u))
                    return T('tuple', S('time_res'), S('pr_' + u), S('dr_' + u), S('cr_' + u))
                I.ret_models['get_residuals'] = res
                I.call_method(I.types[me], 'dual_update', [S('current_time'), S('update_time')], {}, self_term=me)
                ev = [(k, e) for k, e in enumerate(I.events) if e.name.lstrip('.') in names and e.recv in us]
                at = {}
                for k, e in ev:
                    at.setdefault((e.name.lstrip('.'), e.recv), []).append(k)
                steps = [x for x in STEPS[cls] if x != 'accelerate' or nest is TRUE]
                bad = []
                for u in us:
                    for x in set(steps) | ({'accelerate'} if nest is FALSE else set()):
                        if len(at.get((x, u), [])) != steps.count(x):
                            bad.append('%s is called %d times for %s' % (x, len(at.get((x, u), [])), u.args[0]))
                if not bad:
                    pos = lambda x, u, q=0: at[x, u][q]
                    for u in us:
                        for v in us:
                            for x, qx, y, qy, all_ in order_of(cls, nest):
                                if (all_ or u is v) and not pos(x, u, qx) < pos(y, v, qy):
                                    bad.append('%s of %s comes after %s of %s' % (x, u.args[0], y, v.args[0]))
                if bad:
                    ctx.bad(key + '.order', bad[0], wh, bad[0])
                else:
                    ctx.ok(key + '.order', 'order of the updates of all vehicles', wh)
                for k, e in ev:
                    nm = e.name.lstrip('.')
                    vals = [I.freeze(x) for x in e.kw.values() if isinstance(x, Term)]
                    if nm in ('init_step',):
                        verdict(ctx, '%s.%s.%s' % (key, nm, e.recv.args[0]), vals[:2], [S('current_time'), S('update_time')], 'time handed to ' + nm, wh)
                    elif nm.startswith('update') or nm == 'get_residuals':
                        verdict(ctx, '%s.%s.%s' % (key, nm, e.recv.args[0]), vals[:1], [S('current_time')], 'time handed to ' + nm, wh)
                    elif nm == 'accelerate':
                        ctx.equal('%s.%s.%s' % (key, nm, e.recv.args[0]), vals[0], sums(us, 'cr_'), 'combined residual of all vehicles', wh)
                ctx.equal(key + '.iteration', I.st[('f', me, 'iteration')], add(S('iteration'), num(1)), 'number of rounds', wh)
                want = {'primal': sqrt_(sums(us, 'pr_'))}
                if cls == 'ADMMProblem':
                    want.update({'dual': sqrt_(sums(us, 'dr_')), 'combined': sums(us, 'cr_')})
                rd = I.st[('f', me, 'residuals')]
                for r, x in want.items():
                    got = I.freeze(I.getitem(rd, tstr(r)))
                    ctx.equal('%s.%s' % (key, r), got, T('vec', S(r + '_before'), x), 'history of the %s residual' % r, wh)
            ctx.guard(key, go)
    for m in (0, 1, 3):
        def go2():
            I = ctx.interp(policy=lambda q: 'inline' if q.endswith('DualProblem.solve') or q.endswith('DualProblem.initialize') else 'event')
            install(I, ctx)
            me = T('sym', 'self', 'notnone')
            I.types[me] = ctx.prog.cls(cls)
            I.st[('f', me, 'options')] = I.new_dict([(tstr('max_iter_per_update'), num(m)), (tstr('init_iter'), num(m))])
            I.st[('f', me, 'iteration')] = num(7)
            I.st[('f', me, 'start_time')] = S('start_time')
            I.st[('f', me, '_objectives')] = I.new_list([])
            I.st[('f', me, '_stacked_x')] = I.new_list([])

            def one(I, t, b):
                I.st[('f', me, 'iteration')] = add(I.st[('f', me, 'iteration')], num(1))
                return NONE
            I.ret_models['dual_update'] = one
            I.call_method(I.types[me], 'solve', [S('current_time'), S('update_time')], {}, self_term=me)
            ev = [[I.freeze(x) for x in list(e.kw.values())[:2]] for e in I.events if e.name == '.dual_update']
            verdict(ctx, 'solve%d' % m, ev, [[sub(S('current_time'), S('start_time')), S('update_time')]]*m, 'rounds per solve', where(ctx, 'solve', 'DualProblem'))
            if m:
                I.policy = lambda q: 'inline' if q.endswith('DualProblem.initialize') else 'event'
                k = len(I.events)
                I.call_method(I.types[me], 'initialize', [S('now')], {}, self_term=me)
                ev = [[I.freeze(x) for x in list(e.kw.values())[:2]] for e in I.events[k:] if e.name == '.solve']
                verdict(ctx, 'initialize%d' % m, ev, [[S('now'), ZERO]]*m, 'rounds before the start', where(ctx, 'initialize', 'DualProblem'))
                ctx.equal('initialize%d.start' % m, I.st[('f', me, 'start_time')], S('now'), 'start time', where(ctx, 'initialize', 'DualProblem'))
        ctx.guard('solve%d' % m, go2)


def order_of(cls, nest):
    """(step, occurrence, later step, occurrence, for every pair of vehicles)"""
    x = 'update_x' if cls == 'ADMMProblem' else 'update_xz'
    out = [('init_step', 0, x, 0, False), (x, 0, 'communicate', 0, True), ('update_l', 0, 'communicate', 1, True), ('get_residuals', 0, 'communicate', 1, False)]
    if cls == 'ADMMProblem':
        out += [('communicate', 0, 'update_z', 0, False), ('update_z', 0, 'update_l', 0, False), ('update_z', 0, 'get_residuals', 0, False), ('update_z', 0, 'communicate', 1, True)]
        if nest is TRUE:
            out += [('get_residuals', 0, 'accelerate', 0, True), ('update_l', 0, 'accelerate', 0, False), ('accelerate', 0, 'communicate', 1, True)]
    else:
        out += [('communicate', 0, 'update_l', 0, False), ('communicate', 0, 'get_residuals', 0, False)]
    return out


def sums(us, p):
    r = ZERO
    for u in us:
        r = add(r, S(p + u.args[0]))
    return r
