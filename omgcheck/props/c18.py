"""C18: the updates of dual decomposition are those of the method"""
from ..terms import *
from ..terms import show
from .dual import *
from . import c17
from .c17 import spec, where, verdict, shifted_all, part, phase, own_values, S, O, scalar_of, tstr, entry, CASES
from .c17 import subterms_of, raw, mx, pick

CLS = 'DDUpdater'
X, XJ, LJI = ('x_i',), ('x_j', 'z_ij', 'l_ij', 'l_ij_p'), ('l_ji',)


def store(w, k, only=None):
    out = []
    for names, st in ((X, 'q_i'), (XJ + ('z_ij_p',), 'q_ij'), (LJI, 'q_ji')):
        for nm in names:
            out.append((tstr(nm), w.struct(k, st, '%s%d' % (nm, k))))
    w.I.st[('f', w.upd[k], 'var_dd')] = w.I.new_dict(out)
    return {a.args[0]: raw(w.I, b) for a, b in out}


c17.STORE[CLS] = store


def run(ctx):
    ctx.rules.append('C18: with casadi structures and functions evaluated symbolically, the objective and constraints of the update of vehicle and copies, the '
                     'update of the multipliers, the residuals and the exchange of values equal those of dual decomposition, for every value of the variables, '
                     'multipliers, time and step.')
    groups = ((X, 0), (XJ, 1), (LJI, 2))
    for n, shared in CASES:
        for name, f in (('start', lambda k: c17.start(ctx, k, n, shared, CLS, groups, ('upd_xz', 'upd_l'))),
                        ('communicate', lambda k: c17.communicate(ctx, k, n, shared, CLS)),
                        ('init_step', lambda k: c17.init_step(ctx, k, n, shared, CLS, groups)),
                        ('update', lambda k: update(ctx, k, n, shared)), ('result', lambda k: result(ctx, k, n, shared)),
                        ('l_update', lambda k: l_update(ctx, k, n, shared)), ('residuals', lambda k: residuals(ctx, k, n, shared)),
                        ('parameters', lambda k: parameters(ctx, k, n, shared)), ('initial', lambda k: initial(ctx, k, n, shared))):
            key = '%s%d.%s' % (shared, n, name)
            ctx.guard(key, lambda: f(key))
    c17.rounds(ctx, 'DDProblem', CLS)
    return 50


def var(w, k, nm):
    return w.var(k, nm, 'var_dd')


def l_update(ctx, key, n, shared):
    w = World(ctx, CLS, n, shared)
    w.call(0, 'construct_upd_l')
    v = store(w, 0)
    w.call(0, 'update_l', S('current_time'))
    want = spec(ctx, 'multiplier', v['l_ij'], v['x_j'], v['z_ij'], S('rho'))
    ctx.equal(key + '.l_ij', var(w, 0, 'l_ij'), want, 'multiplier after its update', where(ctx, 'construct_upd_l', CLS))
    ctx.equal(key + '.l_ij_p', var(w, 0, 'l_ij_p'), v['l_ij'], 'previous multiplier is kept', where(ctx, 'update_l', CLS))


def residuals(ctx, key, n, shared):
    w = World(ctx, CLS, n, shared)
    v = store(w, 0)
    r = w.I.freeze(w.call(0, 'get_residuals', S('current_time')))
    nb, ph = w.neighbours(0), phase(w)
    fwd = lambda a: shifted_all(w, v[a], nb, 'shift_knot1_fwd', [w.B, ph])
    want = spec(ctx, 'distance', fwd('x_j'), fwd('z_ij'))
    got = r.args[1] if r.op == 'tuple' and len(r.args) == 2 else T('getitem', r, num(1))
    ctx.equal(key + '.primal', got, want, 'primal residual (squared)', where(ctx, 'get_residuals', CLS))


def parameters(ctx, key, n, shared):
    w = World(ctx, CLS, n, shared)
    v = store(w, 0)
    other = O('other')
    rel = T('vec', S('rel0'), S('rel1'))
    w.I.ret_models['set_parameters'] = lambda I, t, b: I.new_dict([(other, S('kept')), (tstr('rel'), rel)])
    r = w.I.freeze(w.call(0, 'set_parameters', S('current_time')))
    mine = entry(r, w.upd[0])
    wh = where(ctx, 'set_parameters', CLS)
    for nm in ('l_ij', 'l_ji'):
        x = entry(mine, tstr(nm))
        ctx.equal('%s.%s' % (key, nm), raw(w.I, x) if x is not None else T('missing'), v[nm], nm + ' handed to the update', wh)
    ctx.equal(key + '.rel', entry(mine, tstr('rel')) or T('missing'), rel, 'parameters of the coupling handed to the update', wh)
    ctx.equal(key + '.kept', entry(r, other), S('kept'), 'parameters of the coupling kept', wh)


def initial(ctx, key, n, shared):
    w = World(ctx, CLS, n, shared)
    v = store(w, 0)
    w.call(0, 'init_var_dd')
    ctx.equal(key + '.x_i', var(w, 0, 'x_i'), own_values(w, 0), 'start of x_i', where(ctx, 'init_var_dd', CLS))
    for nm in ('l_ij', 'l_ji'):
        ctx.equal('%s.%s' % (key, nm), var(w, 0, nm), v[nm], 'multipliers are kept', where(ctx, 'init_var_dd', CLS))


def update(ctx, key, n, shared):
    w = World(ctx, CLS, n, shared)
    I = w.I
    wh = where(ctx, 'construct_upd_xz', CLS)
    vals = {}

    def declared(I, t, b):
        nm = b['name'].args[0]
        size = [b.get(k) for k in ('size0', 'size1')]
        size = [int(numval(s)) if s is not None and numval(s) is not None else 1 for s in size]
        vals[nm] = T('vec', *[S('my.%s.%d' % (nm, k)) for k in range(size[0]*size[1])])
        if b.get('value') is not None:
            vals[nm, 'value'] = b['value']
        return mx(I, ctx, vals[nm], 'MX', 'my.' + nm)
    I.ret_models['define_parameter'] = I.ret_models['define_variable'] = declared
    I.ret_models['define_symbol'] = lambda I, t, b: S(b['name'].args[0])
    I.ret_models['construct_problem'] = lambda I, t, b: T('tuple', S('prob'), S('buildtime'))
    for k in range(n):
        es = dict((c, d) for c, d in w.entries(k))
        grp = []
        for c in (w.veh[k], w.prob[k], w.upd[k]):
            sd, vs = [], []
            for nm, ind in es.get(c, []):
                m = w.variable(c, nm, True)
                sd.append((I.st[('f', m, 'label')], I.new_list([c, tstr(nm)])))
                cols = 2 if nm.startswith('splines') else 1
                d = [S('val%d.%s.%d' % (k, nm, i)) for i in range(len(raw(I, m).args))]
                rows = len(d)//cols
                vs.append((tstr(nm), T('vec', *[T('vec', *[d[q*rows + r] for q in range(cols)]) for r in range(rows)])))
            I.st[('f', c, 'symbol_dict')] = I.new_dict(sd)
            I.st[('f', c, '_values')] = I.new_dict(vs)
            grp.append((I.st[('f', c, 'label')], c))
        I.st[('f', w.upd[k], 'group')] = I.new_dict(grp)
    w.couple(0, 0.5)
    store(w, 0)
    w.call(0, 'construct_upd_xz')
    nb, m = w.neighbours(0), w.size(0)
    for nm in ('z_ij', 'l_ij', 'l_ji'):
        if nm not in vals or len(vals[nm].args) != m*len(nb):
            ctx.bad('%s.%s' % (key, nm), '%s is no variable or parameter of the update or has another size' % nm, wh, show(vals.get(nm, S('none')))[:40])
            return
    ph = div(S('t'), S('T'))
    fwd = lambda x, js: shifted_all(w, x, js, 'shift_knot1_fwd', [w.B, ph])
    x = fwd(T('vec', *w.values_of(0, True)), [0])
    z, lz = fwd(vals['z_ij'], nb), fwd(vals['l_ij'], nb)
    cut = lambda v, q: T('vec', *v.args[q*m:(q + 1)*m])
    want = spec(ctx, 'exchanged', x, T('list', *[fwd(cut(vals['l_ji'], q), [0]) for q in range(len(nb))]), z, lz)
    got = ZERO
    obj = [e for e in I.events if e.name == '.define_objective']
    for e in obj:
        got = add(got, scalar_of(raw(I, e.kw.get('expr'))))
    if not obj:
        ctx.bad(key + '.objective', 'no objective posed for the update', wh)
    else:
        ctx.equal(key + '.objective', got, want, 'objective of the update', wh)
    guess = T('vec', *[y for j in nb for y in values_at(w, j)])
    if ('z_ij', 'value') in vals:
        g = raw(I, vals['z_ij', 'value'])
        ctx.equal(key + '.guess', flatten(g), guess, 'initial guess of the copies', wh)
    cons = [e for e in I.events if e.name == '.define_constraint']
    posed = []
    for e in cons:
        a = list(e.kw.values())
        c, lb, ub = (I.freeze(q) for q in a[:3])
        posed += list(zip(raw(I, c).args, lb.args, ub.args))
    k = 0
    for q, j in enumerate(nb):
        for r in range(m):
            ob = '%s.coupling%d.%d' % (key, q, r)
            if 'my.rel' not in str(vals) and 'rel' not in vals:
                ctx.bad(ob, 'the parameters of the coupling are no parameters of the update', wh)
                return
            e = sub(add(x.args[r], vals['rel'].args[r % 2]), cut(z, q).args[r])
            if k >= len(posed):
                ctx.bad(ob, 'a coupling is not imposed on vehicle and copies', wh)
                return
            ctx.equal(ob, posed[k][0], e, 'coupling of vehicle and copies', wh)
            ctx.equal(ob + '.lb', posed[k][1], num(0.75), 'lower bound', wh)
            ctx.equal(ob + '.ub', posed[k][2], num(0.75 + 0.5*(r == m - 1)), 'upper bound', wh)
            k += 1
    b, f = I.st.get(('f', w.prob[0], 'father')), I.st.get(('f', w.upd[0], 'father_updx'))
    (ctx.ok if b is not None and b is f else ctx.bad)(key + '.father', 'the problem of the vehicle works on the variables of the update', wh)


def flatten(v):
    return T('vec', *[y for x in v.args for y in (x.args if x.op == 'vec' else (x,))]) if v.op == 'vec' else v


def values_at(w, j):
    out = []
    for c, d in w.entries(j):
        for nm, ind in d:
            out += [S('val%d.%s.%d' % (j, nm, i)) for i in ind]
    return out


def result(ctx, key, n, shared):
    w = World(ctx, CLS, n, shared)
    I = w.I
    wh = where(ctx, 'update_xz', CLS)
    store(w, 0)
    I.st[('f', w.upd[0], 'problem_upd_xz')] = O('solver')
    I.ret_models['update_bounds'] = lambda I, t, b: T('tuple', S('lb'), S('ub'))
    I.ret_models['set_parameters'] = lambda I, t, b: S('par') if I.last_recv is O('fx0') else t
    size = w.size(0)*len(w.neighbours(0))
    znew = T('vec', *[S('znew%d' % k) for k in range(size)])

    def getv(I, t, b):
        nm = b.get('name')
        if nm is not None and nm.op == 'str':
            return T('vec', *[T('vec', x) for x in znew.args]) if nm.args[0] == 'z_ij' else w.get_variables(I, t, b)
        return S('guess')
    I.ret_models['get_variables'] = getv
    w.call(0, 'update_xz', S('current_time'))
    ctx.equal(key + '.x', var(w, 0, 'x_i'), own_values(w, 0), 'shared variables after the update', wh)
    ctx.equal(key + '.z', flatten(var(w, 0, 'z_ij')), znew, 'copies after the update', wh)
    sv = [e for e in I.events if e.name == '.set_variables']
    sol = [x for x in (subterms_of(I.freeze(sv[0].kw.get('variables', list(sv[0].kw.values())[0]))) if sv else []) if x.op in ('mcall', 'call', 'fcall', 'ocall')]
    for nm, want in (('p', 'par'), ('x0', 'guess'), ('lbg', 'lb'), ('ubg', 'ub')):
        if sv and any(S(want) in subterms_of(x) for x in sol):
            ctx.ok('%s.%s' % (key, nm), '%s handed to the solver, its result kept' % nm, wh)
        else:
            ctx.bad('%s.%s' % (key, nm), '%s is not handed to the solver of the update, or its result is not stored' % nm, wh)
