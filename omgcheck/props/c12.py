"""C12: spline operations are exact. Every operation is analysed on bases whose knot distances, and on
splines whose coefficients, are arbitrary positive quantities; results are rational functions of them."""
from ..behave import *
from .. import matrices
import ast

EXTRA = 'omgtools.basics.spline_extra'


def P(name):
    return T('pos', name)


def inline(q):
    return 'inline'


def setup(I, s=None):
    matrices.install(I)
    for k in ('derivative', '.derivative', 'BSpline.derivative', 'evalspline', 'running_integral', 'definite_integral', 'shift_spline',
              '__call__', 'BSpline'):
        I.models.pop(k, None)


class Case(object):
    """a clamped basis: degree, and the widths of its knot intervals"""

    def __init__(self, p, widths, name='b', mult=()):
        self.p, self.name = p, name
        t = ZERO
        self.knots = [t] * (p + 1)
        self.pieces = []           # indices m of the nonempty intervals [k_m, k_m+1]
        for i, w in enumerate(widths):
            self.pieces.append(len(self.knots) - 1)
            t = add(t, w)
            n = p + 1 if i == len(widths) - 1 else (mult[i] if i < len(mult) else 1)
            self.knots += [t] * n
        self.n = len(self.knots) - p - 1
        self.kv = T('vec', *self.knots)
        self.coeffs = T('vec', *[P('%s_c%d' % (name, i)) for i in range(self.n)])
        self.label = 'degree %d, %d intervals%s' % (p, len(widths), ', repeated knots' if mult else '')

    def basis(self, I):
        b = T('sym', self.name, 'notnone')
        I.types[b] = I.prog.cls('BSplineBasis')
        I.st[('f', b, 'knots')] = self.kv
        I.st[('f', b, 'degree')] = num(self.p)
        return b

    def spline(self, I):
        s = T('sym', self.name + 's', 'notnone')
        I.types[s] = I.prog.cls('BSpline')
        I.st[('f', s, 'basis')] = self.basis(I)
        I.st[('f', s, 'coeffs')] = self.coeffs
        return s


def widths(n, name='b'):
    return [P('%s_w%d' % (name, i)) for i in range(n)]


def spec(ctx, fn, *args):
    return run_spec(ctx, 'splines.' + fn, None, list(args), setup=lambda I, s: setup(I), policy=inline)


def vec(t):
    """containers of any kind as nested vectors"""
    if t.op in ('list', 'tuple', 'vec'):
        return T('vec', *[vec(x) for x in t.args])
    return t


def where_fn(ctx, name, mod=EXTRA):
    m, node = ctx.prog.func(mod, name)
    return '%s:%d %s' % (os.path.relpath(m.path, REPO), node.lineno, name)


def check(ctx, key, got, want, what, where):
    """entry by entry"""
    got, want = vec(got), vec(want)
    if want.op == 'vec' and got.op == 'vec':
        if len(got.args) != len(want.args):
            ctx.bad(key, '%s: %d entries, specified %d' % (what, len(got.args), len(want.args)), where, 'shape')
            return
        for i, (x, y) in enumerate(zip(got.args, want.args)):
            if not (x.op == 'vec' and y.op == 'vec') and x is not y and not rational(x):
                ctx.unknown('%s[%d]' % (key, i), '%s: not resolved to a value: %s' % (what, short(x, 120)), where)
                continue
            check(ctx, '%s[%d]' % (key, i), x, y, what, where)
        return
    if not rational(got) and got is not want:
        ctx.unknown(key, '%s: not resolved to a value: %s' % (what, short(got, 120)), where)
        return
    r = matrices.same_rational(got, want)
    if r:
        ctx.ok(key, what, where)
    elif r is None:
        ctx.equal(key, got, want, what, where)
    else:
        ctx.bad(key, '%s: is `%s`, specified `%s`' % (what, short(got, 300), short(want, 300)), where, got.dig)


def rational(x):
    return x.op == 'vec' or numval(x) is not None or x.op == 'pos' or \
        (x.op == 'poly' and all(y.op in ('poly', 'pos') for y in tm.subterms(x)))


def obj(run, t):
    """(coeffs, knots, degree) of a returned spline"""
    if t.op == 'obj':
        b = run.field(t, 'basis')
        return run.field(t, 'coeffs'), run.field(b, 'knots'), run.field(b, 'degree')
    if t.op == 'new':
        return t.args[2], t.args[1], NONE
    return t, NONE, NONE


def evaluation(ctx):
    """evalspline / eval_basis / __call__ in every interval and at both ends"""
    w = where_fn(ctx, 'evalspline')
    wb = ctx.loc('BSplineBasis', 'eval_basis')
    wc = ctx.loc('BSpline', '__call__')
    for p, n in ((1, 2), (2, 2), (3, 1), (3, 2)):
        for m in list(range(n)) + ['first', 'last']:
            ws = widths(n)
            if isinstance(m, int):
                ws[m] = add(P('u'), P('v'))
            c = Case(p, ws)
            if isinstance(m, int):
                piece, x = c.pieces[m], add(c.knots[c.pieces[m]], P('u'))
            else:
                piece = c.pieces[0 if m == 'first' else -1]
                x = c.knots[0 if m == 'first' else -1]
            tag = 'eval/p%dn%d/%s' % (p, n, m)
            at = {'first': 'at the start', 'last': 'at the end'}.get(m, 'inside interval %s' % m)

            def go(c=c, x=x, piece=piece, tag=tag, at=at):
                a = run_func(ctx, EXTRA, 'evalspline', lambda I: [c.spline(I), x], setup=setup, policy=inline)
                s = spec(ctx, 'value', c.kv, c.coeffs, num(c.p), num(piece), x)
                check(ctx, tag, a.ret, s.ret, 'value of a spline (%s) %s' % (c.label, at), w)
            ctx.guard(tag, go)

            def gob(c=c, x=x, piece=piece, tag=tag, at=at):
                def su(I, s):
                    setup(I)
                    c.basis(I)
                a = run_method(ctx, 'BSplineBasis', 'eval_basis', [x], setup=su, self_term=T('sym', c.name, 'notnone'), policy=inline)
                s = spec(ctx, 'basis_row', c.kv, num(c.p), num(piece), x)
                got = vec(a.ret)
                if got.op == 'vec' and len(got.args) == 1:
                    got = got.args[0]
                check(ctx, tag + '/basis', got, s.ret, 'basis functions (%s) %s' % (c.label, at), wb)
            ctx.guard(tag + '/basis', gob)

            def goc(c=c, x=x, piece=piece, tag=tag, at=at):
                def su(I, s):
                    setup(I)
                    c.spline(I)
                a = run_method(ctx, 'BSpline', '__call__', [x], setup=su, self_term=T('sym', c.name + 's', 'notnone'), policy=inline)
                s = spec(ctx, 'value', c.kv, c.coeffs, num(c.p), num(piece), x)
                got = vec(a.ret)
                if got.op == 'vec' and len(got.args) == 1:
                    got = got.args[0]
                check(ctx, tag + '/call', got, s.ret, 'calling a spline (%s) %s' % (c.label, at), wc)
            ctx.guard(tag + '/call', goc)


def calculus(ctx):
    w = ctx.loc('BSpline', 'derivative')
    for p, n, o in ((1, 2, 1), (2, 2, 1), (2, 2, 2), (3, 2, 1), (3, 2, 2), (3, 1, 3), (2, 1, 0)):
        c = Case(p, widths(n))
        tag = 'derivative/p%dn%d/o%d' % (p, n, o)

        def go(c=c, o=o, tag=tag):
            def su(I, s):
                setup(I)
                c.spline(I)
            a = run_method(ctx, 'BSpline', 'derivative', [num(o)], setup=su, self_term=T('sym', c.name + 's', 'notnone'), policy=inline)
            s = spec(ctx, 'hodograph', c.kv, c.coeffs, num(c.p), num(o))
            if o == 0:
                ctx.equal(tag, a.ret, T('sym', c.name + 's', 'notnone'), 'derivative of order 0 is the spline', w)
                return
            cf, kn, dg = obj(a, a.ret)
            what = 'derivative of order %d (%s)' % (o, c.label)
            check(ctx, tag + '/coeffs', cf, s.ret.args[0], what + ': coefficients', w)
            check(ctx, tag + '/knots', kn, s.ret.args[1], what + ': knots', w)
            check(ctx, tag + '/degree', dg, s.ret.args[2], what + ': degree', w)
        ctx.guard(tag, go)
    w = where_fn(ctx, 'running_integral')
    for p, n in ((1, 2), (2, 2), (3, 2), (0, 2)):
        c = Case(p, widths(n))
        tag = 'running_integral/p%dn%d' % (p, n)

        def goi(c=c, tag=tag):
            a = run_func(ctx, EXTRA, 'running_integral', lambda I: [c.spline(I)], setup=setup, policy=inline)
            s = spec(ctx, 'primitive', c.kv, c.coeffs, num(c.p))
            cf, kn, dg = obj(a, a.ret)
            for nm, x, y in (('coeffs', cf, s.ret.args[0]), ('knots', kn, s.ret.args[1]), ('degree', dg, s.ret.args[2])):
                check(ctx, '%s/%s' % (tag, nm), x, y, 'integral of a spline (%s): %s' % (c.label, nm), w)
        ctx.guard(tag, goi)

        def gov(c=c, tag=tag):
            def su(I, s):
                setup(I)
                c.spline(I)
            a = run_method(ctx, 'BSpline', 'integral', [], setup=su, self_term=T('sym', c.name + 's', 'notnone'), policy=inline)
            s = spec(ctx, 'integral_value', c.kv, c.coeffs, num(c.p))
            check(ctx, tag.replace('running_', ''), a.ret, s.ret, 'integral over the support (%s)' % c.label, ctx.loc('BSpline', 'integral'))
        ctx.guard(tag + '/value', gov)
    w = where_fn(ctx, 'definite_integral')
    for p, ia, ib in ((1, 0, 1), (2, 0, 1), (2, 1, 1)):
        ws = widths(2)
        ws[ia] = add(P('u'), P('v')) if ia != ib else sum_([P('u'), P('v'), P('y')])
        if ib != ia:
            ws[ib] = add(P('y'), P('z'))
        c = Case(p, ws)
        xa = add(c.knots[c.pieces[ia]], P('u'))
        xb = add(xa, P('v')) if ia == ib else add(c.knots[c.pieces[ib]], P('y'))
        tag = 'definite/p%d/%d%d' % (p, ia, ib)

        def god(c=c, xa=xa, xb=xb, ia=ia, ib=ib, tag=tag):
            a = run_func(ctx, EXTRA, 'definite_integral', lambda I: [c.spline(I), xa, xb], setup=setup, policy=inline)
            s = spec(ctx, 'definite', c.kv, c.coeffs, num(c.p), num(c.pieces[ia]), xa, num(c.pieces[ib]), xb)
            check(ctx, tag, a.ret, s.ret, 'definite integral (%s)' % c.label, w)
        ctx.guard(tag, god)


def cover(c, knots2, at=None):
    """for every coefficient over knots2, a piece of c that the spline over knots2 continues: the piece
    covering a nonempty interval on which that basis function lives"""
    p, n2 = c.p, len(knots2) - c.p - 1
    of, cur = {}, c.pieces[0] if at is None else at
    for m in range(p, n2):
        if knots2[m + 1] is knots2[m]:
            continue
        for q in c.pieces:
            if c.knots[q] is knots2[m]:
                cur = q
        of[m] = cur
    return [of[min(m for m in of if j <= m <= j + p)] for j in range(n2)]


def fn_ret(ctx, name, args):
    return run_func(ctx, EXTRA, name, args, setup=setup, policy=inline)


def reexpress(ctx, key, name, c, args, knots2, pieces, what, pick=None, inverse=None):
    """the matrix returned by `name` takes the coefficients of c to those of the same (extended,
    restricted) function over knots2"""
    w = where_fn(ctx, name)

    def go():
        a = fn_ret(ctx, name, args)
        s = spec(ctx, 're_expressed', c.kv, num(c.p), T('vec', *knots2), T('list', *[num(k) for k in pieces]))
        got = pick(a.ret) if pick else a.ret
        check(ctx, key, got, s.ret, '%s (%s)' % (what, c.label), w)
        return a
    return ctx.guard(key, go)


def coeffs_of(ctx, key, name, c, args, knots2, pieces, what):
    w = where_fn(ctx, name)

    def go():
        a = fn_ret(ctx, name, args)
        s = spec(ctx, 're_coefficients', c.kv, c.coeffs, num(c.p), T('vec', *knots2), T('list', *[num(k) for k in pieces]))
        got = a.ret
        if got.op in ('obj', 'new'):
            cf, kn, dg = obj(a, got)
            check(ctx, key + '/knots', kn, T('vec', *knots2), '%s: knots (%s)' % (what, c.label), w)
            check(ctx, key + '/degree', dg, num(c.p), '%s: degree (%s)' % (what, c.label), w)
            got = cf
        check(ctx, key, got, s.ret, '%s (%s)' % (what, c.label), w)
    ctx.guard(key, go)


def first(t):
    return t.args[0] if t.op == 'tuple' else t


def second(t):
    return t.args[1] if t.op == 'tuple' and len(t.args) > 1 else T('unknown', mkstr('second'))


def transformations(ctx):
    # the first knots move to t_shift inside the first interval
    for p, n in ((1, 2), (2, 2), (3, 2), (2, 1), (3, 3)):
        ws = widths(n)
        ws[0] = add(P('ts'), P('v'))
        c = Case(p, ws)
        ts = P('ts')
        k2 = [ts] * (p + 1) + c.knots[p + 1:]
        pc = cover(c, k2)
        tag = 'firstknot/p%dn%d' % (p, n)
        reexpress(ctx, tag, 'shiftfirstknot_T', c, lambda I, c=c: [c.basis(I), ts], k2, pc, 'moving the start of the domain')
        w = where_fn(ctx, 'shiftfirstknot_T')

        def goinv(c=c, tag=tag):
            a = fn_ret(ctx, 'shiftfirstknot_T', lambda I: [c.basis(I), ts, TRUE])
            r, ri = vec(first(a.ret)), vec(second(a.ret))
            if r.op != 'vec' or ri.op != 'vec':
                ctx.unknown(tag + '/inverse', 'not resolved', w)
                return
            prod = ctx.interp().dot(r, ri)
            eye = T('vec', *[T('vec', *[ONE if i == j else ZERO for j in range(c.n)]) for i in range(c.n)])
            check(ctx, tag + '/inverse', prod, eye, 'transformation times its inverse (%s)' % c.label, w)
        ctx.guard(tag + '/inverse', goinv)
        coeffs_of(ctx, tag + '/fwd', 'shift_knot1_fwd', c, lambda I, c=c: [c.coeffs, c.basis(I), ts], k2, pc, 'shifting the first knots')

        def goback(c=c, tag=tag):
            a = fn_ret(ctx, 'shiftfirstknot_T', lambda I: [c.basis(I), ts, TRUE])
            ri = vec(second(a.ret))
            if ri.op != 'vec':
                ctx.unknown(tag + '/bwd', 'not resolved', '')
                return
            b = fn_ret(ctx, 'shift_knot1_bwd', lambda I: [c.coeffs, c.basis(I), ts])
            check(ctx, tag + '/bwd', b.ret, ctx.interp().dot(ri, c.coeffs), 'shifting the first knots back (%s)' % c.label,
                  where_fn(ctx, 'shift_knot1_bwd'))
        ctx.guard(tag + '/bwd', goback)
    # knot insertion
    for p, n, m in ((1, 2, 0), (2, 2, 0), (2, 2, 1), (3, 2, 0), (3, 2, 1)):
        ws = widths(n)
        ws[m] = add(P('u'), P('v'))
        c = Case(p, ws)
        x = add(c.knots[c.pieces[m]], P('u'))
        for times in (1, 2):
            k = c.pieces[m]
            k2 = c.knots[:k + 1] + [x] * times + c.knots[k + 1:]
            pc = cover(c, k2)
            tag = 'insert/p%dn%d/%d/x%d' % (p, n, m, times)
            w = where_fn(ctx, 'knot_insertion_T')
            reexpress(ctx, tag, 'knot_insertion_T', c, lambda I, c=c, x=x, times=times: [c.basis(I), I.new_list([x] * times)], k2, pc,
                      'inserting a knot', first)

            def gok(c=c, k2=k2, tag=tag, x=x, times=times):
                a = fn_ret(ctx, 'knot_insertion_T', lambda I: [c.basis(I), I.new_list([x] * times)])
                check(ctx, tag + '/knots', second(a.ret), T('vec', *k2), 'knots after insertion (%s)' % c.label, w)
            ctx.guard(tag + '/knots', gok)
    # restriction to an interval
    for p, n, lo, hi in ((1, 2, 0, 1), (2, 2, 0, 1), (2, 3, 1, 2), (3, 2, 0, 1), (2, 2, 'u', 1), (3, 2, 'u', 1), (2, 3, 1, 'u'), (3, 2, 0, 0),
                         (2, 2, 1, 1)):
        ws = widths(n)
        if lo == 'u':
            ws[0] = add(P('u'), P('v'))
        if hi == 'u':
            ws[n - 1] = add(P('u'), P('v'))
        c = Case(p, ws)
        il, ih = (0 if lo == 'u' else lo), (n - 1 if hi == 'u' else hi)
        a_ = c.knots[c.pieces[il]] if lo != 'u' else P('u')
        b_ = c.knots[c.pieces[ih] + 1] if hi != 'u' else add(c.knots[c.pieces[ih]], P('u'))
        inner = [c.knots[c.pieces[q]] for q in range(il + 1, ih + 1)]
        k2 = [a_] * (p + 1) + inner + [b_] * (p + 1)
        pc = cover(c, k2, c.pieces[il])
        tag = 'interval/p%dn%d/%s-%s' % (p, n, lo, hi)
        reexpress(ctx, tag, 'get_interval_T', c, lambda I, c=c, a_=a_, b_=b_: [c.basis(I), a_, b_], k2, pc, 'restriction to an interval', first)
        w = where_fn(ctx, 'get_interval_T')

        def gok(c=c, k2=k2, tag=tag, a_=a_, b_=b_):
            a = fn_ret(ctx, 'get_interval_T', lambda I: [c.basis(I), a_, b_])
            check(ctx, tag + '/knots', second(a.ret), T('vec', *k2), 'knots of the restriction (%s)' % c.label, w)
        ctx.guard(tag + '/knots', gok)
        coeffs_of(ctx, tag + '/crop', 'crop_spline', c, lambda I, c=c, a_=a_, b_=b_: [c.spline(I), a_, b_], k2, pc, 'cropped spline')
    # extension and shift over one interval
    for p, n, mult in ((1, 2, ()), (2, 2, ()), (2, 3, ()), (3, 2, ()), (3, 3, ()), (2, 2, (2,)), (3, 2, (2,)), (1, 2, (2,)), (2, 2, (3,)), (1, 1, ()), (2, 1, ()), (3, 1, ())):
        # increasing intervals: decides between which knots the Greville points lie
        ws = [sum_([P('b_w%d' % q) for q in range(i + 1)]) for i in range(n)]
        if n > 2:
            ws = [mul(num(q), P('b_w0')) for q in (1, 2, 3)]
        c = Case(p, ws, mult=mult)
        m = mult[-1] if mult else 1
        tag = 'extrapolate/p%dn%d%s' % (p, n, 'm%d' % m if m > 1 else '')
        end = add(c.knots[-1], P('te'))
        if n > 1:
            k2 = c.knots[:c.n] + [c.knots[-1]] * m + [end] * (p + 1)
            pc = cover(c, k2)
            reexpress(ctx, tag, 'extrapolate_T', c, lambda I, c=c: [c.basis(I), P('te')], k2, pc, 'extrapolation over an extra interval')
            coeffs_of(ctx, tag + '/coeffs', 'extrapolate', c, lambda I, c=c: [c.coeffs, P('te'), c.basis(I)], k2, pc, 'extrapolated spline')
            # shifting the horizon over one knot: drop the first interval, extrapolate over a copy of the last
            last = sub(c.knots[-1], c.knots[c.pieces[-1]])
            end2 = add(c.knots[-1], last)
            start = c.knots[c.pieces[0] + 1]
            inner = c.knots[p + 1 + m:c.n] + [c.knots[-1]] * m
            k3 = [start] * (p + 1) + inner + [end2] * (p + 1)
            k3pc = cover(c, k3, c.pieces[1])
            reexpress(ctx, 'overknot' + tag[11:], 'shiftoverknot_T', c, lambda I, c=c: [c.basis(I)], k3, k3pc, 'shift of the horizon over one knot')
            coeffs_of(ctx, 'overknot%s/coeffs' % tag[11:], 'shift_over_knot', c, lambda I, c=c: [c.coeffs, c.basis(I)], k3, k3pc, 'shifted spline')


class Exact(object):
    """`transform` and basis evaluation on the sample grid: one generic sample stands for the whole grid,
    the matrix T of a.transform(f) satisfies a(x).T = f(x) and is otherwise arbitrary"""

    def __init__(self):
        self.calls = []
        self.grid = None

    def row(self, I, b, x):
        b = self.base(I, b)
        n = numval(call_len(I, b))
        kn = I.freeze(I.getattr_(b, 'knots'))
        return [T('pos', 'N%d(%s|%s)' % (i, short(kn, 2000), short(x, 2000))) for i in range(int(n))]

    def base(self, I, b):
        return b

    def install(self, I):
        setup(I)
        I.quiet_try = True
        I.ret_models['eval_basis'] = lambda J, t, b: T('vec', T('vec', *self.row(J, self.recv(J), b['x'])))
        I.ret_models['transform'] = self.transform

    def recv(self, J):
        return J.last_recv

    def transform(self, J, t, bound):
        me, o = J.last_recv, bound['other']
        n = int(numval(call_len(J, me)))
        x = J.getattr_(me, '_x')
        self.grid = short(x, 2000)
        if J.types.get(o) is not None and J.types[o].name == 'BSplineBasis':
            row = self.row(J, o, x)
        else:
            r = vec(J.apply(o, [ZERO], {}))
            row = list(r.args) if r.op == 'vec' else None
            if row is None or any(y.op == 'vec' for y in row):
                return t
        k = len(self.calls)
        M = [[T('pos', 'T%d_%d_%d' % (k, i, j)) for j in range(len(row))] for i in range(n)]
        self.calls.append((J.freeze(J.getattr_(me, 'knots')), J.freeze(J.getattr_(me, 'degree')), M, row))
        return T('vec', *[T('vec', *m) for m in M])

    def function(self, ctx, key, coeffs, knots, degree, what, where):
        """the function with these coefficients at the generic sample"""
        if coeffs.op != 'vec':
            ctx.unknown(key, '%s: coefficients not resolved: %s' % (what, short(coeffs, 150)), where)
            return None
        value, used = ZERO, 0
        for kn, dg, M, row in self.calls:
            atoms = set(a for m in M for a in m)
            if not any(y in atoms for c in coeffs.args for y in tm.subterms(c)):
                continue
            used += 1
            if kn is not knots or dg is not degree:
                ctx.bad(key, '%s: coefficients are taken over the basis %s of degree %s, the result uses %s of degree %s'
                        % (what, short(kn, 150), short(dg), short(knots, 150), short(degree)), where, kn.dig + knots.dig)
                return None
            ws = None
            for i, c in enumerate(coeffs.args):
                w = [tm.substitute(c, dict((a, ONE if a is M[i][j] else ZERO) for _, _, M2, _ in self.calls for m in M2 for a in m))
                     for j in range(len(row))]
                if ws is not None and any(x is not y for x, y in zip(w, ws)):
                    ctx.unknown(key, '%s: not one combination of the transformation' % what, where)
                    return None
                ws = w
            value = add(value, sum_([mul(w, r) for w, r in zip(ws, row)]))
        return value if used else None


def tpolicy(q):
    return 'event' if q.endswith('.transform') or q.endswith('.eval_basis') else 'inline'


def common(c1, c2, p):
    """knots of the union of two bases raised to degree p: every break keeps the lower smoothness"""
    pts = []
    for t in c1.knots + c2.knots:
        if t not in pts:
            pts.append(t)
    pts = matrices.ordered(pts)
    out = []
    for t in pts:
        m = [c.knots.count(t) + p - c.p for c in (c1, c2) if t in c.knots]
        out += [t] * max(m)
    return out


def operators(ctx):
    a2 = widths(2, 'a')
    pairs_ = (('same', Case(2, a2, 'a'), Case(2, a2, 'b')),
              ('degrees', Case(1, a2, 'a'), Case(2, a2, 'b')),
              ('breaks', Case(1, a2, 'a'), Case(2, [add(a2[0], a2[1])], 'b')),
              ('breaks2', Case(2, [a2[0], add(a2[1], P('a_w2'))], 'a'), Case(1, [add(a2[0], a2[1]), P('a_w2')], 'b')),
              ('repeated', Case(2, a2, 'a', mult=(2,)), Case(3, a2, 'b')))

    def sp(c):
        return T('sym', c.name + 's', 'notnone')

    def run_op(nm, c1, c2, args):
        ex = Exact()

        def su(I, s):
            ex.install(I)
            c1.spline(I)
            if c2 is not None:
                c2.spline(I)
        a = run_method(ctx, 'BSpline', nm, args, setup=su, self_term=sp(c1), policy=tpolicy)
        return ex, a

    def ex_row(c, g):
        return [T('pos', 'N%d(%s|%s)' % (i, short(c.kv, 2000), g)) for i in range(c.n)]

    for tag, c1, c2 in pairs_:
        for nm, sgn in (('__add__', 1), ('__sub__', -1)):
            w = ctx.loc('BSpline', nm)
            key = 'operators/%s/%s' % (nm.strip('_'), tag)

            def go(nm=nm, sgn=sgn, c1=c1, c2=c2, key=key, w=w):
                ex, a = run_op(nm, c1, c2, [sp(c2)])
                cf, kn, dg = obj(a, a.ret)
                p = max(c1.p, c2.p)
                k2 = common(c1, c2, p)
                what = '%s of two splines (%s; %s)' % ('sum' if sgn > 0 else 'difference', c1.label, c2.label)
                check(ctx, key + '/knots', kn, T('vec', *k2), what + ': knots', w)
                check(ctx, key + '/degree', dg, num(p), what + ': degree', w)
                v = ex.function(ctx, key, cf, kn, dg, what, w)
                if v is not None:
                    g = ex.grid
                    want = sum_([mul(x, y) for x, y in zip(c1.coeffs.args, ex_row(c1, g))] +
                                [mul(num(sgn), mul(x, y)) for x, y in zip(c2.coeffs.args, ex_row(c2, g))])
                    check(ctx, key, v, want, what, w)
            ctx.guard(key, go)
        w = ctx.loc('BSpline', '__mul__')
        key = 'operators/mul/' + tag

        def gom(c1=c1, c2=c2, key=key, w=w):
            ex, a = run_op('__mul__', c1, c2, [sp(c2)])
            cf, kn, dg = obj(a, a.ret)
            p = c1.p + c2.p
            k2 = common(c1, c2, p)
            what = 'product of two splines (%s; %s)' % (c1.label, c2.label)
            check(ctx, key + '/knots', kn, T('vec', *k2), what + ': knots', w)
            check(ctx, key + '/degree', dg, num(p), what + ': degree', w)
            v = ex.function(ctx, key, cf, kn, dg, what, w)
            if v is not None:
                g = ex.grid
                r1, r2 = ex_row(c1, g), ex_row(c2, g)
                want, drop = ZERO, {}
                for i in range(c1.n):
                    for j in range(c2.n):
                        lo = [c1.knots[i], c2.knots[j]]
                        hi = [c1.knots[i + c1.p + 1], c2.knots[j + c2.p + 1]]
                        if all(lt0(sub(l, h)) is TRUE for l in lo for h in hi):
                            want = add(want, mul(mul(c1.coeffs.args[i], r1[i]), mul(c2.coeffs.args[j], r2[j])))
                        else:
                            drop[(i, j)] = (r1[i], r2[j])
                for x, y in drop.values():       # products of functions that do not overlap vanish
                    v = sub(v, sub(v, without(v, x, y)))
                check(ctx, key, v, want, what, w)
        ctx.guard(key, gom)
    c = Case(2, widths(2, 'a'), 'a')
    k, sh = P('k'), P('sh')
    for nm, args, cf, kn, what in (
            ('__neg__', [], [neg(x) for x in c.coeffs.args], c.knots, 'negative of a spline'),
            ('__add__', [k], [add(x, k) for x in c.coeffs.args], c.knots, 'spline plus a constant'),
            ('__radd__', [k], [add(x, k) for x in c.coeffs.args], c.knots, 'constant plus a spline'),
            ('__sub__', [k], [sub(x, k) for x in c.coeffs.args], c.knots, 'spline minus a constant'),
            ('__rsub__', [k], [sub(k, x) for x in c.coeffs.args], c.knots, 'constant minus a spline'),
            ('__mul__', [k], [mul(x, k) for x in c.coeffs.args], c.knots, 'spline times a constant'),
            ('__rmul__', [k], [mul(x, k) for x in c.coeffs.args], c.knots, 'constant times a spline'),
            ('scale', [k, sh], c.coeffs.args, [add(mul(t, k), sh) for t in c.knots], 'spline over a scaled and shifted domain'),
            ('scale', [k], c.coeffs.args, [mul(t, k) for t in c.knots], 'spline over a scaled domain')):
        key = 'operators/%s/constant%d' % (nm.strip('_'), len(args))

        def goc(nm=nm, args=args, cf=cf, kn=kn, what=what, key=key):
            ci = ctx.prog.cls('BSpline')
            nm2 = nm
            if ci.find(nm) is None and ci.find_attr(nm) is not None and isinstance(ci.find_attr(nm)[1], ast.Name):
                nm2 = ci.find_attr(nm)[1].id
            w = ctx.loc('BSpline', nm2)
            ex, a = run_op(nm2, c, None, args)
            x, y, z = obj(a, a.ret)
            check(ctx, key, x, T('vec', *cf), what + ': coefficients', w)
            check(ctx, key + '/knots', y, T('vec', *kn), what + ': knots', w)
            check(ctx, key + '/degree', z, num(c.p), what + ': degree', w)
        ctx.guard(key, goc)
    c = Case(2, [add(P('u'), P('v')), P('a_w1')], 'a')
    key = 'operators/insert_knots'

    def goi():
        w = ctx.loc('BSpline', 'insert_knots')
        ex, a = run_op('insert_knots', c, None, lambda I: [I.new_list([P('u'), c.knots[3]])])
        cf, kn, dg = obj(a, a.ret)
        check(ctx, key + '/knots', kn, T('vec', *(c.knots[:3] + [P('u')] + c.knots[3:])), 'inserting knots that may be present: knots', w)
        v = ex.function(ctx, key, cf, kn, dg, 'inserting knots', w)
        if v is not None:
            g = ex.grid
            check(ctx, key, v, sum_([mul(x, y) for x, y in zip(c.coeffs.args, ex_row(c, g))]), 'spline with inserted knots', w)
    ctx.guard(key, goi)
    for power in (1, 2, 3):
        def gop(power=power):
            w = ctx.loc('BSpline', '__pow__')
            me = P('spline_a')

            def su(I, s):
                setup(I)
                I.types[me] = ctx.prog.cls('BSpline')

                def prod(J, t, bound):
                    r = mul(J.last_recv, bound['other'])
                    J.types[r] = ctx.prog.cls('BSpline')
                    return r
                I.ret_models['__mul__'] = prod
            a = run_method(ctx, 'BSpline', '__pow__', [num(power)], setup=su, self_term=me,
                           policy=lambda q: 'event' if q.endswith('.__mul__') else 'inline')
            check(ctx, 'operators/pow/%d' % power, a.ret, power_(me, power), 'power %d of a spline' % power, w)
        ctx.guard('operators/pow/%d' % power, gop)
    for p, n in ((1, 2), (2, 2), (3, 1), (3, 3)):
        def gog(p=p, n=n):
            c = Case(p, widths(n))

            def su(I, s):
                setup(I)
                c.basis(I)
            a = run_method(ctx, 'BSplineBasis', 'greville', [], setup=su, self_term=T('sym', c.name, 'notnone'), policy=inline)
            s = spec(ctx, 'greville', c.kv, num(p))
            check(ctx, 'operators/greville/p%dn%d' % (p, n), a.ret, s.ret, 'Greville points (%s)' % c.label, ctx.loc('BSplineBasis', 'greville'))
        ctx.guard('operators/greville/p%dn%d' % (p, n), gog)


def evaluated(t, deep=0):
    """(basis, points) of a matrix of basis values"""
    if deep > 6:
        return None
    if t.op == 'mcall' and t.args[0].op == 'str':
        if t.args[0].args[0] == 'toarray':
            return evaluated(t.args[1], deep + 1)
        if t.args[0].args[0] == 'eval_basis':
            return t.args[1], t.args[2]
    if t.op == 'call' and len(t.args) == 2:
        return t.args
    if t.op == 'getitem':
        r = evaluated(t.args[0], deep + 1)
        i = t.args[1]
        if r is not None and i.op == 'tuple':
            if len(i.args) != 2 or i.args[1].op != 'slice' or any(x is not NONE for x in i.args[1].args):
                return None
            i = i.args[0]
        return (r[0], T('getitem', r[1], i)) if r is not None else None
    return None


def basis_change(ctx):
    """a.transform(b) solves a(x).T = b(x) with both sides at the same points"""
    w = ctx.loc('BSplineBasis', 'transform')
    A, B, X = T('sym', 'a', 'notnone'), T('sym', 'b', 'notnone'), T('sym', 'X')
    for tag in ('basis', 'function'):
        key = 'transform/' + tag

        def go(tag=tag, key=key):
            def su(I, s):
                setup(I)
                Case(2, widths(2, 'a'), 'a').basis(I)
                if tag == 'basis':
                    Case(1, widths(2, 'b'), 'b').basis(I)
                I.st[('f', A, '_x')] = X
            a = run_method(ctx, 'BSplineBasis', 'transform', [B], setup=su, self_term=A, policy=tpolicy)
            solves = [t for t in tm.subterms(a.ret) if t.op == 'solve' and len(t.args) >= 2]
            if not solves:
                ctx.unknown(key, 'no linear system recognised', w)
                return
            good = 0
            for t in solves:
                l, r = evaluated(t.args[0]), evaluated(t.args[1])
                if l is None or r is None:
                    ctx.unknown(key, 'system not recognised: %s' % short(t, 200), w)
                    return
                ok = l[0] is A and r[0] is B and l[1] is r[1]
                if tag == 'function' and not ok:         # a function given on the grid itself
                    ok = l[0] is A and r[0] is B and l[1].op == 'getitem' and l[1].args[0] is X and l[1].args[1] is r[1]
                    good += ok
                else:
                    good += tag == 'basis'
                if not ok:
                    ctx.bad(key, 'the matrix solves values of %s at %s = values of %s at %s; specified: the values of both at the same points'
                            % (short(l[0]), short(l[1], 100), short(r[0]), short(r[1], 100)), w, t.dig)
                    return
            if good:
                ctx.ok(key, 'a.transform(b) equates both sides at the same points', w)
            else:
                ctx.unknown(key, 'no system for a function given on the grid', w)
        ctx.guard(key, go)
    for p, n in ((2, 3), (1, 2)):
        w2 = where_fn(ctx, 'shift_spline')
        key = 'shift_spline/p%dn%d' % (p, n)

        def gos(p=p, n=n, key=key, w2=w2):
            ws = widths(n)
            ws[0] = add(P('ts'), P('v'))
            c = Case(p, ws)
            ex = Exact()
            a = run_func(ctx, EXTRA, 'shift_spline', lambda I: [c.coeffs, P('ts'), c.basis(I)], setup=lambda I, s: ex.install(I), policy=tpolicy)
            h = div(sub(c.knots[-1], P('ts')), num(n))
            k2 = [P('ts')] * p + [add(P('ts'), mul(num(i), h)) for i in range(n)] + [c.knots[-1]] * (p + 1)
            if len(ex.calls) != 1:
                ctx.unknown(key, 'transformation not recognised', w2)
                return
            kn, dg = ex.calls[0][:2]
            check(ctx, key + '/knots', kn, T('vec', *k2), 'equidistant knots over the remaining domain (%s)' % c.label, w2)
            v = ex.function(ctx, key, vec(a.ret), kn, dg, 'shifted spline', w2)
            if v is not None:
                row = [T('pos', 'N%d(%s|%s)' % (i, short(c.kv, 2000), ex.grid)) for i in range(c.n)]
                check(ctx, key, v, sum_([mul(x, y) for x, y in zip(c.coeffs.args, row)]), 'shifted spline follows the old one (%s)' % c.label, w2)
        ctx.guard(key, gos)


def identity(ctx):
    """equality of bases"""
    w = ctx.loc('BSplineBasis', '__eq__')
    ws = widths(2, 'a')
    c = Case(2, ws, 'a')
    for tag, o, same_ in (('same', Case(2, ws, 'b'), TRUE), ('degree', Case(1, [P('a_w0'), P('a_w1')], 'b'), FALSE),
                          ('knot', Case(2, [add(ws[0], P('d')), ws[1]], 'b'), FALSE), ('length', Case(2, ws[:1], 'b'), FALSE)):
        if tag == 'degree':
            o.kv = c.kv
        key = 'equality/' + tag

        def go(o=o, same_=same_, key=key, tag=tag):
            def su(I, s):
                setup(I)
                c.basis(I)
                o.basis(I)
            a = run_method(ctx, 'BSplineBasis', '__eq__', [T('sym', 'b', 'notnone')], setup=su, self_term=T('sym', 'a', 'notnone'), policy=inline)
            ctx.equal(key, a.ret, same_, 'equality of two bases differing in: %s' % (tag if tag != 'same' else 'nothing'), w)
        ctx.guard(key, go)


def concatenation(ctx):
    w = where_fn(ctx, 'concat_splines')
    from fractions import Fraction

    def seg(I, nm, c, coeffs):
        c.name = nm
        s = c.spline(I)
        I.st[('f', s, 'coeffs')] = T('vec', *coeffs)
        return s

    def rising(nm, n):
        """increasing coefficients with increasing slopes"""
        out, d, v = [], ZERO, P(nm + '0')
        for i in range(n):
            out.append(v)
            d = add(d, P('%s_d%d' % (nm, i)))
            v = add(v, d)
        return out

    def case(key, p, ws_list, coeff_list, times, n_insert, expect, what):
        """one spline per segment; expect: multiplicity of each junction"""
        cs = [Case(p, ws, 'g%d' % i) for i, ws in enumerate(ws_list)]
        # knots of the joined function, every junction with full multiplicity
        full, cf, t0 = [ZERO] * (p + 1), [], ZERO
        red = [ZERO] * (p + 1)
        for i, (c, tt) in enumerate(zip(cs, times)):
            body = [add(mul(x, tt), t0) for x in c.knots[p + 1:]]
            inner, end = body[:-(p + 1)], body[-1]
            m = expect[i] if i < len(cs) - 1 else p + 1
            full += body
            red += inner + [end] * m
            cf += coeff_list[i]
            t0 = end
        return cs, full, cf, red

    def run_case(key, p, specs, times, n_insert, what):
        """specs: for every spline of a segment, (widths per segment, coefficients per segment, multiplicities)"""
        def go():
            def args(I):
                segs = []
                for k in range(len(times)):
                    segs.append(I.new_list([seg(I, 's%d_%d' % (l, k), Case(p, sp[0][k], 'x'), sp[1][k]) for l, sp in enumerate(specs)]))
                return [I.new_list(segs), I.new_list(list(times))] + ([num(n_insert)] if n_insert is not None else [])

            def su(I, s=None):
                setup(I)
                I.quiet_try = True
            a = run_func(ctx, EXTRA, 'concat_splines', args, setup=su, policy=inline)
            out = a.ret
            its = list(out.args) if out.op in ('list', 'tuple', 'vec') else None
            if its is None or len(its) != len(specs):
                ctx.unknown(key, '%s: list of splines not resolved: %s' % (what, short(out, 150)), w)
                return
            for l, (sp, o) in enumerate(zip(specs, its)):
                cs, full, cf, red = case(key, p, sp[0], sp[1], times, n_insert, sp[2], what)
                x, y, z = obj(a, o)
                kl = '%s/%d' % (key, l)
                check(ctx, kl + '/knots', y, T('vec', *red), what + ': knots', w)
                check(ctx, kl + '/degree', z, num(p), what + ': degree', w)
                f = Case.__new__(Case)
                f.p, f.knots, f.n = p, full, len(full) - p - 1
                f.pieces = [m for m in range(p, f.n) if full[m] is not full[m + 1]]
                if y.op == 'vec' and len(y.args) == len(red):
                    s = spec(ctx, 're_coefficients', T('vec', *full), T('vec', *cf), num(p), T('vec', *red),
                             T('list', *[num(q) for q in cover(f, red)]))
                    check(ctx, kl, x, s.ret, what, w)
        ctx.guard(key, go)

    one, two = num(1), num(2)
    half = num(Fraction(1, 2))
    for p in (1, 2, 3):
        up = rising('u', p + 1)
        fall = [neg(x) for x in rising('v', p + 1)]
        other = [mul(num(-3), x) for x in reversed(up)]
        line = [add(P('l'), mul(num(Fraction(i, p)), P('m'))) for i in range(p + 1)]
        # continuation of the line over a segment that lasts twice as long
        line2 = [add(add(P('l'), P('m')), mul(num(Fraction(2 * i, p)), P('m'))) for i in range(p + 1)]
        line3 = [add(add(P('l'), mul(num(3), P('m'))), mul(num(Fraction(i, 2 * p)), P('m'))) for i in range(p + 1)]
        nline, nline2 = [neg(x) for x in line], [neg(x) for x in line2]
        w1 = [[one], [one], [one]]
        mirror = list(reversed(up))
        run_case('concat/p%d/one' % p, p, [(w1[:1], [up], [])], [P('t0')], None, 'a single segment')
        run_case('concat/p%d/jump' % p, p, [(w1[:2], [up, other], [p + 1])], [one, two], None, 'segments that do not join')
        run_case('concat/p%d/negative' % p, p, [(w1[:2], [fall, [mul(num(3), x) for x in reversed(fall)]], [p + 1])], [one, two], None,
                 'negative segments that do not join')
        run_case('concat/p%d/given' % p, p, [(w1[:2], [up, other], [p + 1])], [P('t0'), P('t1')], p + 1, 'segments stacked on request')
        run_case('concat/p%d/kink' % p, p, [(w1[:2], [up, mirror], [p])], [one, one], None, 'segments joining with a kink')
        run_case('concat/p%d/kink/given' % p, p, [(w1[:2], [up, mirror], [p])], [one, two], p, 'segments joining with a kink, knots on request')
        for q in range(1, p + 1):
            run_case('concat/p%d/line/given%d' % (p, q), p, [(w1[:2], [line, line2], [q])], [one, two], q, 'one line in two segments, knots on request')
        run_case('concat/p%d/line' % p, p, [(w1[:2], [line, line2], [0])], [one, two], None, 'one line in two segments')
        run_case('concat/p%d/nline' % p, p, [(w1[:2], [nline, nline2], [0])], [one, two], None, 'one falling line in two segments')
        if p < 3:
            run_case('concat/p%d/three' % p, p, [(w1, [line, line2, [neg(x) for x in line3]], [0, p + 1]), (w1, [up, mirror, [neg(x) for x in up]], [p, p + 1])],
                     [one, two, half], None, 'two splines over three segments')
            run_case('concat/p%d/three2' % p, p, [(w1, [nline, line2, line3], [p + 1, 0]), (w1, [up, mirror, up], [p, p])],
                     [one, two, half], None, 'two splines over three segments')


def power_(x, n):
    r = ONE
    for _ in range(n):
        r = mul(r, x)
    return r


def without(v, x, y):
    """v without its multiples of x*y"""
    return sub(v, sub(sub(v, tm.substitute(v, {x: ZERO})), tm.substitute(sub(v, tm.substitute(v, {x: ZERO})), {y: ZERO})))


def call_len(I, b):
    return sub(call_builtin_len(I, I.getattr_(b, 'knots')), add(I.getattr_(b, 'degree'), ONE))


def call_builtin_len(I, k):
    return I.bi_len([k], {}, None)


def run(ctx):
    ctx.rules.append('C12: coefficients, knots and values computed by the spline operations equal, as rational functions of '
                     'arbitrary knot distances and coefficients, those of the specified function.')
    evaluation(ctx)
    calculus(ctx)
    transformations(ctx)
    operators(ctx)
    basis_change(ctx)
    identity(ctx)
    concatenation(ctx)
    return 30
