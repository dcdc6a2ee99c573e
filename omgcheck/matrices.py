"""Exact algebra of small matrices with rational-function entries, for the spline transformations.
Installed on an interpreter (I.extra) only where a property needs it."""
from .terms import *
from . import terms as tm
from .core import clear_denominators, same


def rows(m):
    """list of rows of a concrete matrix, or None"""
    if m.op != 'vec' or not m.args or not all(r.op == 'vec' for r in m.args):
        return None
    n = len(m.args[0].args)
    if any(len(r.args) != n for r in m.args):
        return None
    return [list(r.args) for r in m.args]


class Rational(object):
    """rational functions over the positive quantities: numerator and factored denominator, both
    dictionaries exponents -> coefficient"""

    def __init__(self):
        self.names, self.pos = [], {}

    # polynomials: {tuple of (variable index, exponent) sorted: Fraction}
    def pmul(self, p, q):
        out = {}
        for m, c in p.items():
            dm = dict(m)
            for n, d in q.items():
                e = dict(dm)
                for v, k in n:
                    e[v] = e.get(v, 0) + k
                key = tuple(sorted(e.items()))
                x = out.get(key, 0) + c * d
                if x:
                    out[key] = x
                else:
                    out.pop(key, None)
        return out

    def padd(self, p, q, f=1):
        out = dict(p)
        for m, c in q.items():
            x = out.get(m, 0) + f * c
            if x:
                out[m] = x
            else:
                out.pop(m, None)
        return out

    def pdiv(self, p, q):
        """p / q when exact, else None"""
        def key(m):
            d = dict(m)
            return tuple(d.get(i, 0) for i in range(len(self.names)))
        p = {key(m): c for m, c in p.items()}
        q = {key(m): c for m, c in q.items()}
        lq = max(q)
        out = {}
        while p:
            lp = max(p)
            k = tuple(x - y for x, y in zip(lp, lq))
            if min(k + (0,)) < 0:
                return None
            c = p[lp] / q[lq]
            out[tuple((i, e) for i, e in enumerate(k) if e)] = c
            for kk, cc in q.items():
                t = tuple(x + y for x, y in zip(k, kk))
                v = p.get(t, 0) - c * cc
                if v:
                    p[t] = v
                else:
                    p.pop(t, None)
        return out

    def primitive(self, p):
        """(scalar, p/scalar) with leading coefficient one"""
        c = p[max(p, key=lambda m: (sum(e for _, e in m), m))]
        return c, {m: x / c for m, x in p.items()}

    ONE = {(): Fraction(1)}

    def split(self, t):
        """term -> (numerator, {denominator factor (frozen): exponent}); None when not rational"""
        v = numval(t)
        if v is not None:
            return ({(): v} if v else {}), {}
        if t.op == 'pos':
            if t not in self.pos:
                self.pos[t] = len(self.names)
                self.names.append(t)
            return {((self.pos[t], 1),): Fraction(1)}, {}
        if t.op != 'poly':
            return None
        N, D = {}, {}
        for m, c in t.args:
            n, d = {(): Fraction(c)}, {}
            for a, e in m:
                x = self.split(a)
                if x is None:
                    return None
                an, ad = x
                if e < 0:
                    # (an / ad)^e
                    for f, k in ad.items():
                        for _ in range(-e * k):
                            n = self.pmul(n, dict(f))
                    if not an:
                        return None
                    cst, pr = self.primitive(an)
                    n = {k: z / cst ** (-e) for k, z in n.items()}
                    if pr != self.ONE:
                        f = frozenset(pr.items())
                        d[f] = d.get(f, 0) - e
                else:
                    for _ in range(e):
                        n = self.pmul(n, an)
                    for f, k in ad.items():
                        d[f] = d.get(f, 0) + e * k
            N, D = self.plus((N, D), (n, d))
        return N, D

    def plus(self, x, y):
        D = dict(x[1])
        for f, k in y[1].items():
            D[f] = max(D.get(f, 0), k)
        return self.padd(self.over(x, D), self.over(y, D)), D

    def over(self, x, D):
        """numerator of x over the denominator D"""
        n = x[0]
        for f, k in D.items():
            for _ in range(k - x[1].get(f, 0)):
                n = self.pmul(n, dict(f))
        return n

    def term(self, p):
        return tm._mk({tuple(sorted(((self.names[v], e) for v, e in m), key=lambda z: z[0].dig)): c for m, c in p.items()})

    def fraction(self, n, d, factors):
        """term of n / d, reduced by the candidate factors"""
        if not n:
            return ZERO
        out = ONE
        for f in factors:
            while True:
                y = self.pdiv(d, f)
                if y is None:
                    break
                d = y
                x = self.pdiv(n, f)
                if x is not None:
                    n = x
                else:
                    out = mul(out, power(self.term(f), num(-1)))
        x = self.pdiv(n, d)
        if x is not None:
            return mul(self.term(x), out)
        return mul(mul(self.term(n), power(self.term(d), num(-1))), out)


def pdet(R, m):
    n = len(m)
    if n == 1:
        return m[0][0]
    r = max(range(n), key=lambda i: sum(1 for x in m[i] if not x))
    out = {}
    for c in range(n):
        if not m[r][c]:
            continue
        minor = [[m[i][j] for j in range(n) if j != c] for i in range(n) if i != r]
        out = R.padd(out, R.pmul(m[r][c], pdet(R, minor)), 1 if (r + c) % 2 == 0 else -1)
    return out


def rooted(x):
    """a number built from square roots of numbers"""
    return tm.is_num(x) or x.op == 'poly' and all(a.op == 'sqrt' and tm.is_num(a.args[0]) for m, c in x.args for a, e in m)


def solve(A, B):
    """X with A X = B (Cramer), or None"""
    a, b = rows(A), rows(B)
    vector = False
    if a is None or len(a) != len(a[0]):
        return None
    if all(numval(x) is not None for r in a for x in r) and len(a) < 20:
        return solve_numeric(a, b, B)
    m0 = next((x for r in a for x in r if x is not ZERO), None)
    if m0 is not None and len(a) < 20 and B.op == 'vec':        # a multiple of a matrix of numbers
        q = [[div(x, m0) for x in r] for r in a]
        if all(numval(x) is not None for r in q for x in r):
            def over(x):
                return T('vec', *[over(y) for y in x.args]) if x.op == 'vec' else div(x, m0)
            Q = over(B)
            return solve_numeric(q, rows(Q), Q)
    if len(a) == 2 and all(rooted(x) for r in a for x in r):
        det = sub(mul(a[0][0], a[1][1]), mul(a[0][1], a[1][0]))
        bs = b if b is not None else [[x] for x in B.args] if B.op == 'vec' else []
        if len(tm._pd(det)) == 1 and len(bs) == 2:
            X = [[div(sub(mul(a[1][1], p), mul(a[0][1], q)), det) for p, q in zip(*bs)], [div(sub(mul(a[0][0], q), mul(a[1][0], p)), det) for p, q in zip(*bs)]]
            return T('vec', *[x[0] if b is None else T('vec', *x) for x in X])
    if len(a) > 6:
        return None
    if b is None:
        if B.op != 'vec' or len(B.args) != len(a):
            return None
        vector, b = True, [[x] for x in B.args]
    if len(b) != len(a):
        return None
    n = len(a)
    R = Rational()
    factors = set()
    for i in range(n):
        es = [R.split(x) for x in a[i] + b[i]]
        if any(e is None for e in es):
            return None
        D = {}
        for e in es:
            for f, k in e[1].items():
                D[f] = max(D.get(f, 0), k)
                factors.add(f)
        es = [R.over(e, D) for e in es]
        a[i], b[i] = es[:n], es[n:]
    factors = [{((v, 1),): Fraction(1)} for v in range(len(R.names))] + [dict(f) for f in sorted(factors, key=lambda f: (len(f), sorted(f)))]
    D = pdet(R, a)
    if not D:
        return None
    X = []
    for i in range(n):
        row = []
        for j in range(len(b[0])):
            m = [[b[r][j] if c == i else a[r][c] for c in range(n)] for r in range(n)]
            row.append(R.fraction(pdet(R, m), D, factors))
        X.append(T('vec', *row) if not vector else row[0])
    return T('vec', *X)


def solve_numeric(a, b, B):
    """numeric matrix, any right hand side"""
    n = len(a)
    vector = b is None
    if vector:
        if B.op != 'vec' or len(B.args) != n:
            return None
        b = [[x] for x in B.args]
    if len(b) != n:
        return None
    M = [[numval(x) for x in r] + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(a)]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] != 0), None)
        if p is None:
            return None
        M[c], M[p] = M[p], M[c]
        f = M[c][c]
        M[c] = [x / f for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    X = [[ZERO] * len(b[0]) for _ in range(n)]
    for i in range(n):
        for j in range(len(b[0])):
            t = ZERO
            for k in range(n):
                if M[i][n + k] != 0:
                    t = add(t, mul(num(M[i][n + k]), b[k][j]))
            X[i][j] = t
    return T('vec', *[x[0] if vector else T('vec', *x) for x in X])


def same_rational(x, y):
    """x == y as rational functions (None when one is not rational)"""
    R = Rational()
    a, b = R.split(x), R.split(y)
    if a is None or b is None:
        return None
    n, d = R.plus(a, ({m: -c for m, c in b[0].items()}, b[1]))
    return not n


# ------------------------------------------------------------------ models

def x_mtimes(I, a, kw):
    if len(a) != 2:
        return None
    x, y = I.arr(a[0]), I.arr(a[1])
    if x.op == 'vec' and y.op == 'vec':
        return I.dot(x, y)
    if x.op != 'vec' and y.op != 'vec' and I.surely_scalar(x) and I.surely_scalar(y):
        return mul(x, y)
    if tm.is_num(x) or tm.is_num(y):
        return mul(x, y)
    return None


def x_where(I, a, kw):
    if len(a) == 3:
        c, x, y = I.arr(a[0]), I.arr(a[1]), I.arr(a[2])
        if c.op != 'vec' or not all(q in (TRUE, FALSE) for q in c.args):
            return None
        pick = lambda v, i: v.args[i] if v.op == 'vec' and len(v.args) == len(c.args) else v if v.op != 'vec' and I.surely_scalar(v) else None
        out = [pick(x if q is TRUE else y, i) for i, q in enumerate(c.args)]
        return T('vec', *out) if all(q is not None for q in out) else None
    if len(a) != 1:
        return None
    v = I.arr(a[0])
    if v.op == 'vec' and v.args and all(r.op == 'vec' and len(r.args) == len(v.args[0].args) for r in v.args):
        if not all(x in (TRUE, FALSE) for r in v.args for x in r.args):
            return None
        ij = [(i, j) for i, r in enumerate(v.args) for j, x in enumerate(r.args) if x is TRUE]
        return T('tuple', T('vec', *[num(i) for i, j in ij]), T('vec', *[num(j) for i, j in ij]))
    if v.op != 'vec' or not all(x in (TRUE, FALSE) for x in v.args):
        return None
    return T('tuple', T('vec', *[num(i) for i, x in enumerate(v.args) if x is TRUE]))


def items(I, x):
    its = I.concrete_items(x)
    return its


def before(x, y):
    """x < y when decided, else None"""
    r = lt0(sub(x, y))
    return True if r is TRUE else False if r is FALSE else None


def ordered(xs):
    out = []
    for x in xs:
        k = len(out)
        while k > 0:
            r = before(x, out[k - 1])
            if r is None:
                return None
            if not r:
                break
            k -= 1
        out.insert(k, x)
    return out


def keyed(I, its, kw):
    """items in the order of their keys, stable, or None"""
    if set(kw) - set(['key', 'reverse']):
        return None
    rev = kw.get('reverse', FALSE)
    if rev not in (TRUE, FALSE):
        return None
    ks = [I.arr(I.apply(kw['key'], [x], {})) if kw.get('key', NONE) is not NONE else x for x in its]
    out = []
    for n, x in enumerate(ks):
        k = len(out)
        while k > 0:
            r = before(ks[out[k - 1]], x) if rev is TRUE else before(x, ks[out[k - 1]])
            if r is None:
                return None
            if not r:
                break
            k -= 1
        out.insert(k, n)
    return [its[n] for n in out]


def x_sorted(I, a, kw):
    its = items(I, a[0])
    if its is None or len(a) != 1:
        return None
    r = keyed(I, its, kw) if kw else ordered(its)
    return I.new_list(r) if r is not None else None


def x_sort(I, a, kw):
    its = items(I, a[0])
    if its is None or kw or len(a) != 1:
        return None
    r = ordered(its)
    return T('vec', *r) if r is not None else None


def x_searchsorted(I, a, kw):
    its = items(I, a[0])
    if its is None or len(a) < 2:
        return None
    side = kw.get('side', a[2] if len(a) > 2 else mkstr('left'))
    n = 0
    for x in its:
        r = before(x, a[1]) if side is mkstr('left') else before(a[1], x)
        if r is None:
            return None
        n += r if side is mkstr('left') else (not r)
    return num(n)


def x_diag(I, a, kw):
    v = I.arr(a[0])
    k = numval(a[1]) if len(a) > 1 else 0
    if 'k' in kw:
        k = numval(kw['k'])
    if v.op != 'vec' or k is None or any(x.op == 'vec' for x in v.args):
        return None
    k = int(k)
    n = len(v.args) + abs(k)
    return T('vec', *[T('vec', *[v.args[min(i, j)] if j - i == k else ZERO for j in range(n)]) for i in range(n)])


def x_arange(I, a, kw):
    vs = [numval(x) for x in a]
    if len(a) == 3 and not kw and any(v is None for v in vs):
        n = numval(tm.div(sub(a[1], a[0]), a[2]))
        return T('vec', *[add(a[0], mul(num(i), a[2])) for i in range(-((-n.numerator) // n.denominator))]) if n is not None and n < 60 else None
    if kw or any(v is None for v in vs) or not vs:
        return None
    return T('vec', *[num(i) for i in range(*[int(v) for v in vs])])


def x_linspace(I, a, kw):
    n = numval(a[2]) if len(a) == 3 else numval(kw.get('num', NONE))
    if n is None or n > 40 or n < 2:
        return None
    n = int(n)
    if not (I.surely_scalar(a[0]) and I.surely_scalar(a[1])):
        return None
    return T('vec', *[add(a[0], mul(num(Fraction(i, n - 1)), sub(a[1], a[0]))) for i in range(n)])


def x_identity(I, a, kw):
    return I.bi_eye(a, {}, None)


def x_solve(I, a, kw):
    return solve(I.arr(a[0]), I.arr(a[1])) if len(a) == 2 else None


def x_inv(I, a, kw):
    m = I.arr(a[0])
    r = rows(m)
    return solve(m, I.bi_eye([num(len(r))], {}, None)) if r else None


def mask(I, o, i, v):
    """rounding entries that are numerically zero leaves the (exact) matrix unchanged"""
    if v is not ZERO:
        return None

    def tiny(c):
        if c in (FALSE,):
            return True
        c = c.args[0] if c.op == 'ite' and c.args[1:] == (TRUE, FALSE) else c
        if c.op == 'lt0' and c.args[0].op == 'poly':
            d = dict(tm._pd(c.args[0]))
            k = d.pop((), 0)
            if len(d) != 1:
                return False
            (m, f), = d.items()
            return f > 0 and -1e-5 < k / f < 0 and len(m) >= 1
        return False
    flat = []

    def walk(x):
        if x.op == 'vec':
            for y in x.args:
                walk(y)
        else:
            flat.append(x)
    walk(i)
    vals = []

    def walk2(x):
        if x.op == 'vec':
            for y in x.args:
                walk2(y)
        else:
            vals.append(x)
    walk2(o)
    if len(vals) == len(flat) and all(c is FALSE or (c is TRUE and x is ZERO) or tiny(c) for c, x in zip(flat, vals)):
        return o
    return None


def x_Counter(I, a, kw):
    its = items(I, a[0])
    if its is None:
        return None
    cnt = {}
    for x in its:
        cnt[x] = cnt.get(x, 0) + 1
    return I.new_dict([(k, num(n)) for k, n in cnt.items()])


def x_set(I, a, kw):
    its = items(I, a[0]) if a else []
    if its is None:
        return None
    out = []
    for x in its:
        if not any(x is y for y in out):
            out.append(x)
    return I.new_list(out)


def x_isinstance(I, a, kw):
    o = a[0]
    ks = list(a[1].args) if a[1].op == 'tuple' else [a[1]]
    if o.op in ('pos', 'poly', 'vec') and all(k.op == 'class' for k in ks):
        return FALSE
    if any(k.op != 'ext' for k in ks):
        return None
    nms = [k.args[0].split('.')[-1] for k in ks]
    if o.op == 'vec':
        return mkbool('ndarray' in nms)
    if I.hget(o) is None and (o.op in ('pos', 'poly')) and I.surely_scalar(o):
        v = numval(o)
        if v is not None and any(n in ('int', 'float') for n in nms):
            return TRUE if 'float' in nms or v.denominator == 1 else FALSE
        return mkbool('float' in nms)
    return None


def canonical_abs(x):
    """|x| is even: canonical sign, positive factor out"""
    if x.op != 'poly':
        return T('abs', x)
    f, y = tm.positive_factor(x)
    if y.op != 'poly':
        return mul(tm._mk({f: Fraction(1)}), T('abs', y))
    p = tm._scale(y, False)
    d = tm._pd(y)
    m, c = next(iter(tm._pd(p).items()))
    return tm._mk({tm._mmul(f, ((T('abs', p), 1),)): abs(d[m] / c)})


def x_abs(I, a, kw):
    def f(x):
        if x.op == 'vec':
            return T('vec', *[f(y) for y in x.args])
        if x.op in ('pos', 'poly'):
            r = lt0(x)
            if r is TRUE:
                return neg(x)
            if r is FALSE:
                return x
            if lt0(neg(x)) is FALSE:
                return neg(x)
        return canonical_abs(x)
    x = I.arr(a[0]) if len(a) == 1 and not kw else NONE
    return f(x) if x.op in ('pos', 'poly') or x.op == 'vec' and len(x.args) == 1 and x.args[0].op != 'vec' else None


def extreme(largest):
    def f(I, a, kw):
        if list(kw) == ['key']:
            its = items(I, a[0]) if len(a) == 1 else list(a)
            if not its:
                return None
            r = keyed(I, its, dict(kw, reverse=TRUE) if largest else kw)
            return r[0] if r is not None else T('phi', mkstr('extreme by key'), I.freeze(T('tuple', *a)))
        its = (items(I, a[0]) if len(a) == 1 else list(a)) if not kw else None
        if not its:
            return None
        if any(x is tm.INF or numval(x) is None and x.op == 'poly' and any(y is tm.INF for y in tm.subterms(x)) for x in its):
            its = [x for x in its if not (x.op == 'poly' and lt0(tm.substitute(x, {tm.INF: num(10 ** 12)})) is TRUE)] \
                if largest and len(its) > 1 else its
            if any(y is tm.INF for x in its for y in tm.subterms(x)):
                return None
        r = ordered(its)
        return r[-1 if largest else 0] if r else None
    return f


def x_setdiff1d(I, a, kw):
    x, y = (items(I, q) for q in a[:2])
    if x is None or y is None:
        return None
    out = []
    for q in x:
        d = [eq0(sub(q, r)) for r in list(y) + out]
        if TRUE in d:
            continue
        if any(e is not FALSE for e in d):
            return None
        out.append(q)
    out = ordered(out)
    return T('vec', *out) if out is not None else None


def x_append(I, a, kw):
    x, y = (items(I, q) if I.hget(q) is not None or q.op in ('vec', 'tuple') else [q] for q in a[:2])
    return T('vec', *(list(x) + list(y))) if x is not None and y is not None and not kw else None


def union(I, o, args, kw):
    its = items(I, o)
    for a in args:
        x = items(I, a)
        its = its + x if its is not None and x is not None else None
    return x_set(I, [I.new_list(its)], {}) if its is not None else None


def is_row(x):
    return x.op == 'vec' and not any(y.op == 'vec' for y in x.args)


def as_block(I, x, column):
    """rows of one block of a stack"""
    x = I.arr(x)
    if x.op == 'vec':
        if is_row(x):
            return [[y] for y in x.args] if column else [list(x.args)]
        return rows(x)
    return [[x]] if I.surely_scalar(x) else None


def blocks(I, a, column=False):
    its = items(I, a)
    if its is None:
        x = I.arr(a)
        its = list(x.args) if x.op == 'vec' else None
    if not its:
        return None
    bs = [as_block(I, x, column) for x in its]
    return None if any(b is None for b in bs) else bs


def mat(rs):
    return T('vec', *[T('vec', *r) for r in rs])


def x_vstack(I, a, kw):
    bs = blocks(I, a[0]) if len(a) == 1 and not kw else None
    if bs is None or len(set(len(r) for b in bs for r in b)) != 1:
        return None
    return mat([r for b in bs for r in b])


def beside(bs):
    if bs is None or len(set(map(len, bs))) != 1:
        return None
    return mat([sum((b[i] for b in bs), []) for i in range(len(bs[0]))])


def x_hstack(I, a, kw):
    if len(a) != 1 or kw:
        return None
    its = items(I, a[0])
    xs = [I.arr(x) for x in its] if its is not None else []
    if xs and all(is_row(x) or x.op != 'vec' and I.surely_scalar(x) for x in xs):
        return T('vec', *sum((list(x.args) if x.op == 'vec' else [x] for x in xs), []))
    return beside(blocks(I, a[0]))


def x_colstack(I, parts):
    stacks = [I.arr(x) for x in parts]          # 3-d: joined along the last axis
    if all(x.op == 'vec' and x.args and all(y.op == 'vec' and y.args and all(z.op == 'vec' for z in y.args) for y in x.args) for x in stacks) and \
            len(set(len(x.args) for x in stacks)) == 1:
        joined = [beside([as_block(I, m, True) for m in ms]) for ms in zip(*[x.args for x in stacks])]
        return T('vec', *joined) if all(j is not None for j in joined) else None
    return beside([b for b in (as_block(I, x, True) for x in parts)] if all(as_block(I, x, True) for x in parts) else None)


def pick(I, largest, xs):
    """extreme of a set of values, without those that are certainly not"""
    keep = []
    for x in dict.fromkeys(xs):
        if any((before(x, y) if largest else before(y, x)) for y in keep):
            continue
        keep = [y for y in keep if not (before(y, x) if largest else before(x, y))] + [x]
    return keep[0] if len(keep) == 1 else I._minmax(keep, {}, largest)


def along(largest):
    def f(I, a, kw):
        x = I.arr(a[0])
        axis = kw.get('axis', a[1] if len(a) > 1 else NONE)
        m = rows(x)
        if m is None:
            return pick(I, largest, list(x.args)) if x.op == 'vec' and x.args and is_row(x) else None
        if axis is NONE:
            return pick(I, largest, sum(m, []))
        if numval(axis) not in (0, 1, -1):
            return None
        if numval(axis) == 0:
            m = [list(c) for c in zip(*m)]
        return T('vec', *[pick(I, largest, r) for r in m])
    return f


def ravel(I, o, args, kw):
    x = I.arr(o)
    if args or kw or x.op != 'vec':
        return None
    m = rows(x)
    return T('vec', *sum(m, [])) if m is not None else x if is_row(x) else None


def x_argsort(I, a, kw):
    its = items(I, a[0])
    if its is None or kw or len(a) != 1:
        return None
    r = ordered(its)
    if r is None:
        return None
    left, out = list(range(len(its))), []
    for x in r:
        k = next(i for i in left if its[i] is x)
        left.remove(k)
        out.append(num(k))
    return T('vec', *out)


def x_cumsum(I, a, kw):
    x = I.arr(a[0])
    axis = kw.get('axis', a[1] if len(a) > 1 else NONE)

    def run(r):
        out, t = [], ZERO
        for y in r:
            t = add(t, y)
            out.append(t)
        return out
    m = rows(x)
    if m is None:
        return T('vec', *run(x.args)) if x.op == 'vec' and is_row(x) else None
    if axis is NONE:
        return T('vec', *run(sum(m, [])))
    if numval(axis) in (1, -1):
        return mat([run(r) for r in m])
    if numval(axis) == 0:
        return mat(zip(*[run(c) for c in zip(*m)]))
    return None


def x_filter(I, a, kw):
    its = items(I, a[1]) if len(a) == 2 and not kw else None
    if its is None:
        return None
    out = []
    for x in its:
        t = I.simplify(I.truth_of(I.apply(a[0], [x], {}) if a[0] is not NONE else x))
        if t is TRUE:
            out.append(x)
        elif t is not FALSE:
            return None
    return I.new_list(out)


EXTRA = {'filter': x_filter, 'argsort': x_argsort, 'cumsum': x_cumsum, 'vstack': x_vstack, 'hstack': x_hstack, '<colstack>': x_colstack, 'amax': along(True), 'amin': along(False),
         'row_stack': x_vstack, 'abs': x_abs, 'fabs': x_abs, 'absolute': x_abs, 'max': extreme(True), 'min': extreme(False), 'maximum': extreme(True), 'minimum': extreme(False), 'setdiff1d': x_setdiff1d, 'append': x_append,
         'isinstance': x_isinstance, 'mtimes': x_mtimes, 'where': x_where, 'sorted': x_sorted, 'sort': x_sort, 'searchsorted': x_searchsorted,
         'diag': x_diag, 'arange': x_arange, 'linspace': x_linspace, 'identity': x_identity, 'solve': x_solve, 'inv': x_inv,
         'Counter': x_Counter, 'set': x_set, 'frozenset': x_set, '<mask>': mask}


def passthrough(I, ct, args, kw):
    return args[0]


def install(I):
    I.extra = dict(EXTRA)
    I.models['csr_matrix_alt'] = passthrough
    I.models['.union'] = union
    for n in ('.ravel', '.flatten'):
        I.models[n] = ravel
    for n, b in (('.max', True), ('.min', False)):
        I.models[n] = (lambda f: lambda I, o, args, kw: f(I, [o] + list(args), kw))(along(b))
