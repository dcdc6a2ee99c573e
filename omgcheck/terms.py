"""Hash-consed value terms with canonical normal forms.

The abstract domain of the analyser (see interp.py): every expression of the
analysed program is mapped to a *term*.  Two syntactically different but
algebraically equal expressions get the same term:

 * numbers are multivariate polynomials with rational coefficients over opaque
   atoms (Laurent monomials; sums of other shapes become atoms when inverted),
 * booleans and values that depend on a branch are ordered decision diagrams
   (`ite` nodes ordered by the digest of their condition atom, reduced),
 * strings are flattened concatenations,
 * 1-D/2-D arrays of known shape are vectors with element-wise arithmetic.

No solver is involved and nothing of the analysed program is executed."""
import hashlib
import math
from fractions import Fraction
import sys
sys.setrecursionlimit(20000)

_table = {}


class Term(object):
    __slots__ = ('op', 'args', 'dig', '_it', '_h')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.dig < other.dig


def _akey(a):
    if isinstance(a, Term):
        return a.dig
    if isinstance(a, tuple):
        return '(' + ','.join(_akey(x) for x in a) + ')'
    return type(a).__name__ + ':' + str(a)


def T(op, *args):
    """intern a term without any simplification"""
    k = (op, tuple((type(a), a) if not isinstance(a, Term) else a for a in args))
    t = _table.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.dig = hashlib.blake2b((op + '|' + '|'.join(_akey(a) for a in args)).encode('utf-8', 'replace'), digest_size=10).hexdigest()
        t._h = hash(t.dig)
        t._it = None
        _table[k] = t
    return t


TRUE = T('bool', True)
FALSE = T('bool', False)
NONE = T('none')
BOT = T('bot')          # unreachable / don't care
UNDEF = T('undef')      # unassigned variable
INF = T('inf')


def mkstr(s):
    return T('str', s)


def mkbool(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- polynomials

def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x:
            return T('nan')
        if x in (float('inf'), float('-inf')):
            return INF if x > 0 else neg(INF)
        x = Fraction(repr(x))
    return T('poly', ((), Fraction(x))) if x != 0 else T('poly')


ZERO = num(0)
ONE = num(1)


def is_num(t):
    """t is a numeric constant"""
    return t.op == 'poly' and (len(t.args) == 0 or (len(t.args) == 1 and t.args[0][0] == ()))


def numval(t):
    if not is_num(t):
        return None
    return Fraction(0) if not t.args else t.args[0][1]


def _pd(t):
    """term -> dict monomial -> coef"""
    if t.op == 'poly':
        return dict(t.args)
    if t.op == 'bool':
        return {(): Fraction(1)} if t.args[0] else {}
    return {((t, 1),): Fraction(1)}


def _mk(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: _mkey(mc[0]))
    return T('poly', *items)


def _mkey(m):
    return ''.join('%s^%s;' % (a.dig, e) for a, e in m)


def _mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: x[0].dig))


def _padd(a, b, s=1):
    d = _pd(a)
    for m, c in _pd(b).items():
        d[m] = d.get(m, 0) + s * c
    return _mk(d)


def _pmul(a, b):
    da, db = _pd(a), _pd(b)
    if len(da) * len(db) > 3000:
        x, y = sorted([a, b])
        return T('bigmul', x, y)
    d = {}
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _expand_atoms(d)


def _expand_atoms(d):
    """re-expand poly atoms with a positive exponent; sqrt(x)^2 -> x"""
    need = False
    for m in d:
        for a, e in m:
            if (a.op == 'poly' and e > 0) or (a.op == 'sqrt' and abs(e) >= 2) or (a.op == 'sin' and e >= 2):
                need = True
    if not need:
        return _mk(d)
    res = ZERO
    for m, c in d.items():
        rest = []
        extra = ONE
        for a, e in m:
            if a.op == 'poly' and e > 0:
                for _ in range(e):
                    extra = _pmul(extra, a)
            elif a.op == 'sin' and e >= 2:
                c2 = T('cos', *a.args)
                for _ in range(e // 2):
                    extra = _pmul(extra, _mk({(): Fraction(1), ((c2, 2),): Fraction(-1)}))
                if e % 2:
                    rest.append((a, 1))
            elif a.op == 'sqrt' and abs(e) >= 2:
                k = abs(e) // 2
                p = a.args[0]
                for _ in range(k):
                    extra = _pmul(extra, p if e > 0 else inv(p))
                r = abs(e) - 2 * k
                if r:
                    rest.append((a, r if e > 0 else -r))
            else:
                rest.append((a, e))
        res = _padd(res, _pmul(_mk({tuple(rest): c}), extra))
    return res


def inv(b):
    d = _pd(b)
    if len(d) == 1:
        (m, c), = d.items()
        return _mk({tuple((a, -e) for a, e in m): 1 / c})
    if not d:
        return T('divzero')
    # factor out leading coefficient so that 2*(1+t) and (1+t) share an atom
    items = sorted(d.items(), key=lambda mc: _mkey(mc[0]))
    lead = items[0][1]
    p = _mk({m: c / lead for m, c in items})
    if p.op != 'poly':
        return _mk({((p, -1),): 1 / lead})
    return _mk({((p, -1),): 1 / lead})


def neg(a):
    return lift(lambda x: _vec1(lambda y: _pmul(num(-1), y), x), a)


def _vec1(f, x):
    if x.op == 'vec':
        return T('vec', *[_vec1(f, y) for y in x.args])
    return f(x)


def _vec2(f, x, y):
    if x.op == 'vec' and y.op == 'vec':
        if len(x.args) == len(y.args):
            return T('vec', *[lift(lambda p, q: _vec2(f, p, q), p, q) for p, q in zip(x.args, y.args)])
        if len(x.args) == 1:
            return T('vec', *[lift(lambda p, q: _vec2(f, p, q), x.args[0], q) for q in y.args])
        if len(y.args) == 1:
            return T('vec', *[lift(lambda p, q: _vec2(f, p, q), p, y.args[0]) for p in x.args])
        return T('shape_error', x, y)
    if x.op == 'vec' and scalarish(y):
        return T('vec', *[lift(lambda p: _vec2(f, p, y), p) for p in x.args])
    if y.op == 'vec' and scalarish(x):
        return T('vec', *[lift(lambda p: _vec2(f, x, p), p) for p in y.args])
    return f(x, y)


SCALAR_OPS = set(['sin', 'cos', 'tan', 'sqrt', 'arctan2', 'arctan', 'norm', 'len', 'int', 'round', 'floor', 'ceil', 'inf', 'idx', 'scalar', 'getelem'])


def scalarish(t):
    """t is surely a scalar (used for broadcasting against known vectors)"""
    if is_num(t) or t.op in SCALAR_OPS or t.op == 'bool':
        return True
    if t.op == 'poly':
        return all(scalarish(a) for m, c in t.args for a, e in m)
    if t.op == 'ite':
        return scalarish(t.args[1]) and scalarish(t.args[2])
    # symbolic atoms are treated as scalars: arrays of known shape are `vec`
    return t.op not in ('vec', 'cat', 'list', 'tuple')


def add(a, b):
    return lift(lambda x, y: _vec2(_add0, x, y), a, b)


def _add0(x, y):
    return _padd(x, y)


def sub(a, b):
    return lift(lambda x, y: _vec2(lambda p, q: _padd(p, q, -1), x, y), a, b)


def mul(a, b):
    return lift(lambda x, y: _vec2(_pmul, x, y), a, b)


def div(a, b):
    return lift(lambda x, y: _vec2(lambda p, q: _pmul(p, inv(q)), x, y), a, b)


def power(a, n):
    def f(x, k):
        kv = numval(k)
        if kv is not None and kv.denominator == 1 and abs(kv) <= 12:
            kv = int(kv)
            r = ONE
            base = x if kv >= 0 else inv(x)
            for _ in range(abs(kv)):
                r = _pmul(r, base)
            return r
        if kv == Fraction(1, 2):
            return sqrt_(x)
        return T('pow', x, k)
    return lift(lambda x, y: _vec2(f, x, y), a, n)


def sqrt_(x):
    v = numval(x)
    if v is not None and v >= 0:
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return num(Fraction(n, d))
        t, s, k = v.numerator * v.denominator, 1, 2
        while k * k <= t and k < 1000:
            while t % (k * k) == 0:
                t, s = t // (k * k), s * k
            k += 1
        return _pmul(num(Fraction(s, v.denominator)), T('sqrt', num(t)))
    elif x.op == 'poly' and len(x.args) == 1:
        m, c = x.args[0]
        if c > 0 and m and all(e % 2 == 0 and psign(a) > 0 for a, e in m):
            return _pmul(sqrt_(num(c)), _mk({tuple((a, e // 2) for a, e in m): Fraction(1)}))
    if x.op == 'poly' and len(x.args) > 1:
        # even powers of positive quantities and the square part of the content go out
        f, y = positive_factor(x)
        f2 = tuple((a, e // 2) for a, e in f if e // 2)
        y = _pmul(y, _mk({tuple((a, e % 2) for a, e in f if e % 2): Fraction(1)}))
        if y.op == 'poly':
            cs = [c for m, c in y.args]
            n, d = 0, 1
            for c in cs:
                n, d = math.gcd(n, c.numerator), d * c.denominator // math.gcd(d, c.denominator)
            t, s = n * d, 1
            if t < 10 ** 9:
                k = 2
                while k * k <= t and k < 1000:
                    while t % (k * k) == 0:
                        t, s = t // (k * k), s * k
                    k += 1
                y = _pmul(y, num(Fraction(d * t, n)))
                return _pmul(T('sqrt', y), _mk({f2: Fraction(s, d)}))
    return T('sqrt', x)


# ------------------------------------------------------- decision diagrams

def top(t):
    return t.args[0] if t.op == 'ite' else None


def cof(t, v, b):
    if t.op == 'ite' and t.args[0] is v:
        return t.args[1] if b else t.args[2]
    return t


_atoms_memo = {}


def cond_atoms(t):
    """condition atoms tested at the top of the diagram t"""
    if t.op != 'ite':
        if t.op in ('tuple', 'list', 'vec'):
            r = _atoms_memo.get(t)
            if r is None:
                r = frozenset().union(*[cond_atoms(x) for x in t.args]) if t.args else frozenset()
                _atoms_memo[t] = r
            return r
        return frozenset()
    r = _atoms_memo.get(t)
    if r is None:
        r = frozenset([t.args[0]]) | cond_atoms(t.args[1]) | cond_atoms(t.args[2])
        _atoms_memo[t] = r
    return r


_group_memo = {}


def group(v):
    """(key, set description): conditions on one quantity.  For numeric tests the set is an
    interval union of the normalised linear form, for equality tests a single literal."""
    r = _group_memo.get(v)
    if r is not None:
        return r
    r = (None, None)
    if v.op == 'eq':
        a, b = v.args
        la, lb = a.op == 'str', b.op == 'str'
        if la != lb:
            r = (('eq', b if la else a), ('lit', a if la else b))
    elif v.op in ('lt0', 'eq0'):
        d = dict(_pd(v.args[0]))
        c0 = d.pop((), Fraction(0))
        if d:
            p = _mk(d)
            q = _scale(p, False)
            # p = k*q with k != 0
            m0 = next(iter(_pd(q)))
            k = d[m0] / _pd(q)[m0]
            c = -c0 / k
            if v.op == 'eq0':
                iv = (c, False, c, False)
            elif k > 0:      # k*q + c0 < 0  <=> q < c
                iv = (None, True, c, True)
            else:            # q > c
                iv = (c, True, None, True)
            r = (('num', q), iv)
    _group_memo[v] = r
    return r


def _iv_empty(i):
    lo, lopen, hi, hopen = i
    if lo is None or hi is None:
        return False
    return lo > hi or (lo == hi and (lopen or hopen))


def _iv_and(a, b):
    lo, lopen = a[0], a[1]
    if b[0] is not None and (lo is None or b[0] > lo or (b[0] == lo and b[1])):
        lo, lopen = b[0], b[1]
    hi, hopen = a[2], a[3]
    if b[2] is not None and (hi is None or b[2] < hi or (b[2] == hi and b[3])):
        hi, hopen = b[2], b[3]
    return (lo, lopen, hi, hopen)


def _iv_not(i):
    lo, lopen, hi, hopen = i
    out = []
    if lo is not None:
        out.append((None, True, lo, not lopen))
    if hi is not None:
        out.append((hi, not hopen, None, True))
    return out


def implied(v, val, w):
    """truth of condition atom w when atom v has value val (None: not determined)"""
    if v is w:
        return val
    kv, sv = group(v)
    if kv is None:
        return None
    kw, sw = group(w)
    if kw != kv:
        return None
    if kv[0] == 'eq':
        return False if val else None
    poss = [sv] if val else _iv_not(sv)
    if all(_iv_empty(_iv_and(p, sw)) for p in poss):
        return False
    if all(_iv_empty(_iv_and(p, n)) for p in poss for n in _iv_not(sw)):
        return True
    return None


def assume(t, v, val):
    """simplify t under the assumption that condition atom v is val (and what that implies)"""
    kv = group(v)[0]
    for w in cond_atoms(t):
        if w is v:
            t = restrict(t, w, val)
        elif kv is not None and group(w)[0] == kv:
            b = implied(v, val, w)
            if b is not None:
                t = restrict(t, w, b)
    return t


def mk_ite(v, hi, lo):
    if hi is lo:
        return hi
    if hi is BOT or hi is UNDEF:
        return lo
    if lo is BOT or lo is UNDEF:
        return hi
    kv = group(v)[0]
    if kv is not None:
        if any(group(w)[0] == kv for w in cond_atoms(hi)):
            hi = assume(hi, v, True)
        if any(group(w)[0] == kv for w in cond_atoms(lo)):
            lo = assume(lo, v, False)
        if hi is lo:
            return hi
        la = any(group(w)[0] == kv for w in cond_atoms(lo))
        if la and assume(lo, v, True) is hi:
            return lo
        ha = any(group(w)[0] == kv for w in cond_atoms(hi))
        if ha and assume(hi, v, False) is lo:
            return hi
    if hi.op == lo.op and hi.op in ('tuple', 'list', 'vec') and len(hi.args) == len(lo.args):
        c = T('ite', v, TRUE, FALSE)
        return T(hi.op, *[ite(c, a, b) for a, b in zip(hi.args, lo.args)])
    return T('ite', v, hi, lo)


class TooBig(Exception):
    pass


def lift(f, *args):
    """apply leaf function f through the decision diagrams of the args"""
    memo = {}
    cnt = [0]

    def go(args):
        r = memo.get(args)
        if r is not None:
            return r
        v = None
        for a in args:
            if a is BOT:
                return BOT
            if a.op == 'ite':
                x = a.args[0]
                if v is None or x.dig < v.dig:
                    v = x
        if v is None:
            cnt[0] += 1
            r = f(*args)
        elif cnt[0] > 400:
            r = T('toobig', *args)
        else:
            hi = go(tuple(cof(a, v, True) for a in args))
            lo = go(tuple(cof(a, v, False) for a in args))
            r = _ite_var(v, hi, lo)
        memo[args] = r
        return r
    return go(tuple(args))


def _ite_var(v, hi, lo):
    """ite on a single condition atom, keeping the global variable order"""
    th, tl = top(hi), top(lo)
    m = v
    for x in (th, tl):
        if x is not None and x.dig < m.dig:
            m = x
    if m is v:
        return mk_ite(v, cof(hi, v, True), cof(lo, v, False))
    return mk_ite(m, _ite_var(v, cof(hi, m, True), cof(lo, m, True)),
                  _ite_var(v, cof(hi, m, False), cof(lo, m, False)))


_ite_memo = {}


def ite(c, a, b):
    """c: boolean decision diagram"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c is BOT or c is UNDEF:
        return ite(condatom(T('truth', c)), a, b)
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is None:
        if c.op != 'ite':
            c2 = truth(c)
            if c2 is c:
                c2 = condatom(T('truth', c))
            r = ite(c2, a, b)
        else:
            v = c.args[0]
            r = _ite_var(v, restrict_top(ite(c.args[1], a, b), v, True), restrict_top(ite(c.args[2], a, b), v, False))
        _ite_memo[k] = r
    return r


def restrict_top(t, v, b):
    return restrict(t, v, b)


_restrict_memo = {}


def restrict(t, v, b):
    """cofactor of t w.r.t. condition atom v (anywhere in the diagram)"""
    if t.op in ('tuple', 'list', 'vec'):
        if not t.args:
            return t
        return T(t.op, *[restrict(x, v, b) for x in t.args])
    if t.op != 'ite':
        return t
    if t.args[0] is v:
        return t.args[1] if b else t.args[2]
    k = (t, v, b)
    r = _restrict_memo.get(k)
    if r is None:
        r = mk_ite(t.args[0], restrict(t.args[1], v, b), restrict(t.args[2], v, b))
        _restrict_memo[k] = r
    return r


def condatom(a):
    return T('ite', a, TRUE, FALSE)


def bnot(a):
    return lift(lambda x: FALSE if x is TRUE else TRUE if x is FALSE else bnot(truth(x)), a)


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


NONEMPTY_OPS = ('func', 'class', 'obj', 'ext', 'module')


def truth(t):
    """boolean diagram of the truthiness of t (refs are resolved by the interpreter)"""
    def f(x):
        if x is TRUE or x is FALSE:
            return x
        if x is NONE:
            return FALSE
        if is_num(x):
            return mkbool(numval(x) != 0)
        if x.op == 'str':
            return mkbool(x.args[0] != '')
        if x.op in ('tuple', 'list', 'vec'):
            return mkbool(len(x.args) > 0)
        if x.op in NONEMPTY_OPS or x.op == 'sym' and 'object' in x.args[1:]:
            return TRUE
        if x.op == 'len':
            return truth(x.args[0])
        if x.op == 'poly':
            return bnot(eq0(x))
        return condatom(T('truth', x))
    return lift(f, t)


def _scale(p, signed):
    """normalise a polynomial up to a positive (signed=False: any non-zero) factor"""
    d = _pd(p)
    items = sorted(d.items(), key=lambda mc: _mkey(mc[0]))
    # the constant monomial sorts first (empty key); prefer a symbolic leader
    lead = items[0][1]
    for m, c in items:
        if m != ():
            lead = c
            break
    s = abs(lead) if signed else lead
    return _mk({m: c / s for m, c in items})


def positive_factor(p):
    """(monomial of positive quantities, p / monomial): the common part of all its monomials"""
    d = _pd(p)
    common = None
    for m in d:
        e = {a: k for a, k in m if a.op in ('pos', 'sqrt') and psign(a) > 0}
        if common is None:
            common = e
        else:
            common = {a: min(k, e.get(a, 0)) for a, k in common.items()}
            for a, k in e.items():
                if a not in common and k < 0:
                    common[a] = k
            # absent there counts as exponent zero
            common = {a: k for a, k in common.items() if k}
    if not common:
        return (), p
    # a negative exponent of a quantity missing elsewhere is still common
    keep = {}
    for a, k in common.items():
        k = min(dict(m).get(a, 0) for m in d)
        if k:
            keep[a] = k
    if not keep:
        return (), p
    inv_ = tuple((a, -k) for a, k in keep.items())
    return tuple(sorted(keep.items(), key=lambda x: x[0].dig)), _mk({_mmul(m, inv_): c for m, c in d.items()})


def psign(t):
    """+1 / -1 when t is certainly positive / negative (built from positive quantities), else 0"""
    v = numval(t)
    if v is not None:
        return (v > 0) - (v < 0)
    if t.op == 'pos' or t.op == 'ext' and t.args == ('pi',):
        return 1
    if t.op in ('sqrt', 'norm') and len(t.args) == 1 and psign(t.args[0]) > 0:
        return 1
    if t.op != 'poly':
        return 0
    top = [(m, c) for m, c in t.args if m == ((INF, 1),)]
    if top and not any(a is INF or a.op not in ('pos', 'sqrt') for m, c in t.args if m != top[0][0] for a, e in m):
        return 1 if top[0][1] > 0 else -1
    rest = set(tuple((a, e) for a, e in m if not (a.op == 'sqrt' and is_num(a.args[0]))) for m, c in t.args)
    if len(rest) == 1 and all(psign(a) > 0 for a, e in list(rest)[0]):
        v = sum(float(c) * math.prod(float(numval(a.args[0])) ** (e / 2.) for a, e in m if a.op == 'sqrt' and is_num(a.args[0])) for m, c in t.args)
        scale = sum(abs(float(c)) for m, c in t.args)
        if abs(v) > 1e-9 * scale:
            return 1 if v > 0 else -1
    r = None
    for m, c in t.args:
        s = 1 if c > 0 else -1
        for a, e in m:
            x = psign(a)
            if e % 2 == 0:
                x = abs(x)
            s *= x
        if s == 0 or (r is not None and r != s):
            return 0
        r = s
    return r or 0


def eq0(p):
    def f(p):
        v = numval(p)
        if v is not None:
            return mkbool(v == 0)
        if psign(p):
            return FALSE
        p = _scale(positive_factor(p)[1], False)
        if p.op == 'len':
            return bnot(truth(p.args[0]))
        return condatom(T('eq0', p))
    return lift(f, p)


def lt0(p):
    def f(p):
        v = numval(p)
        if v is not None:
            return mkbool(v < 0)
        if p is INF:
            return FALSE
        if p is neg(INF):
            return TRUE
        sg = psign(p)
        if sg:
            return mkbool(sg < 0)
        p = _scale(positive_factor(p)[1], True)
        d = _pd(p)
        if len(d) == 1:
            (m, c), = d.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'len':
                return FALSE if c > 0 else truth(m[0][0].args[0])
        # len(x) < 1  <=> not x ;  1 - len(x) < 1...
        if len(d) == 2 and () in d:
            (m, c), = [(m, c) for m, c in d.items() if m != ()]
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'len':
                x = m[0][0].args[0]
                if c == 1 and d[()] == -1:
                    return bnot(truth(x))
            # a root against a bound of the other sign: compare the squares
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sqrt' and c * d[()] < 0:
                k2 = num((d[()] / c) ** 2)
                x = m[0][0].args[0]
                return lt0(_padd(k2, x, -1) if c < 0 else _padd(x, k2, -1))
        # canonical polarity: keep one of p<0 / -p<0 as it is (both are needed: strictness)
        return condatom(T('lt0', p))
    return lift(f, p)


NUMERIC_OPS = ('poly', 'len', 'sin', 'cos', 'sqrt', 'norm')


OWN_EQ = set()      # classes that define their own equality


def isobj(t):
    """symbol standing for one particular object (distinct from every other such symbol)"""
    return t.op == 'sym' and len(t.args) > 2


def eq(a, b):
    def f(a, b):
        if a is b:
            return TRUE
        if isobj(a) and isobj(b):
            return FALSE
        if a.op == 'obj' and (b.op == 'obj' or isobj(b)) or b.op == 'obj' and isobj(a):
            return condatom(T('eq', *sorted([a, b]))) if any(x.args[-1] in OWN_EQ for x in (a, b) if x.op == 'obj') else FALSE
        if a.op == 'list' and b.op == 'list' or a.op == 'tuple' and b.op == 'tuple':
            if len(a.args) != len(b.args):
                return FALSE
            r = TRUE
            for x, y in zip(a.args, b.args):
                r = band(r, eq(x, y))
            return r
        if a.op == 'dict' and b.op == 'dict' and a.args[0] is NONE and b.args[0] is NONE and all(x.op == 'kv' for x in a.args[1:] + b.args[1:]):
            d, g = ({x.args[0]: x.args[1] for x in y.args[1:]} for y in (a, b))
            if all(k.op == 'str' for k in list(d) + list(g)):
                if set(d) != set(g):
                    return FALSE
                r = TRUE
                for k in d:
                    r = band(r, eq(d[k], g[k]))
                return r
        lit = ('str', 'none', 'bool', 'list', 'tuple', 'class', 'func')
        if a.op in lit and b.op in lit:
            if a.op == 'bool' and b.op == 'bool' or a.op != 'bool' and b.op != 'bool':
                return FALSE
        if (a.op == 'str' and is_num(b)) or (b.op == 'str' and is_num(a)):
            return FALSE
        if a.op in lit or b.op in lit or a.op == 'concat' or b.op == 'concat':
            if b is TRUE and a.op not in lit:
                return truth(a)
            if a is TRUE and b.op not in lit:
                return truth(b)
            if b is FALSE and a.op not in lit:
                return bnot(truth(a))
            if a is FALSE and b.op not in lit:
                return bnot(truth(b))
            # len-like emptiness test  x == []
            for p, q in ((a, b), (b, a)):
                if p.op == 'list' and not p.args and q.op not in lit:
                    return bnot(truth(q))
            if a is NONE or b is NONE:
                return isnone(b if a is NONE else a)
            x, y = sorted([a, b])
            return condatom(T('eq', x, y))
        if a.op == 'vec' or b.op == 'vec':
            x, y = sorted([a, b])
            return condatom(T('eq', x, y))
        return eq0(_padd(a, b, -1))
    return lift(f, a, b)


NOTNONE_OPS = ('poly', 'pos', 'str', 'bool', 'list', 'tuple', 'vec', 'func', 'class', 'obj', 'concat', 'ref', 'dict',
               'cat', 'len', 'D', 'ext')


def isnone(a):
    def f(x):
        if x is NONE:
            return TRUE
        if x.op in NOTNONE_OPS or (x.op == 'sym' and len(x.args) > 1 and x.args[1] == 'notnone'):
            return FALSE
        return condatom(T('isnone', x))
    return lift(f, a)


# ---------------------------------------------------------------- strings

def concat(*parts):
    def f(*ps):
        out = []
        for p in ps:
            if p.op == 'concat':
                out.extend(p.args)
            else:
                out.append(p)
        res = []
        for p in out:
            if p.op == 'str' and p.args[0] == '':
                continue
            if res and res[-1].op == 'str' and p.op == 'str':
                res[-1] = mkstr(res[-1].args[0] + p.args[0])
            else:
                res.append(p)
        if not res:
            return mkstr('')
        if len(res) == 1:
            return res[0]
        return T('concat', *res)
    return lift(f, *parts)


def str_of(x):
    def f(x):
        if x.op == 'str' or x.op == 'concat' or x.op == 'str_of':
            return x
        v = numval(x)
        if v is not None and v.denominator == 1:
            return mkstr(str(int(v)))
        if x is TRUE or x is FALSE:
            return mkstr(str(x.args[0]))
        return T('str_of', x)
    return lift(f, x)


def call(op, *args):
    """strict operation on leaves: decision diagrams are lifted out"""
    return lift(lambda *a: T(op, *a), *args) if args else T(op)


# ---------------------------------------------------------------- traversal

def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        stack.extend(x.args)
    return seen


def substitute(t, mapping, memo=None):
    """replace atoms by terms, re-normalising"""
    memo = {} if memo is None else memo

    def go(x):
        if x in mapping:
            return mapping[x]
        r = memo.get(x)
        if r is not None:
            return r
        if not any(isinstance(a, (Term, tuple)) for a in x.args):
            r = x
        elif x.op == 'poly':
            r = ZERO
            for m, c in x.args:
                p = num(c)
                for a, e in m:
                    p = mul(p, power(go(a), num(e)))
                r = add(r, p)
        elif x.op == 'ite':
            c = mapping.get(x.args[0])
            r = ite(c if c is not None else _subst_cond(x.args[0], go), go(x.args[1]), go(x.args[2]))
        elif x.op == 'concat':
            r = concat(*[go(a) for a in x.args])
        elif x.op in ('tuple', 'list', 'vec', 'dict', 'kv'):
            r = T(x.op, *[go(a) for a in x.args])
        elif x.op == 'sqrt':
            r = lift(sqrt_, go(x.args[0]))
        else:
            r = call(x.op, *[go(a) if isinstance(a, Term) else T('raw', a) for a in x.args]) \
                if all(isinstance(a, Term) for a in x.args) else T(x.op, *[_gotuple(a, go) for a in x.args])
        memo[x] = r
        return r
    return go(t)


def _gotuple(a, go):
    if isinstance(a, Term):
        return go(a)
    if isinstance(a, tuple):
        return tuple(_gotuple(x, go) for x in a)
    return a


def _subst_cond(v, go):
    if v.op == 'eq0':
        return eq0(go(v.args[0]))
    if v.op == 'lt0':
        return lt0(go(v.args[0]))
    if v.op == 'eq':
        return eq(go(v.args[0]), go(v.args[1]))
    if v.op == 'isnone':
        return isnone(go(v.args[0]))
    if v.op == 'truth':
        return truth(go(v.args[0]))
    return lift(lambda *a: condatom(T(v.op, *a)), *[go(a) for a in v.args]) if all(isinstance(a, Term) for a in v.args) \
        else condatom(v)


# ---------------------------------------------------------------- printing

def short(t, n=400):
    s = show(t)
    return s if len(s) <= n else s[:n] + ' ...'


def show(t, depth=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth + 1) for x in t) + ')'
        return str(t)
    if depth > 9:
        return '...'
    o, a = t.op, t.args
    s = lambda x: show(x, depth + 1)
    if o == 'poly':
        if not a:
            return '0'
        out = []
        for m, c in a:
            ms = '*'.join((('(%s)' % s(x)) if x.op == 'poly' else s(x)) + ('' if e == 1 else '^%s' % e) for x, e in m)
            cf = str(c) if c.denominator == 1 or c.denominator > 1000 else '%d/%d' % (c.numerator, c.denominator)
            if c.denominator > 1000:
                cf = repr(float(c))
            if ms == '':
                out.append(cf)
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append('-' + ms)
            else:
                out.append(cf + '*' + ms)
        return ' + '.join(out).replace('+ -', '- ')
    if o == 'str':
        return repr(a[0])
    if o == 'bool':
        return str(a[0])
    if o == 'none':
        return 'None'
    if o == 'sym':
        return str(a[0])
    if o == 'attr':
        return '%s.%s' % (s(a[0]), a[1])
    if o == 'getitem':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if o == 'ite':
        if a[1] is TRUE and a[2] is FALSE:
            return '[%s]' % s(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return 'not[%s]' % s(a[0])
        return '{%s if %s else %s}' % (s(a[1]), s(a[0]), s(a[2]))
    if o == 'lt0':
        return '%s < 0' % s(a[0])
    if o == 'eq0':
        return '%s == 0' % s(a[0])
    if o in ('list', 'vec', 'tuple'):
        b = {'list': '[]', 'vec': '<>', 'tuple': '()'}[o]
        return b[0] + ', '.join(s(x) for x in a) + b[1]
    if o == 'D':
        return 'd%s(%s)' % (s(a[1]), s(a[0]))
    if o == 'mcall':
        return '%s.%s(%s)' % (s(a[1]), s(a[0]), ', '.join(s(x) for x in a[2:]))
    if o == 'idx':
        return 'i%s' % a[0]
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))
