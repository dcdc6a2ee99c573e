"""Second opinion on two values whose normal forms differ: both terms (never the program) are evaluated at
points of their common domain, chosen near the borders of their case distinctions.  A point where they
differ confirms the difference; without one the difference is only in how the terms are written and the
obligation stays undecided."""
import math
import random
from fractions import Fraction
from . import terms as tm
from .terms import Term

TINY = 1e-9
STRUCT = ('vec', 'list', 'tuple', 'dict', 'kv')
MATH = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp, 'arctan': math.atan}


class Skip(Exception):
    """outside the domain, or too close to a border to tell"""


class No(Exception):
    """not a value this module can compute"""


def exact(x):
    return isinstance(x, (Fraction, int))


def constants(ts):
    out = set()
    for t in ts:
        for x in tm.subterms(t):
            if x.op == 'poly':
                for m, c in x.args:
                    out.add(abs(Fraction(c)))
    return sorted(c for c in out if c)


class Point(object):
    def __init__(self, rnd, pool):
        self.rnd, self.pool, self.leaf, self.memo = rnd, pool, {}, {}

    def draw(self, positive):
        v = self.rnd.choice(self.pool)
        return v if positive or self.rnd.random() < 0.5 else -v

    def atom(self, t):
        if t not in self.leaf:
            self.leaf[t] = self.draw(t.op == 'pos')
        return self.leaf[t]

    def cond(self, v):
        if v.op in ('lt0', 'eq0'):
            x = self.num(v.args[0])
            if not exact(x) and abs(x) < TINY:
                raise Skip()
            return x < 0 if v.op == 'lt0' else x == 0
        if v not in self.leaf:
            self.leaf[v] = self.rnd.random() < 0.5
        return self.leaf[v]

    def num(self, t):
        x = self.ev(t)
        if isinstance(x, bool):
            return Fraction(int(x))
        if not isinstance(x, (Fraction, int, float)):
            raise No()
        return x

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.ev_(t)
        return r

    def ev_(self, t):
        op = t.op
        if t is tm.TRUE or t is tm.FALSE:
            return t is tm.TRUE
        if op == 'ext' and t.args == ('pi',):
            return math.pi
        if op == 'ite':
            return self.ev(t.args[1] if self.cond(t.args[0]) else t.args[2])
        if op == 'poly':
            s = Fraction(0)
            for m, c in t.args:
                p = Fraction(c)
                for a, e in m:
                    x = self.num(a)
                    if x == 0 and e < 0:
                        raise Skip()
                    if not exact(x) and abs(x) < TINY and e < 0:
                        raise Skip()
                    if exact(x) and exact(p):
                        p = p * Fraction(x) ** int(e) if e == int(e) else float(p) * float(x) ** float(e)
                    else:
                        p = float(p) * float(x) ** float(e)
                s = s + p if exact(s) and exact(p) else float(s) + float(p)
            return s
        if op in STRUCT:
            return (op,) + tuple(self.ev(x) if isinstance(x, Term) else x for x in t.args)
        if op in ('sqrt', 'norm') and len(t.args) == 1 and op == 'sqrt':
            x = self.num(t.args[0])
            if x < 0:
                if x < -TINY:
                    raise Skip()
                x = 0
            if exact(x):
                x = Fraction(x)
                n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
                if n*n == x.numerator and d*d == x.denominator:
                    return Fraction(n, d)
            return math.sqrt(x)
        if op in MATH and len(t.args) == 1:
            return MATH[op](float(self.num(t.args[0])))
        if op == 'arctan2' and len(t.args) == 2:
            return math.atan2(float(self.num(t.args[0])), float(self.num(t.args[1])))
        if op == 'abs' and len(t.args) == 1:
            return abs(self.num(t.args[0]))
        if op in ('min', 'max') and len(t.args) > 1:
            return (min if op == 'min' else max)(self.num(x) for x in t.args)
        if op in ('floor', 'ceil') and len(t.args) == 1:
            x = self.num(t.args[0])
            if not exact(x) and abs(x - round(x)) < 1e-6:
                raise Skip()
            return Fraction(math.floor(x) if op == 'floor' else math.ceil(x))
        if op in ('sym', 'pos', 'attr', 'getitem', 'str', 'none', 'mcall', 'fcall', 'call', 'new', 'D', 'bool', 'len') or op.startswith('mcall'):
            if op == 'str' or op == 'none':
                return ('const', t.dig)
            if op == 'sym' and len(t.args) > 2:
                return ('obj', t.dig)
            return self.atom(t)
        raise No()


def equalv(x, y):
    if isinstance(x, bool) or isinstance(y, bool):
        if isinstance(x, tuple) or isinstance(y, tuple):
            return False
        return x == y
    if isinstance(x, tuple) or isinstance(y, tuple):
        if not (isinstance(x, tuple) and isinstance(y, tuple)):
            return False
        return len(x) == len(y) and all(equalv(a, b) for a, b in zip(x[1:], y[1:])) and (x[0] in STRUCT) == (y[0] in STRUCT)
    if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
        return x == y
    if exact(x) and exact(y):
        return x == y
    d = abs(float(x) - float(y))
    return d <= 1e-7 * max(1., abs(float(x)), abs(float(y)))


def compare(a, b, tries=400, seed=1):
    """'differ', 'agree', or None when the terms cannot be evaluated"""
    rnd = random.Random(seed)
    consts = constants([a, b])[:12]
    base = [Fraction(x) for x in (1, 2, 3, 5)] + [Fraction(1, 2), Fraction(1, 3), Fraction(7, 5), Fraction(0)]
    pool = base + [c for c in consts if c < 1000]
    conds = sorted(set(x.args[0] for t in (a, b) for x in tm.subterms(t) if x.op == 'ite'), key=lambda z: z.dig)
    conds = [c for c in conds if c.op in ('lt0', 'eq0')]
    good = 0
    for k in range(tries):
        p = Point(rnd, [x for x in pool if x] if k % 3 else pool)
        try:
            try:
                x, y = p.ev(a), p.ev(b)
            except Skip:
                x = None
            # move to the border of one case distinction
            if conds and k % 2:
                c = rnd.choice(conds).args[0]
                lin = [(m[0][0], co) for m, co in tm._pd(c).items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('sym', 'pos', 'attr', 'getitem')]
                if lin:
                    v, co = rnd.choice(lin)
                    p.atom(v)
                    cur = p.num(c)
                    eps = rnd.choice([Fraction(0), Fraction(1, 10**7), Fraction(1, 100), Fraction(1)] + consts)
                    d = eps * rnd.choice([Fraction(1), Fraction(-1), Fraction(1, 2), Fraction(-1, 2)])
                    val = p.leaf[v] + ((d - cur) / Fraction(co) if exact(cur) else (float(d) - cur) / float(co))
                    if not (v.op == 'pos' and val <= 0):
                        p.leaf[v] = val
                        p.memo = {}
                        x, y = p.ev(a), p.ev(b)
            if x is None:
                continue
            good += 1
            if not equalv(x, y):
                return 'differ'
        except Skip:
            continue
        except (No, OverflowError, ValueError, ZeroDivisionError, TypeError, RecursionError):
            return None
    return 'agree' if good >= 40 else None
