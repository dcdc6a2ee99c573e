"""Linear-inequality domain over polynomial normal forms: used to recognise that two differently nested
case distinctions describe the same value (an impossible case, or a case in which both values coincide)."""
from fractions import Fraction
from .terms import *
from . import terms as tm

LIMIT = 64


def vec(p):
    """polynomial as {monomial: coefficient}"""
    return {m: Fraction(c) for m, c in tm._pd(p).items()}


def expand(t, memo=None):
    """min/max/abs written as case distinctions"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    subs = {}
    for x in tm.subterms(t):
        if x.op in ('min', 'max') and len(x.args) > 1 and not any(tm.is_num(z) and False for z in x.args):
            subs[x] = None
        elif x.op == 'abs' and len(x.args) == 1:
            subs[x] = None
    if not subs:
        memo[t] = t
        return t
    # innermost first
    for x in sorted(subs, key=lambda z: sum(1 for _ in tm.subterms(z))):
        args = [tm.substitute(z, {k: v for k, v in subs.items() if v is not None}) for z in x.args]
        if x.op == 'abs':
            subs[x] = tm.lift(lambda z: ite(lt0(z), neg(z), z), args[0])
            continue
        r = args[0]
        for z in args[1:]:
            r = ite(lt0(sub(z, r)), z, r) if x.op == 'min' else ite(lt0(sub(r, z)), z, r)
        subs[x] = r
    memo[t] = tm.substitute(t, subs)
    return memo[t]


def infeasible(cons):
    """cons: list of (poly vector, strict) meaning  p < 0 / p <= 0; True if certainly contradictory (Fourier-Motzkin)"""
    cs = [(dict(p), s) for p, s in cons]
    for _ in range(12):
        live = []
        for p, s in cs:
            p = {m: c for m, c in p.items() if c != 0}
            if not [m for m in p if m != ()]:
                c = p.get((), 0)
                if c > 0 or (s and c >= 0):
                    return True
                continue
            live.append((p, s))
        uniq = {}
        for p, s in live:
            k = tuple(sorted(((repr(m), c) for m, c in p.items())))
            uniq[k] = (p, s or uniq.get(k, (None, False))[1])
        cs = list(uniq.values())
        if not cs:
            return False
        occ = {}
        for p, s in cs:
            for m, c in p.items():
                if m != ():
                    a, b = occ.get(m, (0, 0))
                    occ[m] = (a + (c > 0), b + (c < 0))
        m = min(occ, key=lambda q: occ[q][0]*occ[q][1] - occ[q][0] - occ[q][1])
        pos = [(p, s) for p, s in cs if p.get(m, 0) > 0]
        ng = [(p, s) for p, s in cs if p.get(m, 0) < 0]
        cs = [(p, s) for p, s in cs if p.get(m, 0) == 0]
        for p, s in pos:
            for q, r in ng:
                n = {}
                for k, c in p.items():
                    n[k] = n.get(k, 0) + c/p[m]
                for k, c in q.items():
                    n[k] = n.get(k, 0) - c/q[m]
                cs.append((n, s or r))
        if len(cs) > 200:
            return False
    return False


def scaled(p, f):
    return {m: c*f for m, c in p.items()}


def constraints(path):
    out = []
    for v, b in path:
        if v.op == 'lt0':
            p = vec(v.args[0])
            out.append((p, True) if b else (scaled(p, -1), False))
        elif v.op == 'eq0' and b:
            p = vec(v.args[0])
            out += [(p, False), (scaled(p, -1), False)]
    ineq = [(v.args[0]) for v, b in path if v.op == 'eq0' and not b]
    return out, ineq


def impossible(path):
    cons, ineq = constraints(path)
    if infeasible(cons):
        return True
    for p in ineq:                          # p != 0 although the others force p = 0
        q = vec(p)
        if infeasible(cons + [(q, True)]) and infeasible(cons + [(scaled(q, -1), True)]):
            return True
    return False


def paths(t, pre=()):
    if t.op != 'ite':
        yield pre, t
        return
    for p in paths(t.args[1], pre + ((t.args[0], True),)):
        yield p
    for p in paths(t.args[2], pre + ((t.args[0], False),)):
        yield p


def never(cond):
    """the condition holds in no case"""
    if cond is FALSE:
        return True
    if cond.op != 'ite':
        return False
    cond = expand(cond)
    n = 0
    for path, leaf in paths(cond):
        if leaf is FALSE:
            continue
        n += 1
        if n > LIMIT or not impossible(path):
            return False
    return True


def equivalent(a, b, same):
    """are two case distinctions the same value in every possible case?"""
    try:
        a, b = expand(a), expand(b)
        if a is b:
            return True
        if a.op != 'ite' and b.op != 'ite':
            return same(a, b)
        r = lift(lambda x, y: TRUE if same(x, y) else T('differ', x, y), a, b)
        n = 0
        for path, leaf in paths(r):
            if leaf is TRUE:
                continue
            n += 1
            if n > LIMIT or leaf.op != 'differ':
                return False
            if impossible(path):
                continue
            x, y = leaf.args
            if not all(z.op in ('poly', 'sym', 'attr', 'getitem', 'mcall', 'fcall') for z in (x, y)):
                return False
            d = vec(sub(x, y))
            cons, _ = constraints(path)
            if not (infeasible(cons + [(d, True)]) and infeasible(cons + [(scaled(d, -1), True)])):
                return False
        return True
    except (tm.TooBig, RecursionError, KeyError, ValueError, TypeError, AttributeError):
        return False
