"""Comparison of what a function does (events, returned value, final fields) with a specification
function evaluated by the same abstract interpreter."""
from .core import *
from .core import REPO, VERIF
from .interp import sum_
from . import terms as tm
from . import linear


def tstr(s):
    return mkstr(s)


def attr(t, name):
    return T('attr', t, name)


def getitem(t, i):
    return lift(lambda x: T('getitem', x, i), t)


def m_spline_variable(I, t, bound):
    """`size0` splines are returned as a list"""
    n = numval(bound.get('size0', NONE))
    if n is not None and 0 < n <= 12:
        return T('list', *[T('getitem', t, num(k)) for k in range(int(n))])
    return t


def m_vector(I, t, bound):
    """a declared column vector has its components"""
    n = numval(bound.get('size0', NONE))
    if n is not None and 1 < n <= 12 and bound.get('size1') is ONE:
        return T('vec', *[T('getitem', t, num(k)) for k in range(int(n))])
    return t


class Run(object):
    """one analysed call: events, returned (frozen) value, final state"""

    def __init__(self, I, ret):
        self.I, self.events, self.ret, self.st = I, I.events, ret, I.st

    def field(self, obj, name):
        v = self.st.get(('f', obj, name))
        if v is None:
            return T('attr', obj, name)
        return self.I.freeze(v)


def run_method(ctx, cls, method, args, kwargs=None, setup=None, self_term=None, **kw):
    I = ctx.interp(**kw)
    c = ctx.prog.cls(cls) if isinstance(cls, str) else cls
    s = self_term or I.sym('self', c)
    I.types[s] = c
    if setup:
        setup(I, s)
    args = args(I) if callable(args) else args
    try:
        r = I.call_method(c, method, args, kwargs, self_term=s)
        r = I.freeze(r)
    except AlwaysRaises:
        r = T('raises')
    ctx.functions |= set(q for q in I.visited if not q.startswith('spec.'))
    return Run(I, r)


def run_spec(ctx, specfunc, cls, args, kwargs=None, setup=None, self_term=None, **kw):
    I = ctx.interp(**kw)
    args = args(I) if callable(args) else args
    if cls is not None:
        c = ctx.prog.cls(cls) if isinstance(cls, str) else cls
        s = self_term or I.sym('self', c)
        I.types[s] = c
        if setup:
            setup(I, s)
        args = [s] + list(args)
    elif setup:
        setup(I, None)
    mod, fn = specfunc.rsplit('.', 1)
    try:
        r = I.freeze(I.call_function('spec.' + mod, fn, args, kwargs))
    except AlwaysRaises:
        r = T('raises')
    return Run(I, r)


def run_func(ctx, mod, name, args, kwargs=None, setup=None, **kw):
    I = ctx.interp(**kw)
    if setup:
        setup(I, None)
    args = args(I) if callable(args) else args
    try:
        r = I.freeze(I.call_function(mod, name, args, kwargs))
    except AlwaysRaises:
        r = T('raises')
    ctx.functions |= set(q for q in I.visited if not q.startswith('spec.'))
    return Run(I, r)


# --------------------------------------------------------- constraint entailment

def leaves(t):
    """(condition, leaf) pairs of a diagram"""
    if t.op != 'ite':
        return [(TRUE, t)]
    c = condatom(t.args[0])
    return [(band(c, g), x) for g, x in leaves(t.args[1])] + [(band(bnot(c), g), x) for g, x in leaves(t.args[2])]


def ineqs(ev, names=('expr', 'lb', 'ub')):
    """normalised obligations  poly <= 0  (kind 'le') of one constraint event"""
    e, lb, ub = [ev.kw[n] for n in names]
    out = []

    def flat(x, n=None):
        if x.op in ('vec', 'list', 'tuple'):
            r = []
            for y in x.args:
                r += flat(y)
            return r
        return [x]

    def emit(p, what):
        for g, leaf in leaves(p):
            for q in flat(leaf):
                for g2, q2 in leaves(q):
                    cond = band(ev.pc, band(g, g2))
                    if cond is FALSE:
                        continue
                    if q2 is neg(INF) or (q2.op == 'poly' and any(a is INF for m, c in q2.args for a, e_ in m)):
                        # bound at infinity: no restriction (sign checked by the coefficient of inf)
                        cf = [c for m, c in tm._pd(q2).items() if any(a is INF for a, e_ in m)]
                        if all(c < 0 for c in cf):
                            continue
                    out.append((cond, tuple(ev.loops), what, canon_le(q2), ev))
    emit(lift(lambda a, b: tm.lift(lambda x, y: tm._vec2(lambda p, q: tm._padd(p, q, -1), x, y), a, b), e, ub), 'le')
    emit(lift(lambda a, b: tm.lift(lambda x, y: tm._vec2(lambda p, q: tm._padd(p, q, -1), x, y), a, b), lb, e), 'le')
    return out


def canon_le(p):
    """p <= 0 up to a positive numeric factor"""
    v = numval(p)
    if v is not None:
        return num(0 if v <= 0 else 1)
    return tm._scale(p, True)


def constraint_set(run, name='.define_constraint'):
    out = []
    for e in run.events:
        if e.name == name:
            out += ineqs(e)
    return out


def require_constraints(ctx, key, actual, spec, what, where, name='.define_constraint', exact=False, known=()):
    """every inequality of the specification must be among those the code imposes, under at least
    the specified condition and for the same range of elements"""
    A = constraint_set(actual, name)
    S = constraint_set(spec, name)
    if not S:
        raise AnalysisBroken('%s: specification produced no constraint' % key)
    undec = []
    for (pc, loops, k, p, ev) in A:
        bad = decided(p, [s[3] for s in S])
        bad += [b for l in loops for b in decided(l, [x for s in S for x in s[1]])]
        bad += decided(pc, [s[0] for s in S])
        undec += [b for b in bad if b not in known]
    n = 0
    seen = set()
    for (pc, loops, k, p, ev) in S:
        if p is ZERO:
            continue
        ident = (pc, loops, p)
        if ident in seen:
            continue
        seen.add(ident)
        n += 1
        ob = '%s/%s' % (key, hashlib.blake2b((p.dig + pc.dig + ''.join(l.dig for l in loops)).encode(), digest_size=4).hexdigest())
        got = FALSE
        cands = []
        for (apc, al, ak, ap, aev) in A:
            if ap is p or same(ap, p):
                if al == loops:
                    got = bor(got, apc)
                else:
                    cands.append(aev)
        missing = band(pc, bnot(got))
        if missing is not FALSE and linear.never(missing):
            missing = FALSE
        desc = '%s: %s <= 0%s%s' % (what, short(p, 160), (' for all ' + ', '.join(short(l.args[0], 80) for l in loops)) if loops else '',
                                    (' when ' + short(pc, 120)) if pc is not TRUE else '')
        if missing is FALSE:
            ctx.ok(ob, desc, where)
        elif undec:
            ctx.unknown(ob, '%s -- not found, but some imposed constraints are not resolved (%s)' % (desc, ', '.join(sorted(set(undec)))[:200]), where)
        else:
            near = [x for x in A if x[1] == loops]
            hint = ''
            if got is not FALSE:
                hint = ' (imposed only when %s)' % short(got, 150)
            elif cands:
                hint = ' (imposed, but for a different range of elements at %s)' % cands[0].where
            ctx.bad(ob, 'specified constraint not imposed: %s%s; imposed: %s' % (
                desc, hint, ' | '.join(short(x[3], 90) for x in near[:8])), where,
                ''.join(sorted(x[3].dig[:6] + x[0].dig[:6] for x in A)))
    return n


# --------------------------------------------------------- generic comparisons

def evkey(e, args=None):
    kw = tuple(sorted((k, v) for k, v in e.kw.items() if args is None or k in args))
    return (e.name, e.recv, tuple(e.args), kw, e.pc, tuple(e.loops))


def same_event(a, b, kws=None):
    if a.name != b.name or len(a.args) != len(b.args) or len(a.loops) != len(b.loops):
        return False
    if (a.recv is None) != (b.recv is None):
        return False
    if a.recv is not None and not same(a.recv, b.recv):
        return False
    if not all(same(x, y) for x, y in zip(a.args, b.args)):
        return False
    ka = {k: v for k, v in a.kw.items() if kws is None or k in kws}
    kb = {k: v for k, v in b.kw.items() if kws is None or k in kws}
    if set(ka) != set(kb) or not all(same(ka[k], kb[k]) for k in ka):
        return False
    return all(x is y for x, y in zip(a.loops, b.loops))


def by_case(events, limit=64):
    """one event per case for calls whose arguments depend on a condition"""
    out, todo = [], list(events)
    while todo and len(out) + len(todo) < limit + len(events):
        e = todo.pop(0)
        vals = ([e.recv] if e.recv is not None else []) + list(e.args) + [e.kw[k] for k in sorted(e.kw)]
        c = next((v.args[0] for v in vals if v.op == 'ite' and v.args[1] not in (TRUE, FALSE)), None)
        if c is None:
            out.append(e)
            continue
        both = []
        for side in (1, 2):
            def pick(v):
                return (v.args[side] if v.op == 'ite' and v.args[0] is c else v)
            pc = band(e.pc, condatom(c) if side == 1 else bnot(condatom(c)))
            if pc is not FALSE:
                n = type(e)(**{k: getattr(e, k) for k in e.__slots__})
                n.args = [pick(v) for v in e.args]
                n.kw = {k: pick(v) for k, v in e.kw.items()}
                n.recv = pick(e.recv) if e.recv is not None else None
                n.pc = pc
                both.append(n)
        todo = both + todo
    return out + todo


def require_events(ctx, key, actual, spec, names, what, where, kws=None, forbid_extra=True):
    """the calls named in `names` must be exactly those specified (order not compared)"""
    A = by_case([e for e in actual.events if e.name in names])
    S = by_case([e for e in spec.events if e.name in names])
    used = {}
    sterms = []
    for e in S:
        sterms += [x for x in list(e.args) + list(e.kw.values()) + [e.pc] + list(e.loops) + ([e.recv] if e.recv is not None else [])]
    und = []
    for e in A:
        for x in list(e.args) + [v for k, v in e.kw.items() if kws is None or k in kws] + [e.pc] + list(e.loops):
            und += decided(x, sterms)
    groups = []
    for s in S:
        for g in groups:
            if same_event(g[0], s, kws):
                g[1] = bor(g[1], s.pc)
                break
        else:
            groups.append([s, s.pc])
    for i, (s, pc) in enumerate(groups):
        got = FALSE
        for j, a in enumerate(A):
            if same_event(a, s, kws):
                got = bor(got, a.pc)
                used[j] = True
        ob = '%s/ev%s' % (key, _evid(s, kws))
        if got is pc or linear.never(band(pc, bnot(got))) and linear.never(band(got, bnot(pc))):
            ctx.ok(ob, '%s: %s' % (what, short_ev(s)), where)
        elif und:
            ctx.unknown(ob, '%s: %s not matched, unresolved: %s' % (what, short_ev(s), ', '.join(sorted(set(und)))[:150]), where)
        else:
            cand = [a for a in A if a.name == s.name]
            ctx.bad(ob, '%s: specified `%s`%s; found: %s' % (what, short_ev(s), '' if got is FALSE else ' only when ' + short(got, 200),
                                                         ' | '.join(short_ev(a) for a in cand[:4]) or 'none'), where,
                    ''.join(x.dig[:6] for a in cand for x in list(a.args) + list(a.kw.values()) + [a.pc]))
    if forbid_extra:
        for j, a in enumerate(A):
            if j not in used:
                ob = '%s/extra-%s' % (key, a.name)
                if und:
                    ctx.unknown(ob, '%s: additional %s unresolved' % (what, short_ev(a)), a.where)
                else:
                    ctx.bad(ob, '%s: unspecified `%s`' % (what, short_ev(a)), a.where, _evid(a, kws))


def _evid(e, kws=None):
    s = e.name + (e.recv.dig if e.recv is not None else '') + ''.join(x.dig for x in e.args) + ''.join(
        k + v.dig for k, v in sorted(e.kw.items()) if kws is None or k in kws) + ''.join(l.dig for l in e.loops)
    return hashlib.blake2b(s.encode(), digest_size=4).hexdigest()


def short_ev(e):
    a = ', '.join([short(x, 140) for x in e.args] + ['%s=%s' % (k, short(v, 140)) for k, v in sorted(e.kw.items()) if not (v is NONE)])
    s = '%s(%s)' % (e.name, a)
    if e.recv is not None:
        s = '%s%s' % (short(e.recv, 80), s)
    if e.loops:
        s += ' for all ' + ', '.join(short(l.args[0], 80) for l in e.loops)
    if e.pc is not TRUE:
        s += ' when ' + short(e.pc, 160)
    return s


def require_dict(ctx, key, actual, spec, what, where, only=None):
    """every entry of the specified dict must be present with the specified value"""
    if spec.op != 'dict':
        raise AnalysisBroken('%s: specification does not return a dict' % key)
    if actual.op != 'dict':
        und = decided(actual, [spec])
        (ctx.unknown if und or True else ctx.bad)(key, '%s: not a resolved dict: %s' % (what, short(actual)), where)
        return
    da = {x.args[0]: x.args[1] for x in actual.args[1:] if x.op == 'kv'}
    complete = actual.args[0] is NONE and all(x.op == 'kv' for x in actual.args[1:])
    for x in spec.args[1:]:
        if x.op != 'kv':
            continue
        k, v = x.args
        ob = '%s[%s]' % (key, short(k, 60))
        if k in da:
            ctx.equal(ob, da[k], v, '%s entry %s' % (what, short(k, 60)), where)
        elif complete:
            ctx.bad(ob, '%s: entry %s is not set' % (what, short(k, 60)), where, 'missing')
        else:
            ctx.unknown(ob, '%s: entry %s not resolved' % (what, short(k, 60)), where)


def compare_method(ctx, key, cls, method, spec, args, kwargs=None, observe=('ret',), fields=(), events=(), what='', kws=None,
                   constraints=False, spec_cls=None, setup=None, exact_events=True, item_fields=(), **kw):
    """analyse cls.method and the specification function on the same symbolic arguments and compare"""
    where = ctx.loc(cls, method)

    def go():
        a = run_method(ctx, cls, method, args, kwargs, setup, **kw)
        s = run_spec(ctx, spec, cls, args, kwargs, setup, **kw)
        compare_runs(ctx, key, a, s, observe, fields, events, what or method, where, kws, constraints, exact_events)
        return a, s
    return ctx.guard(key, go)


def compare_function(ctx, key, mod, name, spec, args, kwargs=None, observe=('ret',), events=(), what='', kws=None, exact_events=True, **kw):
    m, node = ctx.prog.func(mod, name)
    where = '%s:%d %s' % (os.path.relpath(m.path, REPO), node.lineno, name)

    def go():
        a = run_func(ctx, mod, name, args, kwargs, **kw)
        s = run_spec(ctx, spec, None, args, kwargs, **kw)
        compare_runs(ctx, key, a, s, observe, (), events, what or name, where, kws, False, exact_events)
        return a, s
    return ctx.guard(key, go)


def compare_runs(ctx, key, a, s, observe, fields, events, what, where, kws, constraints, exact_events):
    if 'ret' in observe:
        if s.ret.op == 'dict' and a.ret.op == 'dict':
            require_dict(ctx, key + ':ret', a.ret, s.ret, what + ' result', where)
        else:
            ctx.equal(key + ':ret', a.ret, s.ret, what + ' result', where)
    for f in fields:
        obj = f[0] if isinstance(f, tuple) else T('sym', 'self', 'notnone')
        name = f[1] if isinstance(f, tuple) else f
        x, y = a.field(obj, name), s.field(obj, name)
        if y.op == 'dict' and x.op == 'dict':
            require_dict(ctx, '%s:%s' % (key, name), x, y, '%s sets %s' % (what, name), where)
        else:
            ctx.equal('%s:%s' % (key, name), x, y, '%s leaves %s' % (what, name), where)
    if constraints:
        require_constraints(ctx, key, a, s, what, where)
    if events:
        require_events(ctx, key, a, s, events, what, where, kws, exact_events)


def _atoms(t):
    """leaf quantities a value is made of"""
    return set(x for x in tm.subterms(t) if x.op in ('sym', 'pos', 'attr', 'fcall', 'mcall', 'D') and x is not t)


def require_inside(ctx, key, actual, expected, what, where):
    """the expected value must occur as a sub-value; a differing value built from the same quantities
    by the same operation is the violation"""
    subs = list(tm.subterms(actual))
    for x in subs:
        if x is expected or (x.op == expected.op and same(x, expected)):
            ctx.ok(key, what, where)
            return True
    at = _atoms(expected)
    cand = [x for x in subs if x.op == expected.op and _atoms(x) == at and not decided(x, [expected])]
    if cand:
        ctx.bad(key, '%s: is `%s`, specified `%s`' % (what, short(cand[0], 300), short(expected, 300)), where, cand[0].dig)
        return False
    ctx.unknown(key, '%s: `%s` not found' % (what, short(expected, 200)), where)
    return None
