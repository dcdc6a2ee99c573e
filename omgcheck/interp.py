"""Forward abstract interpreter over the term domain (terms.py).

One pass over the statements of a function (each statement is abstracted once
per calling context and loop iteration class).  Branches are joined with gated
values (decision diagrams over the branch conditions), helper calls of the
repository are inlined, loops over containers of known shape are unrolled,
loops over unknown containers are summarised by one generic iteration
(accumulations become comprehension / sum terms, early exits become `any`).
Whatever cannot be summarised becomes an opaque term (ops in OPAQUE) on which
no rule ever bases a violation.  Observable actions (calls of functions the
policy names, stores) are recorded as events with their path condition and
enclosing loops.

Nothing of /repo is imported or executed, no path is handed to a solver."""
import ast
from fractions import Fraction
from .terms import *
from .terms import _pd
from . import terms as tm
from .program import ClassInfo, AnalysisBroken

OPAQUE = set(['opaque', 'phi', 'fold', 'toobig', 'bigmul', 'wfold', 'unknown', 'nan', 'undef', 'bot'])


class Event(object):
    __slots__ = ('name', 'recv', 'args', 'kw', 'pc', 'loops', 'where', 'node', 'seq', 'ret')

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))

    def __repr__(self):
        a = ', '.join([show(x) for x in self.args] + ['%s=%s' % (k, show(v)) for k, v in sorted(self.kw.items())])
        s = '%s(%s)' % (self.name, a)
        if self.recv is not None:
            s = '%s . %s' % (show(self.recv), s)
        if self.loops:
            s += ' forall ' + ', '.join(show(l) for l in self.loops)
        if self.pc is not TRUE:
            s += ' when ' + show(self.pc)
        return s


class Frame(object):
    __slots__ = ('env', 'module', 'cls', 'fn', 'parent', 'qual', 'globals_', 'locals_')

    def __init__(self, env, module, cls, fn, parent, qual):
        self.env, self.module, self.cls, self.fn, self.parent, self.qual = env, module, cls, fn, parent, qual
        self.globals_ = set()
        self.locals_ = set()


class Out(object):
    __slots__ = ('rel', 'kind', 'st', 'val', 'pc')

    def __init__(self, rel, kind, st, val, pc):
        self.rel, self.kind, self.st, self.val, self.pc = rel, kind, st, val, pc


class AlwaysRaises(Exception):
    def __init__(self, name):
        self.name = name


class Budget(Exception):
    pass


PI = T('ext', 'pi')


def exact_angle(base, x):
    """sine and cosine of multiples of 15 degrees that have a simple root form"""
    if base not in ('sin', 'cos') or x.op not in ('poly', 'ext'):
        return None
    d = list(tm._pd(x).items())
    if len(d) != 1 or d[0][0] != ((PI, 1),):
        return None
    k = d[0][1] * 12
    if k.denominator != 1:
        return None
    k = int(k) + (6 if base == 'cos' else 0)
    k %= 24
    sgn = 1 if k < 12 else -1
    k %= 12
    k = min(k, 12 - k)
    v = {0: ZERO, 2: num('1/2'), 3: div(tm.sqrt_(num(2)), num(2)), 4: div(tm.sqrt_(num(3)), num(2)), 6: ONE}.get(k)
    if v is None:
        return None
    return v if sgn > 0 else neg(v)


MATH1 = {'sin', 'cos', 'tan', 'arctan', 'floor', 'ceil', 'exp', 'log', 'fabs', 'arcsin', 'arccos'}
ALIASES = {'atan2': 'arctan2', 'atan': 'arctan', 'asin': 'arcsin', 'acos': 'arccos', 'fabs': 'abs', 'absolute': 'abs',
           'around': 'round', 'round_': 'round'}
EXT_ROOTS = ('numpy', 'casadi', 'math', 'scipy')


def mergekeys(a, b):
    ks = list(a)
    for k in b:
        if k not in a:
            ks.append(k)
    return ks


def const_key(x):
    """a key that differs from every other such key"""
    return x.op == 'str' or tm.isobj(x) or tm.is_num(x) or x.op == 'tuple' and all(const_key(y) for y in x.args)


def _sampled(I, t, bound):
    """the samples of a list of splines are the list of their samples"""
    sp, tm = bound.get('spline'), bound.get('time')
    if sp is None or tm is None:
        return t
    items = I.concrete_items(sp)
    if items is None:
        return t
    return I.new_list([T('fcall', 'sample_splines', x, tm) for x in items])


class Interp(object):
    """policy(qualname) -> 'inline' | 'event' | 'pure' (default: inline repo code, pure for the rest)"""

    def __init__(self, prog, policy=None, models=None, attr_types=None, max_depth=14, budget=400000):
        self.prog = prog
        self.policy = policy or (lambda q: 'inline')
        self.models = models or {}
        self.attr_types = attr_types or {}
        self.extra = {}
        self.quiet_try = False     # the analysed values raise nothing: handlers are not taken
        self.types = {}            # Term -> ClassInfo
        self.funcs = {}            # func term -> (node, frame, module, cls)
        self.events = []
        self.recording = True
        self.pc = TRUE
        self.loops = []
        self.st = {}
        self.nref = 0
        self.nenv = 0
        self.stack = []
        self.max_depth = max_depth
        self.steps = 0
        self.budget = budget
        self.cur = None
        self.modcache = {}
        self.notes = set()
        self.ret_models = {'sample_splines': _sampled}       # name -> f(interp, result term, bound arguments): shape of an uninterpreted result
        self.visited = set()       # qualified names of analysed functions

    # ------------------------------------------------------------ utilities
    def sym(self, name, cls=None, notnone=True):
        t = T('sym', name, 'notnone') if notnone else T('sym', name)
        if cls is not None:
            self.types[t] = self.prog.cls(cls) if isinstance(cls, str) else cls
        return t

    def where(self):
        f = self.stack[-1] if self.stack else None
        line = getattr(self.cur, 'lineno', 0)
        if f is None:
            return '?'
        return '%s:%d (%s)' % (f.module.path, line, f.qual)

    def event(self, name, recv=None, args=(), kw=None, ret=None):
        if not self.recording:
            return
        if self.pc is FALSE:
            return
        self.events.append(Event(name=name, recv=recv, args=[self.freeze(a) for a in args],
                                 kw={k: self.freeze(v) for k, v in (kw or {}).items()}, pc=self.pc,
                                 loops=[l for l in self.loops], where=self.where(), node=self.cur, seq=len(self.events), ret=ret))

    def alloc(self, container):
        self.nref += 1
        r = T('ref', self.nref)
        self.st[('h', r)] = container
        return r

    def new_list(self, vals=()):
        return self.alloc(T('Lst', *[T('one', v) for v in vals]))

    def new_dict(self, pairs=()):
        args = []
        for k, v in pairs:
            args.append(T('kv', k, v))
        return self.alloc(T('Dct', NONE, *args))

    def hget(self, t):
        return self.st.get(('h', t))

    # freeze: mutable containers -> immutable structural terms
    def freeze(self, t, depth=0):
        if depth > 8:
            return t
        if not isinstance(t, Term):
            return t
        key = ('h', t)
        if key in self.st:
            return self._freeze_container(self.st[key], depth)
        if t.op == 'ite':
            return self._lift_freeze(t, depth)
        if t.op in ('tuple', 'list', 'vec'):
            return T(t.op, *[self.freeze(a, depth + 1) for a in t.args])
        if t.op == 'bound':
            return T('bound', self.freeze(t.args[0], depth + 1), t.args[1])
        if t.op in ('str', 'none', 'bool', 'sym', 'pos', 'ext', 'class', 'func', 'idx', 'module'):
            return t
        if not self._has_ref(t):
            return t
        memo = {}
        m = {}
        for x in tm.subterms(t):
            if ('h', x) in self.st and x is not t:
                m[x] = self.freeze(x, depth + 1)
        return tm.substitute(t, m) if m else t

    def _has_ref(self, t):
        r = _refmemo.get(t)
        if r is None:
            r = any(x.op == 'ref' for x in tm.subterms(t))
            _refmemo[t] = r
        if r:
            return True
        return False

    def _lift_freeze(self, t, depth):
        return ite(condatom(self._freeze_cond(t.args[0], depth)), self.freeze(t.args[1], depth), self.freeze(t.args[2], depth))

    def _freeze_cond(self, c, depth):
        return c

    def _freeze_container(self, c, depth):
        if c.op == 'ite':
            return ite(condatom(c.args[0]), self._freeze_container(c.args[1], depth), self._freeze_container(c.args[2], depth))
        if c.op == 'Lst':
            if all(i.op == 'one' for i in c.args):
                return T('list', *[self.freeze(i.args[0], depth + 1) for i in c.args])
            if len(c.args) == 1 and c.args[0].op == 'splat':
                return c.args[0].args[0]
            items = []
            for i in c.args:
                items.append(self._freeze_item(i, depth + 1))
            return T('clist', *items)
        if c.op == 'Dct':
            kv = sorted([T('kv', self.freeze(i.args[0], depth + 1), self.freeze(i.args[1], depth + 1)) for i in c.args[1:] if i.op == 'kv'])
            rest = [self._freeze_item(i, depth + 1) for i in c.args[1:] if i.op != 'kv']
            return T('dict', c.args[0], *(kv + rest))
        return c

    def _freeze_item(self, i, depth):
        if i.op == 'one':
            return T('one', self.freeze(i.args[0], depth + 1))
        if i.op == 'splat':
            return i
        if i.op in ('opt', 'comp'):
            return T(i.op, i.args[0], *[self._freeze_item(x, depth + 1) for x in i.args[1:]])
        if i.op == 'dcomp':
            return T('dcomp', i.args[0], i.args[1], self.freeze(i.args[2], depth + 1), self.freeze(i.args[3], depth + 1))
        return i

    # ------------------------------------------------------------ entry points
    def call_method(self, cls, name, args=(), kwargs=None, self_term=None):
        c = self.prog.cls(cls) if isinstance(cls, str) else cls
        f = c.find(name)
        if f is None:
            raise AnalysisBroken('method %s.%s not found' % (c.name, name))
        if self_term is None:
            self_term = self.sym('self', c)
        fn = self.mkfunc(f[1], None, f[0].module, f[0])
        return self.call_func(fn, [self_term] + list(args), dict(kwargs or {}), force=True)

    def call_function(self, modname, name, args=(), kwargs=None):
        m, node = self.prog.func(modname, name)
        return self.call_func(self.mkfunc(node, None, m, None), list(args), dict(kwargs or {}), force=True)

    def mkfunc(self, node, frame, module, cls):
        if frame is None:
            t = T('func', module.name + '.' + (cls.name + '.' if cls else '') + getattr(node, 'name', '<lambda>'))
        else:
            t = T('func', '%s@%d:%d:%d' % (frame.qual, node.lineno, node.col_offset, frame.env))
        self.funcs[t] = (node, frame, module, cls)
        return t

    # ------------------------------------------------------------ variables
    def lookup(self, frame, name):
        f = frame
        while f is not None:
            if name not in f.globals_:
                v = self.st.get(('v', f.env, name))
                if v is not None:
                    if v is UNDEF:
                        return T('unknown', mkstr('unbound ' + name))
                    return v
                if name in f.locals_:
                    return T('unknown', mkstr('unbound ' + name))
            f = f.parent
        return self.global_name(frame.module, name)

    def global_name(self, module, name):
        r = self.prog.resolve(module, name)
        if isinstance(r, ClassInfo):
            return self.class_term(r)
        if isinstance(r, tuple):
            if r[0] == 'func':
                return self.mkfunc(r[2], None, r[1], None)
            if r[0] == 'module':
                return T('module', r[1].name)
            if r[0] == 'ext':
                return self.ext(r[1])
            if r[0] == 'assign':
                return self.module_const(r[1], name, r[2])
        return self.ext(name)

    def ext(self, dotted):
        parts = dotted.split('.')
        last = ALIASES.get(parts[-1], parts[-1])
        if parts[0] in EXT_ROOTS:
            if last in ('inf', 'infty', 'Inf'):
                return INF
            if last == 'newaxis':
                return NONE
            if last == 'linalg' or last == 'random':
                return T('ext', '.'.join(['numpy', last]))
            if len(parts) == 1:
                return T('ext', parts[0])
            return T('ext', last if 'random' not in parts else 'random.' + last)
        if len(parts) == 1:
            if parts[0] in ('inf',):
                return INF
            return T('ext', last)
        return T('ext', '.'.join(parts))

    def class_term(self, ci):
        t = T('class', ci.qual)
        self.types[t] = ci
        return t

    def class_of(self, t):
        return self.types.get(t) if t.op == 'class' else None

    def module_const(self, module, name, expr):
        k = (module.name, name)
        if k not in self.modcache:
            self.modcache[k] = T('sym', module.name + '.' + name, 'notnone')
            f = Frame(-1, module, None, None, None, module.name)
            rec, self.recording = self.recording, False
            try:
                if isinstance(expr, (ast.Constant, ast.Tuple, ast.List, ast.UnaryOp, ast.BinOp, ast.Name, ast.Attribute, ast.Dict)):
                    self.modcache[k] = self.freeze(self.eval(expr, f))
            finally:
                self.recording = rec
        return self.modcache[k]

    # ------------------------------------------------------------ statements
    def join_states(self, rels, sts):
        if len(sts) == 1:
            return sts[0]
        keys = sts[0]
        res = {}
        allkeys = list(keys)
        for s in sts[1:]:
            allkeys = mergekeys(allkeys if isinstance(allkeys, dict) else dict.fromkeys(allkeys), s)
        for k in allkeys:
            vals = []
            for s in sts:
                v = s.get(k)
                if v is None:
                    v = self.default(k)
                vals.append(v)
            first = vals[0]
            if all(v is first for v in vals):
                if first is not UNDEF:
                    res[k] = first
                continue
            cur = vals[-1]
            for r, v in reversed(list(zip(rels[:-1], vals[:-1]))):
                cur = self.join_val(k, r, v, cur)
            res[k] = cur
        return res

    def default(self, k):
        if k[0] == 'f':
            return T('attr', k[1], k[2])
        if k[0] == 'i':
            return T('getitem', k[1], k[2])
        if k[0] == 'h':
            if k[1].op == 'ref':
                return UNDEF
            return T('Lst', T('splat', k[1])) if True else UNDEF
        return UNDEF

    def join_val(self, k, c, a, b):
        if a is b:
            return a
        if k[0] == 'h':
            return self.join_container(c, a, b)
        return ite(c, a, b)

    def join_container(self, c, a, b):
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if a.op == 'Lst' and b.op == 'Lst':
            n = 0
            while n < len(a.args) and n < len(b.args) and a.args[n] is b.args[n]:
                n += 1
            pa, pb = a.args[n:], b.args[n:]
            if len(pa) == len(pb) and all(x.op == 'one' for x in pa + pb):
                return T('Lst', *(a.args[:n] + tuple(T('one', ite(c, x.args[0], y.args[0])) for x, y in zip(pa, pb))))
            items = list(a.args[:n])
            if pa:
                items.append(T('opt', c, *pa))
            if pb:
                items.append(T('opt', bnot(c), *pb))
            return T('Lst', *items)
        if a.op == 'Dct' and b.op == 'Dct' and a.args[0] is b.args[0]:
            da, db = self.dct(a), self.dct(b)
            oa = [i for i in a.args[1:] if i.op != 'kv']
            ob = [i for i in b.args[1:] if i.op != 'kv']
            items = []
            missing = T('missing') if a.args[0] is NONE else None
            for key in mergekeys(da, db):
                va = da.get(key) or missing or T('getitem', a.args[0], key)
                vb = db.get(key) or missing or T('getitem', a.args[0], key)
                items.append(T('kv', key, ite(c, va, vb)))
            n = 0
            while n < len(oa) and n < len(ob) and oa[n] is ob[n]:
                items.append(oa[n])
                n += 1
            for i in oa[n:]:
                items.append(T('opt', c, i))
            for i in ob[n:]:
                items.append(T('opt', bnot(c), i))
            return T('Dct', a.args[0], *items)
        return ite(c, a, b)

    def dct(self, d):
        return {i.args[0]: i.args[1] for i in d.args[1:] if i.op == 'kv'}

    def exec_block(self, stmts, frame):
        """executes from (self.st, self.pc); returns outcomes; `rel` is relative to the block entry"""
        rel = TRUE
        outs = []
        for s in stmts:
            self.steps += 1
            if self.steps > self.budget:
                raise Budget()
            self.cur = s
            try:
                os_ = self.exec_stmt(s, frame)
            except AlwaysRaises as e:
                outs.append(Out(rel, 'raise', self.st, mkstr(e.name), self.pc))
                return outs
            if os_ is None:
                continue
            norm = [o for o in os_ if o.kind == 'normal' and o.rel is not FALSE]
            for o in os_:
                if o.kind != 'normal' and o.rel is not FALSE:
                    outs.append(Out(band(rel, o.rel), o.kind, o.st, o.val, o.pc))
            if not norm:
                return outs
            self.st = self.join_states([o.rel for o in norm], [o.st for o in norm])
            pc = FALSE
            r = FALSE
            for o in norm:
                pc = bor(pc, o.pc)
                r = bor(r, o.rel)
            self.pc = pc
            rel = band(rel, r)
        outs.append(Out(rel, 'normal', self.st, NONE, self.pc))
        return outs

    def exec_stmt(self, s, frame):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            self.notes.add('statement %s not modelled' % type(s).__name__)
            return None
        return m(s, frame)

    def st_Expr(self, s, frame):
        if isinstance(s.value, ast.Constant):
            return None
        self.eval(s.value, frame)

    def st_Pass(self, s, frame):
        return None

    def st_Import(self, s, frame):
        for a in s.names:
            n = a.asname or a.name.split('.')[0]
            if a.name in self.prog.modules:
                v = T('module', a.name)
            else:
                v = self.ext(a.name if a.asname else n)
            self.st[('v', frame.env, n)] = v

    def st_ImportFrom(self, s, frame):
        base = frame.module._absbase(s)
        for a in s.names:
            if base in self.prog.modules:
                v = self.global_name(self.prog.modules[base], a.name)
            else:
                v = self.ext(base + '.' + a.name)
            self.st[('v', frame.env, a.asname or a.name)] = v

    def st_Global(self, s, frame):
        frame.globals_.update(s.names)

    def st_Nonlocal(self, s, frame):
        frame.globals_.update(s.names)

    def st_FunctionDef(self, s, frame):
        self.st[('v', frame.env, s.name)] = self.mkfunc(s, frame, frame.module, frame.cls)

    def st_ClassDef(self, s, frame):
        self.st[('v', frame.env, s.name)] = T('unknown', mkstr('local class'))

    def st_Assert(self, s, frame):
        self.eval(s.test, frame)

    def st_Delete(self, s, frame):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b, i = self.eval(t.value, frame), self.eval_index(t.slice, frame)
                self.event('delitem', b, [i])
                c = self.hget(b)
                if c is not None and c.op == 'Dct':
                    self.st[('h', b)] = T('Dct', c.args[0], *[x for x in c.args[1:] if not (x.op == 'kv' and x.args[0] is i)])
                elif c is not None and c.op == 'Lst' and numval(i) is not None and all(x.op == 'one' for x in c.args):
                    n = int(numval(i))
                    items = list(c.args)
                    if -len(items) <= n < len(items):
                        del items[n]
                    self.st[('h', b)] = T('Lst', *items)
                elif c is not None:
                    self.st[('h', b)] = T('Lst', T('splat', T('opaque', mkstr('del'), b, i)))
            elif isinstance(t, ast.Name):
                self.st[('v', frame.env, t.id)] = UNDEF

    def st_Return(self, s, frame):
        v = NONE if s.value is None else self.eval(s.value, frame)
        return [Out(TRUE, 'return', self.st, v, self.pc)]

    def st_Raise(self, s, frame):
        name = 'reraise'
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                for a in e.args:
                    self.eval(a, frame)
                e = e.func
            name = e.id if isinstance(e, ast.Name) else getattr(e, 'attr', '?')
        self.event('raise', None, [mkstr(name)])
        return [Out(TRUE, 'raise', self.st, mkstr(name), self.pc)]

    def st_Break(self, s, frame):
        return [Out(TRUE, 'break', self.st, NONE, self.pc)]

    def st_Continue(self, s, frame):
        return [Out(TRUE, 'continue', self.st, NONE, self.pc)]

    def st_With(self, s, frame):
        for i in s.items:
            v = self.eval(i.context_expr, frame)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, frame)
        return self.exec_block(s.body, frame)

    def st_Try(self, s, frame):
        st0, pc0 = dict(self.st), self.pc
        outs = self.exec_block(s.body, frame)
        res = list(outs)
        if s.handlers:
            self.ntry = getattr(self, 'ntry', 0) + 1
            c = condatom(T('exc', '%s:%d' % (frame.qual, self.ntry)))
            if self.quiet_try:
                return res if not s.orelse and not s.finalbody else self.exec_block(list(s.orelse) + list(s.finalbody), frame)
            res = [Out(band(bnot(c), o.rel), o.kind, o.st, o.val, o.pc) for o in outs if o.kind != 'raise']
            for h in s.handlers[:1]:
                self.st, self.pc = dict(st0), band(pc0, c)
                if h.name:
                    self.st[('v', frame.env, h.name)] = T('unknown', mkstr('exc'))
                for o in self.exec_block(h.body, frame):
                    res.append(Out(band(c, o.rel), o.kind, o.st, o.val, o.pc))
        elif s.orelse:
            pass
        if s.orelse or s.finalbody:
            fin = []
            for o in res:
                if o.kind == 'normal' or s.finalbody:
                    self.st, self.pc = dict(o.st), o.pc
                    body = (list(s.orelse) if o.kind == 'normal' else []) + list(s.finalbody)
                    for q in self.exec_block(body, frame):
                        fin.append(Out(band(o.rel, q.rel), o.kind if q.kind == 'normal' else q.kind, q.st,
                                       o.val if q.kind == 'normal' else q.val, q.pc))
                else:
                    fin.append(o)
            res = fin
        return res

    def simplify(self, c):
        """drop tests already decided by the path condition"""
        if c.op != 'ite' or self.pc is TRUE:
            return c
        seen = set()
        changed = True
        n = 0
        while changed and c.op == 'ite' and n < 40:
            changed = False
            atoms = []
            stack = [c]
            vis = set()
            while stack:
                x = stack.pop()
                if x in vis or x.op != 'ite':
                    continue
                vis.add(x)
                atoms.append(x.args[0])
                stack += [x.args[1], x.args[2]]
            for v in atoms:
                n += 1
                if v in seen:
                    continue
                seen.add(v)
                a = condatom(v)
                if band(self.pc, a) is FALSE:
                    c = restrict(c, v, False)
                    changed = True
                elif band(self.pc, bnot(a)) is FALSE:
                    c = restrict(c, v, True)
                    changed = True
        return c

    def truth_of(self, v):
        """truthiness, resolving containers"""
        def f(x):
            c = self.hget(x)
            if c is not None:
                if c.op == 'Lst':
                    r = FALSE
                    for i in c.args:
                        r = bor(r, self.item_nonempty(i))
                    return r
                if c.op == 'Dct':
                    if len(c.args) > 1 and any(i.op == 'kv' for i in c.args[1:]):
                        return TRUE
                    if c.args[0] is NONE and len(c.args) == 1:
                        return FALSE
                    return truth(c.args[0]) if c.args[0] is not NONE else condatom(T('truth', self.freeze(x)))
                return truth(self.freeze(x))
            if self.extra and x.op == 'vec' and len(x.args) == 1:
                return self.truth_of(x.args[0])
            return truth(x)
        return lift(f, v)

    def item_nonempty(self, i):
        if i.op == 'one':
            return TRUE
        if i.op == 'splat':
            return truth(i.args[0])
        if i.op == 'opt':
            return i.args[0]
        if i.op == 'comp':
            inner = FALSE
            for x in i.args[1:]:
                inner = bor(inner, self.item_nonempty(x))
            return self.any_of(i.args[0], inner)
        return condatom(T('truth', i))

    def st_If(self, s, frame):
        c = self.simplify(self.truth_of(self.eval(s.test, frame)))
        if c is TRUE:
            return self.exec_block(s.body, frame)
        if c is FALSE:
            return self.exec_block(s.orelse, frame) if s.orelse else None
        st0, pc0 = self.st, self.pc
        res = []
        self.st, self.pc = dict(st0), band(pc0, c)
        for o in self.exec_block(s.body, frame):
            res.append(Out(band(c, o.rel), o.kind, o.st, o.val, o.pc))
        self.st, self.pc = dict(st0), band(pc0, bnot(c))
        if s.orelse:
            for o in self.exec_block(s.orelse, frame):
                res.append(Out(band(bnot(c), o.rel), o.kind, o.st, o.val, o.pc))
        else:
            res.append(Out(bnot(c), 'normal', self.st, NONE, self.pc))
        return res

    # assignment ----------------------------------------------------------
    def st_Assign(self, s, frame):
        v = self.eval(s.value, frame)
        for t in s.targets:
            self.assign(t, v, frame)

    def st_AnnAssign(self, s, frame):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, frame), frame)

    def st_AugAssign(self, s, frame):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(frame, t.id)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, frame)
            cur = self.getattr_(obj, t.attr)
        else:
            obj = self.eval(t.value, frame)
            ix = self.eval_index(t.slice, frame)
            cur = self.getitem(obj, ix)
        v = self.eval(s.value, frame)
        if isinstance(s.op, ast.Add) and self.hget(cur) is not None and self.hget(cur).op == 'Lst':
            self.list_extend(cur, v)
            new = cur
            self.event('augmutate', cur, [v])
        else:
            new = self.binop(s.op, cur, v)
        if isinstance(t, ast.Name):
            self.st[('v', frame.env, t.id)] = new
        elif isinstance(t, ast.Attribute):
            self.setattr_(obj, t.attr, new)
        else:
            self.setitem(obj, ix, new, t.value, frame)

    def assign(self, t, v, frame):
        if isinstance(t, ast.Name):
            e = frame
            if t.id in frame.globals_:
                e = frame.parent
                while e is not None and ('v', e.env, t.id) not in self.st:
                    e = e.parent
                if e is None:
                    return
            self.st[('v', e.env, t.id)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.concrete_items(v)
            if vals is not None and not star and len(vals) == n:
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, frame)
            elif star and vals is not None:
                k = star[0]
                after = n - k - 1
                for e, x in zip(t.elts[:k], vals[:k]):
                    self.assign(e, x, frame)
                self.assign(t.elts[k].value, self.new_list(vals[k:len(vals) - after]), frame)
                for e, x in zip(t.elts[k + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, frame)
            else:
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        self.assign(e.value, T('unknown', mkstr('star')), frame)
                    else:
                        self.assign(e, self.getitem(v, num(i)), frame)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, frame), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, frame), self.eval_index(t.slice, frame), v, t.value, frame)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, frame)

    def setattr_(self, obj, name, v):
        def f(o):
            self.event('setattr', o, [mkstr(name), v])
            self.st[('f', o, name)] = v
        self.distribute(obj, f)

    def distribute(self, obj, f):
        """apply an effectful leaf function to every alternative of a gated value"""
        if obj.op != 'ite':
            return f(obj)
        c = condatom(obj.args[0])
        st0, pc0 = self.st, self.pc
        cs = self.simplify(c)
        if cs is TRUE:
            return self.distribute(obj.args[1], f)
        if cs is FALSE:
            return self.distribute(obj.args[2], f)
        self.st, self.pc = dict(st0), band(pc0, c)
        r1 = r2 = BOT
        ok1 = ok2 = True
        try:
            r1 = self.distribute(obj.args[1], f)
        except AlwaysRaises:
            ok1 = False
        s1, p1 = self.st, self.pc
        self.st, self.pc = dict(st0), band(pc0, bnot(c))
        try:
            r2 = self.distribute(obj.args[2], f)
        except AlwaysRaises:
            ok2 = False
        s2, p2 = self.st, self.pc
        if not ok1 and not ok2:
            raise AlwaysRaises('?')
        if not ok1:
            self.st, self.pc = s2, p2
            return r2
        if not ok2:
            self.st, self.pc = s1, p1
            return r1
        self.st = self.join_states([c, bnot(c)], [s1, s2])
        self.pc = bor(p1, p2)
        if r1 is None:
            return r2
        return ite(c, r1, r2)

    # ------------------------------------------------------------ loops
    def concrete_items(self, v):
        """list of element terms if v is a container of known shape"""
        c = self.hget(v)
        if c is not None:
            if c.op == 'Lst' and all(i.op == 'one' for i in c.args):
                return [i.args[0] for i in c.args]
            if c.op == 'Dct' and c.args[0] is NONE and all(i.op == 'kv' for i in c.args[1:]):
                return [i.args[0] for i in c.args[1:]]
            return None
        if v.op in ('tuple', 'list', 'vec'):
            return list(v.args)
        if v.op == 'str' and len(v.args[0]) < 64:
            return [mkstr(x) for x in v.args[0]]
        if v.op == 'range':
            lo, hi, stp = [numval(x) for x in v.args]
            if lo is not None and hi is not None and stp:
                r = range(int(lo), int(hi), int(stp))
                if len(r) <= 64:
                    return [num(x) for x in r]
        if v.op == 'enumerate':
            it = self.concrete_items(v.args[0])
            if it is not None:
                return [T('tuple', add(num(i), v.args[1]), x) for i, x in enumerate(it)]
        if v.op == 'zip':
            its = [self.concrete_items(a) for a in v.args]
            if all(i is not None for i in its):
                return [T('tuple', *xs) for xs in zip(*its)]
        if v.op == 'reversed':
            it = self.concrete_items(v.args[0])
            if it is not None:
                return it[::-1]
        if v.op == 'dictitems':
            d = self.hget(v.args[0])
            if d is not None and d.op == 'Dct' and d.args[0] is NONE and all(i.op == 'kv' for i in d.args[1:]):
                return [T('tuple', i.args[0], i.args[1]) for i in d.args[1:]]
        if v.op == 'dictvalues':
            d = self.hget(v.args[0])
            if d is not None and d.op == 'Dct' and d.args[0] is NONE and all(i.op == 'kv' for i in d.args[1:]):
                return [i.args[1] for i in d.args[1:]]
        if v.op == 'dictkeys':
            return self.concrete_items(v.args[0])
        return None

    def segments(self, v):
        """v as a sequence of ('one', x) / ('opt', cond, [segments]) / ('sym', bound, elemfn, guard)"""
        its = self.concrete_items(v)
        if its is not None:
            return [('one', x) for x in its]
        c = self.hget(v)
        if c is not None and c.op == 'Lst':
            return self.item_segments(c.args)
        if c is not None and c.op == 'Dct':
            fr = self.freeze(v)
            return [('sym', fr, lambda i: T('keyof', fr, i), TRUE)]
        if v.op == 'clist':
            return self.item_segments(v.args)
        if v.op == 'range':
            lo, hi, stp = v.args
            n = sub(hi, lo)
            if numval(stp) == 1:
                return [('sym', T('count', n), lambda i: add(lo, i), TRUE)]
            if numval(stp) == -1:
                return [('sym', T('count', sub(lo, hi)), lambda i: sub(lo, i), TRUE)]
            return [('sym', T('count', call('ceil', div(n, stp))), lambda i: add(lo, mul(stp, i)), TRUE)]
        if v.op == 'enumerate':
            src, start = v.args
            segs = self.segments(src)
            if len(segs) == 1 and segs[0][0] == 'sym':
                _, b, fn, g = segs[0]
                if g is TRUE:
                    return [('sym', b, lambda i: T('tuple', add(start, i), fn(i)), TRUE)]
                return [('sym', b, lambda i: T('tuple', T('unknown', mkstr('rank')), fn(i)), g)]
            return [('sym', self.freeze(src), lambda i: T('tuple', add(start, i), T('getitem', self.freeze(src), i)), TRUE)]
        if v.op == 'zip':
            segl = [self.segments(a) for a in v.args]
            if all(len(s) == 1 and s[0][0] == 'sym' for s in segl):
                b = segl[0][0][1]
                fns = [s[0][2] for s in segl]
                return [('sym', b, lambda i: T('tuple', *[f(i) for f in fns]), TRUE)]
            # mixed: known shape on one side fixes the length
            lens = [len(s) for s in segl if all(x[0] == 'one' for x in s)]
            if lens:
                n = min(lens)
                return [('one', T('tuple', *[self.getitem(a, num(k)) for a in v.args])) for k in range(n)]
            fr = [self.freeze(a) for a in v.args]
            return [('sym', T('zip', *fr), lambda i: T('tuple', *[T('getitem', a, i) for a in fr]), TRUE)]
        if v.op == 'reversed':
            fr = self.freeze(v.args[0])
            return [('sym', T('reversed', fr), lambda i: T('getitem', T('reversed', fr), i), TRUE)]
        if v.op == 'dictitems':
            d = self.freeze(v.args[0])
            return [('sym', d, lambda i: T('tuple', T('keyof', d, i), self.getitem(v.args[0], T('keyof', d, i))), TRUE)]
        if v.op == 'dictvalues':
            d = self.freeze(v.args[0])
            return [('sym', d, lambda i: self.getitem(v.args[0], T('keyof', d, i)), TRUE)]
        if v.op == 'dictkeys':
            d = self.freeze(v.args[0])
            return [('sym', d, lambda i: T('keyof', d, i), TRUE)]
        fr = self.freeze(v)
        dk = self.is_dict_term(fr)
        if dk:
            return [('sym', fr, lambda i: T('keyof', fr, i), TRUE)]
        return [('sym', fr, lambda i: self.typed_elem(fr, i), TRUE)]

    def is_dict_term(self, t):
        return False

    def typed_elem(self, seq, i):
        e = call('getitem', seq, i)
        self.type_elem(seq, e)
        return e

    def type_elem(self, seq, e):
        if seq.op == 'attr':
            for (cn, an), ty in self.attr_types.items():
                if an == seq.args[1] and isinstance(ty, list):
                    self.types.setdefault(e, self.prog.cls(ty[0]))

    def item_segments(self, items):
        out = []
        for i in items:
            if i.op == 'one':
                out.append(('one', i.args[0]))
            elif i.op == 'splat':
                t = i.args[0]
                out.extend(self.segments(t) if ('h', t) not in self.st else [('sym', t, lambda ix, t=t: self.typed_elem(t, ix), TRUE)])
            elif i.op == 'opt':
                out.append(('opt', i.args[0], self.item_segments(i.args[1:])))
            elif i.op == 'comp':
                # comp(bound-idx, items...) : one symbolic segment per simple item
                idx = i.args[0]
                simple = [self._simple(x, TRUE) for x in i.args[1:]]
                if len(simple) == 1 and simple[0] is not None:
                    g, val = simple[0]
                    out.append(('symx', idx, val, g))
                else:
                    t = T('clist', i)
                    out.append(('sym', t, lambda ix, t=t: T('getitem', t, ix), TRUE))
            else:
                t = T('clist', i)
                out.append(('sym', t, lambda ix, t=t: T('getitem', t, ix), TRUE))
        return out

    def _simple(self, x, g):
        if x.op == 'one':
            return g, x.args[0]
        if x.op == 'opt' and len(x.args) == 2:
            return self._simple(x.args[1], band(g, x.args[0]))
        return None

    def new_idx(self, bound):
        k = sum(1 for l in self.loops if l.args[0] is bound)
        return T('idx', bound, num(k))

    def any_of(self, idx, c):
        """exists idx: c"""
        if c is FALSE:
            return FALSE
        if idx not in tm.subterms(c):
            return band(self.bound_nonempty(idx.args[0]), c)
        return condatom(T('any', idx, c))

    def bound_nonempty(self, b):
        if b.op == 'count':
            return lt0(neg(b.args[0]))
        return truth(b)

    def st_For(self, s, frame):
        it = self.eval(s.iter, frame)
        return self.for_over(it, lambda x: self.assign(s.target, x, frame), s.body, s.orelse, frame)

    def for_over(self, it, bind, body, orelse, frame):
        def run(segs, rel0):
            """returns list of outcomes, iterating over the segments from current state"""
            res = []
            rel = TRUE
            for seg in segs:
                if seg[0] == 'one':
                    bind(seg[1])
                    outs = self.exec_block(body, frame)
                elif seg[0] == 'opt':
                    c = self.simplify(seg[1])
                    st0, pc0 = self.st, self.pc
                    outs = []
                    if c is not FALSE:
                        self.st, self.pc = dict(st0), band(pc0, c)
                        outs += [Out(band(c, o.rel), o.kind, o.st, o.val, o.pc) for o in run(seg[2], TRUE)]
                    if c is not TRUE:
                        outs.append(Out(bnot(c), 'normal', dict(st0), NONE, band(pc0, bnot(c))))
                else:
                    if seg[0] == 'symx':
                        idx0, val, g = seg[1:]
                        bound = idx0.args[0]
                        fn = lambda i, val=val, idx0=idx0: val if i is idx0 else tm.substitute(val, {idx0: i})
                        gfn = lambda i, g=g, idx0=idx0: g if i is idx0 else tm.substitute(g, {idx0: i})
                    else:
                        _, bound, fn, g0 = seg
                        gfn = lambda i, g0=g0: g0
                    outs = self.symloop(bound, fn, gfn, bind, body, frame)
                norm = [o for o in outs if o.kind in ('normal', 'continue') and o.rel is not FALSE]
                for o in outs:
                    if o.kind not in ('normal', 'continue') and o.rel is not FALSE:
                        res.append(Out(band(rel, o.rel), o.kind, o.st, o.val, o.pc))
                if not norm:
                    return res
                self.st = self.join_states([o.rel for o in norm], [o.st for o in norm])
                pc, r = FALSE, FALSE
                for o in norm:
                    pc = bor(pc, o.pc)
                    r = bor(r, o.rel)
                self.pc = pc
                rel = band(rel, r)
            res.append(Out(rel, 'normal', self.st, NONE, self.pc))
            return res
        outs = run(self.segments(it) if it.op != 'ite' else self.gated_segments(it), TRUE)
        res = []
        for o in outs:
            if o.kind == 'break':
                res.append(Out(o.rel, 'normal', o.st, NONE, o.pc))
            elif o.kind == 'normal' and orelse:
                self.st, self.pc = dict(o.st), o.pc
                for q in self.exec_block(orelse, frame):
                    res.append(Out(band(o.rel, q.rel), q.kind, q.st, q.val, q.pc))
            else:
                res.append(o)
        return res

    def gated_segments(self, it):
        if it.op != 'ite':
            return self.segments(it)
        c = self.simplify(condatom(it.args[0]))
        if c is TRUE:
            return self.gated_segments(it.args[1])
        if c is FALSE:
            return self.gated_segments(it.args[2])
        a, b = self.gated_segments(it.args[1]), self.gated_segments(it.args[2])
        if len(a) == len(b) and all(x[0] == 'one' for x in a + b):
            return [('one', ite(c, x[1], y[1])) for x, y in zip(a, b)]
        return [('opt', c, a), ('opt', bnot(c), b)]

    def phi_for(self, k, tag):
        if k[0] == 'h':
            c = self.st.get(k)
            d = self.keydesc(k)
            if c is not None and c.op == 'Dct':
                return T('Dct', T('phi', tag, mkstr(d)))
            return T('Lst', T('splat', T('phi', tag, mkstr(d))))
        return T('phi', tag, mkstr(self.keydesc(k)))

    def keydesc(self, k):
        return '%s|%s|%s' % (k[0], k[1].dig if isinstance(k[1], Term) else k[1], k[2] if len(k) > 2 and not isinstance(k[2], Term) else (k[2].dig if len(k) > 2 else ''))

    def symloop(self, bound, fn, gfn, bind, body, frame, while_test=None, prebind=None):
        idx = self.new_idx(bound)
        st0, pc0 = self.st, self.pc
        tag = idx
        changed = {}
        rec = self.recording

        def one_pass(record, init):
            self.st = dict(init)
            self.loops.append(idx)
            self.recording = record and rec
            # the loop body's path condition keeps the outer pc
            self.pc = pc0
            try:
                if prebind:
                    prebind(idx)
                g = gfn(idx)
                rel0 = TRUE
                if while_test is not None:
                    g = band(g, self.truth_of(self.eval(while_test, frame)))
                g = self.simplify(g)
                self.pc = band(pc0, g)
                if g is FALSE:
                    return g, []
                bind(fn(idx))
                outs = self.exec_block(body, frame)
            finally:
                self.loops.pop()
                self.recording = rec
            return g, outs

        for it in range(5):
            init = dict(st0)
            for k, p in changed.items():
                init[k] = p
            ne, nn = self.nref, self.nenv
            g, outs = one_pass(False, init)
            new = False
            for o in outs:
                if o.kind in ('normal', 'continue', 'break'):
                    for k, v in o.st.items():
                        if k in changed:
                            continue
                        base = st0.get(k)
                        if base is None:
                            if k[0] == 'f' or k[0] == 'i':
                                base = self.default(k)
                                if idx in tm.subterms(k[1]) or (k[0] == 'i' and idx in tm.subterms(k[2])):
                                    continue
                            elif k[0] == 'h' and k[1].op != 'ref':
                                base = self.default(k)
                            else:
                                continue      # local to the iteration
                        if v is not base:
                            changed[k] = self.phi_for(k, tag)
                            new = True
            if not new:
                break
        init = dict(st0)
        for k, p in changed.items():
            init[k] = p
        if while_test is None or True:
            g, outs = one_pass(True, init)
        norm = [o for o in outs if o.kind in ('normal', 'continue') and o.rel is not FALSE]
        brk = [o for o in outs if o.kind == 'break' and o.rel is not FALSE]
        ret = [o for o in outs if o.kind == 'return' and o.rel is not FALSE]
        # raise outcomes: condition removed from pc afterwards only if loop-invariant
        nxt = self.join_states([o.rel for o in norm], [o.st for o in norm]) if norm else None
        phis = set()
        for k, p in changed.items():
            phis |= set(x for x in tm.subterms(p) if x.op == 'phi')

        def free(t):
            if not phis:
                return True
            return not (tm.subterms(t) & phis)
        bc = FALSE
        for o in brk + ret:
            bc = bor(bc, o.rel)
        bcg = band(g, bc)
        res_st = dict(st0)
        # new keys (variables first assigned in the loop)
        newkeys = {}
        for o in norm + brk:
            for k, v in o.st.items():
                if k not in st0 and k not in changed:
                    newkeys[k] = True
        has_exit = bool(brk or ret)

        def after_normal(k):
            p = changed.get(k)
            i0 = st0.get(k)
            if i0 is None:
                i0 = self.default(k) if k[0] != 'v' else UNDEF
            n = nxt.get(k) if nxt is not None else p
            if n is None:
                n = p if p is not None else i0
            if p is not None and n is p:
                return i0
            if k not in changed:
                if k[0] in ('f', 'i', 'h'):
                    return n
                return self.last_of(idx, g, n, i0)
            if k[0] == 'h':
                return self.sum_container(idx, g, p, n, i0, free, has_exit)
            return self.sum_value(idx, g, p, n, i0, free, has_exit)
        for k in list(changed) + list(newkeys):
            res_st[k] = after_normal(k)
        results = []
        if not has_exit or bcg is FALSE:
            results.append(Out(TRUE, 'normal', res_st, NONE, pc0))
            return self._with_raise_pc(results, outs, g, idx, pc0)
        if free(bcg):
            ex = self.any_of(idx, bcg)
        else:
            ex = condatom(T('fold', idx, bcg))
        exs = ex
        rem_rel = bnot(exs)
        for o in brk:
            bst = dict(st0)
            for k in list(changed) + list(newkeys):
                v = o.st.get(k)
                if v is None:
                    v = changed.get(k, UNDEF)
                bst[k] = self.exit_value(k, idx, band(g, o.rel), v, changed.get(k), nxt, st0, free, after_normal)
            only = len(brk) + len(ret) == 1
            rel = exs if only else condatom(T('firstexit', idx, band(g, o.rel), bcg))
            results.append(Out(rel, 'break', bst, NONE, band(pc0, rel)))
        for o in ret:
            bst = dict(st0)
            for k in list(changed) + list(newkeys):
                v = o.st.get(k)
                if v is None:
                    v = changed.get(k, UNDEF)
                bst[k] = self.exit_value(k, idx, band(g, o.rel), v, changed.get(k), nxt, st0, free, after_normal)
            # freeze allocations of the iteration
            for k, v in o.st.items():
                if k not in bst and k[0] in ('h', 'f', 'i'):
                    bst[k] = v
            only = len(brk) + len(ret) == 1
            rel = exs if only else condatom(T('firstexit', idx, band(g, o.rel), bcg))
            val = o.val
            if idx in tm.subterms(val) or not free(val):
                self.st = o.st
                val = self.first(idx, band(g, o.rel), self.freeze(val))
                self.st = st0
            results.append(Out(rel, 'return', bst, val, band(pc0, rel)))
        results.append(Out(rem_rel, 'normal', res_st, NONE, band(pc0, rem_rel)))
        # an unconditional exit in every iteration: the loop runs at most once
        return self._with_raise_pc(results, outs, g, idx, pc0)

    def _with_raise_pc(self, results, outs, g, idx, pc0):
        for o in outs:
            if o.kind == 'raise':
                c = band(g, o.rel)
                rc = self.any_of(idx, c)
                for r in results:
                    r.pc = band(r.pc, bnot(rc))
        return results

    def first(self, idx, c, v):
        return lift(lambda x: x if idx not in tm.subterms(x) else T('first', idx, c, x), v)

    def exit_value(self, k, idx, c, v, p, nxt, st0, free, after_normal):
        i0 = st0.get(k)
        if v is p and p is not None:
            # not changed on the exit path: value after the preceding full iterations
            n = nxt.get(k) if nxt is not None else p
            if n is None or n is p:
                return i0 if i0 is not None else UNDEF
            a = after_normal(k)
            if k[0] == 'h':
                return T('Lst', T('splat', T('opaque', mkstr('beforeexit'), a)))
            return T('opaque', mkstr('beforeexit'), idx, c, a)
        if free(v):
            if k[0] == 'h':
                return v if idx not in tm.subterms(v) else T('Lst', T('splat', T('first', idx, c, self.freeze_c(v))))
            if idx not in tm.subterms(v):
                return v
            return self.first(idx, c, v)
        # p + something
        if k[0] == 'h' and p is not None and v.op == 'Lst' and v.args and v.args[0] is p.args[0]:
            n = nxt.get(k) if nxt is not None else p
            if n is p and i0 is not None and all(free(x) for x in v.args[1:]):
                items = tuple(x if idx not in tm.subterms(x) else self._first_item(idx, c, x) for x in v.args[1:])
                return T('Lst', *(i0.args + items))
        if k[0] == 'h':
            return T('Lst', T('splat', T('fold', idx, v)))
        return T('fold', idx, c, v)

    def freeze_c(self, c):
        return self._freeze_container(c, 0)

    def _first_item(self, idx, c, x):
        if x.op == 'one':
            return T('one', self.first(idx, c, x.args[0]))
        return T('splat', T('opaque', x))

    def last_of(self, idx, g, n, i0):
        if n is UNDEF:
            return i0
        if idx not in tm.subterms(n) and g is TRUE:
            return ite(self.bound_nonempty(idx.args[0]), n, i0)
        return T('lastof', idx, g, n) if i0 is UNDEF or i0 is None else T('lastof', idx, g, n, i0)

    def sum_container(self, idx, g, p, n, i0, free, has_exit):
        if i0 is UNDEF or i0 is None:
            i0 = T('Lst')
        if n.op == 'Lst' and n.args and n.args[0] is p.args[0] and p.op == 'Lst':
            items = n.args[1:]
            if all(free(x) for x in items) and not has_exit and i0.op == 'Lst':
                items = tuple(T('opt', g, *items) for _ in (0,)) if g is not TRUE else items
                return T('Lst', *(i0.args + (T('comp', idx, *items),)))
        if p.op == 'Dct' and n.op == 'Dct' and n.args[0] is p.args[0] and i0.op == 'Dct' and not has_exit:
            items = n.args[1:]
            if all(free(x) for x in items):
                out = []
                for x in items:
                    if x.op == 'kv':
                        if idx in tm.subterms(x.args[0]):
                            out.append(T('dcomp', idx, g, x.args[0], x.args[1]))
                        else:
                            out.append(T('kv', x.args[0], self.last_of(idx, g, x.args[1], self.dct(i0).get(x.args[0], T('missing')))))
                    else:
                        out.append(T('comp', idx, x))
                d = {}
                extra = []
                for x in list(i0.args[1:]) + out:
                    if x.op == 'kv':
                        d[x.args[0]] = x
                    else:
                        extra.append(x)
                return T('Dct', i0.args[0], *(list(d.values()) + extra))
        if p.op == 'Dct':
            return T('Dct', T('fold', idx, g, n, i0))
        return T('Lst', T('splat', T('fold', idx, g, n, i0)))

    def sum_value(self, idx, g, p, n, i0, free, has_exit):
        if i0 is UNDEF:
            i0 = UNDEF
        if free(n) and not has_exit:
            if g is not TRUE or idx in tm.subterms(n):
                return self.last_of(idx, g, n, i0)
            return ite(self.bound_nonempty(idx.args[0]), n, i0)
        if has_exit and free(n):
            return self.last_of(idx, g, n, i0)
        if not has_exit:
            # gated updates  n = ite(c, v, p)
            if n.op == 'ite' and p.op == 'phi':
                conds, vals, ok = self._gated(n, p)
                if ok:
                    c = band(g, conds)
                    if vals is not None and free(vals) and free(c):
                        if idx not in tm.subterms(vals):
                            return ite(self.any_of(idx, c), vals, i0)
                        return T('lastof', idx, c, vals, i0)
            if n.op in ('poly', 'ite') or n.op == 'phi':
                d = lift(lambda x: tm.sub(x, p) if x.op in ('poly', 'phi') or True else x, n)
                if free(d):
                    return add(i0, self.sum_term(idx, g, d))
            if n.op == 'concat' and n.args[0] is p and free(concat(*n.args[1:])):
                return concat(i0, T('joinover', idx, g, concat(*n.args[1:])))
        return T('fold', idx, g, n, i0)

    def _gated(self, n, p):
        """n as ite(c, v, p): returns (c, v, True)"""
        vals = set()

        def go(t):
            if t is p:
                return FALSE
            if t.op == 'ite':
                return ite(condatom(t.args[0]), go(t.args[1]), go(t.args[2]))
            vals.add(t)
            return TRUE
        c = go(n)
        leaves = list(vals)
        if len(leaves) == 1:
            return c, leaves[0], True
        # several values: keep the diagram, p as don't care

        def strip(t):
            if t is p:
                return BOT
            if t.op == 'ite':
                return tm.mk_ite(t.args[0], strip(t.args[1]), strip(t.args[2]))
            return t
        return c, strip(n), True

    def sum_term(self, idx, g, d):
        d = ite(g, d, ZERO)
        if idx not in tm.subterms(d):
            return mul(self.count_of(idx), d)
        # linear: pull constants out
        def f(x):
            dd = _pd(x)
            res = ZERO
            for m, c in dd.items():
                inner = [(a, e) for a, e in m if idx in tm.subterms(a)]
                outer = [(a, e) for a, e in m if idx not in tm.subterms(a)]
                o = tm._mk({tuple(outer): c})
                if inner:
                    res = add(res, mul(o, T('sumover', idx, tm._mk({tuple(inner): Fraction(1)}))))
                else:
                    res = add(res, mul(o, self.count_of(idx)))
            return res
        if d.op == 'ite':
            return T('sumover', idx, d)
        return f(d)

    def count_of(self, idx):
        b = idx.args[0]
        if b.op == 'count':
            return b.args[0]
        return T('len', b)

    def st_While(self, s, frame):
        # concrete unrolling first
        n = 0
        outs = []
        rel = TRUE
        while n < 70:
            c = self.simplify(self.truth_of(self.eval(s.test, frame)))
            if c is FALSE:
                outs.append(Out(rel, 'normal', self.st, NONE, self.pc))
                return self._endloop(outs)
            if c is not TRUE:
                break
            if isinstance(s.test, ast.Constant):
                break
            n += 1
            os_ = self.exec_block(s.body, frame)
            norm = [o for o in os_ if o.kind in ('normal', 'continue') and o.rel is not FALSE]
            for o in os_:
                if o.kind not in ('normal', 'continue') and o.rel is not FALSE:
                    outs.append(Out(band(rel, o.rel), o.kind, o.st, o.val, o.pc))
            if not norm:
                return self._endloop(outs)
            self.st = self.join_states([o.rel for o in norm], [o.st for o in norm])
            pc, r = FALSE, FALSE
            for o in norm:
                pc, r = bor(pc, o.pc), bor(r, o.rel)
            self.pc = pc
            rel = band(rel, r)
        # counting loop  while i < N: ... i += 1
        cnt = self.counting(s, frame)
        if cnt is not None:
            var, i0, n_, key = cnt
            bound = T('count', sub(n_, i0))
            body = [x for x in s.body if x is not var]

            def bind(v):
                self.st[key] = v
            res = self.symloop(bound, lambda i: add(i0, i), lambda i: TRUE, bind, s.body[:-1] if s.body[-1] is var else s.body, frame)
            final = []
            for o in res:
                if o.kind == 'normal':
                    o.st[key] = ite(self.bound_nonempty(bound), n_, i0)
                final.append(Out(band(rel, o.rel), o.kind, o.st, o.val, o.pc))
            return self._endloop(outs + final)
        self.nwhile = getattr(self, 'nwhile', 0) + 1
        bound = T('while', '%s' % frame.qual, sum(1 for l in self.loops if l.args[0].op == 'while'))
        res = self.symloop(bound, lambda i: NONE, lambda i: TRUE, lambda v: None, s.body, frame, while_test=s.test)
        final = []
        for o in res:
            if o.kind == 'normal':
                # exit because the test failed: everything modified is a fold (already opaque or accumulated)
                pass
            final.append(Out(band(rel, o.rel), o.kind, o.st, o.val, o.pc))
        return self._endloop(outs + final)

    def counting(self, s, frame):
        """recognise `while i < n:` with a single unconditional trailing `i += 1`"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name)):
            return None
        name = t.left.id
        last = s.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == name and
                isinstance(last.op, ast.Add) and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return None
        assigned = set()
        for b in s.body[:-1]:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    assigned.add(x.id)
                if isinstance(x, ast.Continue):
                    return None
        if name in assigned:
            return None
        used = [x.id for x in ast.walk(t.comparators[0]) if isinstance(x, ast.Name)]
        if any(u in assigned for u in used):
            return None
        key = ('v', frame.env, name)
        if key not in self.st:
            return None
        i0 = self.st[key]
        n_ = self.eval(t.comparators[0], frame)
        return last, i0, n_, key

    def _endloop(self, outs):
        return [Out(o.rel, 'normal' if o.kind == 'break' else o.kind, o.st, o.val, o.pc) for o in outs]

    # ------------------------------------------------------------ expressions
    def eval(self, e, frame):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            self.notes.add('expression %s not modelled' % type(e).__name__)
            return T('unknown', mkstr(type(e).__name__))
        return m(e, frame)

    def ex_Constant(self, e, frame):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return mkbool(v)
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, str):
            return mkstr(v)
        return T('unknown', mkstr(repr(v)))

    def ex_Name(self, e, frame):
        return self.lookup(frame, e.id)

    def ex_Tuple(self, e, frame):
        return T('tuple', *self.elts(e.elts, frame))

    def elts(self, elts, frame):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, frame)
                its = self.concrete_items(v)
                if its is None:
                    out.append(T('unknown', mkstr('star')))
                else:
                    out += its
            else:
                out.append(self.eval(x, frame))
        return out

    def ex_List(self, e, frame):
        return self.new_list(self.elts(e.elts, frame))

    def ex_Set(self, e, frame):
        return T('set', *sorted(self.freeze(x) for x in self.elts(e.elts, frame)))

    def ex_Dict(self, e, frame):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.eval(v, frame))
            else:
                kk = self.eval(k, frame)
                self.dict_set(d, kk, self.eval(v, frame))
        return d

    def ex_JoinedStr(self, e, frame):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(mkstr(v.value))
            else:
                x = self.freeze(self.eval(v.value, frame))
                if v.format_spec is None:
                    parts.append(str_of(x))
                else:
                    parts.append(call('fmt', x, self.eval(v.format_spec, frame)))
        return concat(*parts)

    def ex_Lambda(self, e, frame):
        return self.mkfunc(e, frame, frame.module, frame.cls)

    def ex_IfExp(self, e, frame):
        c = self.simplify(self.truth_of(self.eval(e.test, frame)))
        if c is TRUE:
            return self.eval(e.body, frame)
        if c is FALSE:
            return self.eval(e.orelse, frame)
        return self.branch(c, lambda: self.eval(e.body, frame), lambda: self.eval(e.orelse, frame))

    def branch(self, c, fa, fb):
        st0, pc0 = self.st, self.pc
        self.st, self.pc = dict(st0), band(pc0, c)
        a = b = None
        try:
            a = fa()
        except AlwaysRaises:
            pass
        sa, pa = self.st, self.pc
        self.st, self.pc = dict(st0), band(pc0, bnot(c))
        try:
            b = fb()
        except AlwaysRaises:
            pass
        sb, pb = self.st, self.pc
        if a is None and b is None:
            raise AlwaysRaises('?')
        if a is None:
            self.st, self.pc = sb, pb
            return b
        if b is None:
            self.st, self.pc = sa, pa
            return a
        self.st = self.join_states([c, bnot(c)], [sa, sb])
        self.pc = bor(pa, pb)
        return ite(c, a, b)

    def ex_BoolOp(self, e, frame):
        v = self.eval(e.values[0], frame)
        for nx in e.values[1:]:
            c = self.simplify(self.truth_of(v))
            if isinstance(e.op, ast.And):
                if c is FALSE:
                    return v
                if c is TRUE:
                    v = self.eval(nx, frame)
                    continue
                v0 = v
                v = self.branch(c, lambda: self._boolish(nx, frame, v0), lambda: FALSE if self._isbool(v0) else v0)
            else:
                if c is TRUE:
                    return v
                if c is FALSE:
                    v = self.eval(nx, frame)
                    continue
                v0 = v
                v = self.branch(c, lambda: TRUE if self._isbool(v0) else v0, lambda: self._boolish(nx, frame, v0))
        return v

    def _isbool(self, v):
        if v.op == 'bool':
            return True
        if v.op == 'ite':
            return self._isbool(v.args[1]) and self._isbool(v.args[2])
        return False

    def _boolish(self, nx, frame, v0):
        return self.eval(nx, frame)

    def ex_UnaryOp(self, e, frame):
        v = self.eval(e.operand, frame)
        if isinstance(e.op, ast.Not):
            return bnot(self.truth_of(v))
        if isinstance(e.op, ast.USub):
            if self.extra and self.operator(v, '__neg__') is not None:
                return self.call_func(self.operator(v, '__neg__'), [v], {})
            return neg(self.arr(v))
        if isinstance(e.op, ast.UAdd):
            return v
        return call('invert', v)

    def arr(self, v):
        """containers taking part in array arithmetic"""
        c = self.hget(v)
        if c is not None:
            return self.to_vec(v)
        return v

    def to_vec(self, v):
        its = self.concrete_items(v)
        if its is None:
            return self.freeze(v)
        if v.op == 'str' or (self.hget(v) is not None and self.hget(v).op == 'Dct'):
            return v
        return T('vec', *[self.to_vec(x) if self.concrete_items(x) is not None and x.op != 'str' else x for x in its])

    def ex_BinOp(self, e, frame):
        a, b = self.eval(e.left, frame), self.eval(e.right, frame)
        return self.binop(e.op, a, b)

    def is_list(self, v):
        c = self.hget(v)
        return c is not None and c.op == 'Lst' or v.op in ('list', 'clist')

    def _anylist(self, x):
        if x.op == 'ite':
            return self._anylist(x.args[1]) or self._anylist(x.args[2])
        return self.is_list(x)

    def listlike(self, a, b):
        """list + unresolved value: concatenation when the list cannot be a numeric vector"""
        if b.op not in ('mcall', 'fcall', 'attr', 'getitem', 'sym'):
            return False
        its = self.concrete_items(a)
        return its is not None and all(x.op in ('tuple', 'str', 'ref', 'dict') for x in its)

    OPERATORS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Pow: 'pow', ast.Div: 'truediv'}

    def operator(self, v, name):
        """the operator method of an object of a known class"""
        ci = self.types.get(v) if v.op not in ('class', 'vec') else None
        for _ in range(3):
            f = ci.find(name) if ci is not None else None
            if f is not None:
                return self.mkfunc(f[1], None, f[0].module, f[0])
            al = ci.find_attr(name) if ci is not None else None      # __radd__ = __add__
            al = al[1] if isinstance(al, tuple) else al
            if not isinstance(al, ast.Name):
                break
            name = al.id
        return None

    def binop(self, op, a, b):
        if self.extra and type(op) in self.OPERATORS:
            nm = self.OPERATORS[type(op)]
            f = self.operator(a, '__%s__' % nm)
            if f is not None:
                return self.call_func(f, [a, b], {})
            f = self.operator(b, '__r%s__' % nm) if self.types.get(a) is None else None
            if f is not None:
                return self.call_func(f, [b, a], {})
        if self.extra and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)) and self.is_list(a) and self.is_list(b):
            xs, ys = self.concrete_items(a), self.concrete_items(b)
            if xs is not None and ys is not None and all(const_key(x) for x in xs + ys):
                return self.new_list(xs + [y for y in ys if y not in xs] if isinstance(op, ast.BitOr) else
                                     [x for x in xs if (x in ys) == isinstance(op, ast.BitAnd)])
        if isinstance(op, ast.Add):
            if self.is_list(a) and self.is_list(b):
                r = self.new_list()
                self.list_extend(r, a)
                self.list_extend(r, b)
                return r
            if a.op == 'tuple' and b.op == 'tuple':
                return T('tuple', *(a.args + b.args))
            for x, y, first in ((a, b, True), (b, a, False)):
                if x.op == 'ite' and self._anylist(x):
                    return ite(condatom(x.args[0]), self.binop(op, *((x.args[1], y) if first else (y, x.args[1]))),
                               self.binop(op, *((x.args[2], y) if first else (y, x.args[2]))))
            if (self.is_list(a) and self.listlike(a, b)) or (self.is_list(b) and self.listlike(b, a)):
                r = self.new_list()
                for x in (a, b):
                    if self.is_list(x):
                        self.list_extend(r, x)
                    else:
                        c = self.hget(r)
                        self.st[('h', r)] = T('Lst', *(c.args + (T('splat', x),)))
                return r
            if self.strish(a) or self.strish(b):
                return concat(a, b)
            return add(self.arr(a), self.arr(b))
        if isinstance(op, ast.Sub):
            return sub(self.arr(a), self.arr(b))
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if self.is_list(x):
                    n = numval(y)
                    its = self.concrete_items(x)
                    if n is not None and its is not None and n.denominator == 1 and n < 64:
                        return self.new_list(its * int(n))
                    if its is not None and len(its) == 1 and y.op != 'vec':
                        ix = self.new_idx(T('count', y))
                        return self.alloc(T('Lst', T('comp', ix, T('one', its[0]))))
                    if y.op != 'vec':
                        return self.alloc(T('Lst', T('splat', call('repeat', self.freeze(x), y))))
                if x.op == 'str' and numval(y) is not None:
                    return mkstr(x.args[0] * int(numval(y)))
            return mul(self.arr(a), self.arr(b))
        if isinstance(op, ast.Div):
            return div(self.arr(a), self.arr(b))
        if isinstance(op, ast.Pow):
            return power(self.arr(a), self.arr(b))
        if isinstance(op, ast.FloorDiv):
            x, y = numval(a), numval(b)
            if x is not None and y:
                return num(x // y)
            return call('floor', div(a, b))
        if isinstance(op, ast.Mod):
            if a.op in ('str', 'concat'):
                return self.percent(a, b)
            x, y = numval(a), numval(b)
            if x is not None and y:
                return num(x % y)
            return call('mod', a, b)
        if isinstance(op, ast.MatMult):
            return self.dot(self.arr(a), self.arr(b))
        return call(type(op).__name__, self.freeze(a), self.freeze(b))

    def strish(self, t):
        if t.op in ('str', 'concat', 'str_of', 'joinover', 'fmt', 'strjoin'):
            return True
        if t.op == 'ite':
            return self.strish(t.args[1]) or self.strish(t.args[2])
        return False

    def percent(self, a, b):
        if a.op != 'str':
            return call('percent', a, self.freeze(b))
        args = list(b.args) if b.op == 'tuple' else [b]
        s = a.args[0]
        parts, i, k = [], 0, 0
        import re
        for m in re.finditer(r'%(%|[-+ 0#]*\d*(?:\.\d+)?[sdifgrex])', s):
            parts.append(mkstr(s[i:m.start()]))
            i = m.end()
            sp = m.group(1)
            if sp == '%':
                parts.append(mkstr('%'))
                continue
            if k >= len(args):
                return call('percent', a, self.freeze(b))
            x = self.freeze(args[k])
            k += 1
            parts.append(str_of(x) if sp in ('s', 'd', 'i') else call('fmt', x, mkstr(sp)))
        parts.append(mkstr(s[i:]))
        return concat(*parts)

    def ex_Compare(self, e, frame):
        left = self.eval(e.left, frame)
        res = TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, frame)
            r = self.compare(op, left, right)
            if res is TRUE:
                res = r
            else:
                res = band(res, r) if self._isbool(r) else call('and', res, r)
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is NONE or b is NONE:
                r = isnone(b if a is NONE else a)
            else:
                def f(x, y):
                    if x is y and x.op in ('ref', 'sym', 'obj', 'class', 'bool', 'attr', 'func'):
                        return TRUE
                    if x.op in ('str',) or y.op in ('str',) or (tm.isobj(x) and tm.isobj(y)):
                        return tm.eq(x, y)
                    if x.op == 'ref' and y.op == 'ref':
                        return FALSE
                    if x.op == 'bool' or y.op == 'bool':
                        return tm.eq(x, y)
                    p, q = sorted([x, y])
                    return condatom(T('is', p, q))
                r = lift(f, a, b)
            return bnot(r) if isinstance(op, ast.IsNot) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return bnot(r) if isinstance(op, ast.NotIn) else r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if self.extra and self.hget(a) is None and self.hget(b) is None and (a.op == 'vec' or b.op == 'vec') \
                    and (a.op != b.op or len(a.args) == len(b.args)):
                return self.elementwise(lambda x, y: bnot(tm.eq(x, y)) if isinstance(op, ast.NotEq) else tm.eq(x, y), a, b)
            r = tm.eq(self.freeze(a), self.freeze(b))
            return bnot(r) if isinstance(op, ast.NotEq) else r
        if self.extra and self.is_list(a) and self.is_list(b):      # sets (lists are not ordered in this code)
            xs, ys = self.concrete_items(a), self.concrete_items(b)
            if xs is not None and ys is not None and all(const_key(x) for x in xs + ys):
                xs, ys = set(xs), set(ys)
                return mkbool({'Lt': xs < ys, 'LtE': xs <= ys, 'Gt': xs > ys, 'GtE': xs >= ys}[type(op).__name__])
        a, b = self.arr(a), self.arr(b)
        if self.extra and (a.op == 'vec' or b.op == 'vec'):
            return self.elementwise(lambda x, y: self.compare1(op, x, y), a, b)
        if a.op == 'vec' or b.op == 'vec':
            return call({'Lt': 'vlt', 'LtE': 'vle', 'Gt': 'vgt', 'GtE': 'vge'}[type(op).__name__], a, b)
        if isinstance(op, ast.Lt):
            return lt0(sub(a, b))
        if isinstance(op, ast.LtE):
            return bnot(lt0(sub(b, a)))
        if isinstance(op, ast.Gt):
            return lt0(sub(b, a))
        if isinstance(op, ast.GtE):
            return bnot(lt0(sub(a, b)))
        return condatom(T('cmp', a, b))

    def compare1(self, op, a, b):
        if isinstance(op, ast.Lt):
            return lt0(sub(a, b))
        if isinstance(op, ast.LtE):
            return bnot(lt0(sub(b, a)))
        if isinstance(op, ast.Gt):
            return lt0(sub(b, a))
        return bnot(lt0(sub(a, b)))

    def elementwise(self, f, a, b):
        if a.op == 'vec' and b.op == 'vec' and len(a.args) == len(b.args):
            return T('vec', *[self.elementwise(f, x, y) for x, y in zip(a.args, b.args)])
        if a.op == 'vec' and b.op != 'vec':
            return T('vec', *[self.elementwise(f, x, b) for x in a.args])
        if b.op == 'vec' and a.op != 'vec':
            return T('vec', *[self.elementwise(f, a, y) for y in b.args])
        return f(a, b)

    def contains(self, a, b):
        def f(x, y):
            c = self.hget(y)
            if c is not None and c.op == 'Dct':
                d = self.dct(c)
                if x in d:
                    v = d[x]
                    return lift(lambda z: FALSE if z.op == 'missing' else TRUE, v)
                if c.args[0] is NONE and all(i.op == 'kv' for i in c.args[1:]) and const_key(x) and all(const_key(k) for k in d):
                    return FALSE
                if self.extra and c.args[0] is NONE and x.op in ('pos', 'poly') and all(k.op in ('pos', 'poly') for k in d):
                    eqs = [tm.eq0(sub(x, k)) for k in d]
                    if all(e is FALSE for e in eqs):
                        return FALSE
                if c.args[0] is NONE:
                    return condatom(T('in', self.freeze(x), self.freeze(y)))
                return condatom(T('in', x, c.args[0]))
            its = self.concrete_items(y)
            if its is not None and y.op != 'str':
                r = FALSE
                for i in its:
                    r = bor(r, tm.eq(self.freeze(x), self.freeze(i)))
                return r
            if y.op == 'set':
                r = FALSE
                for i in y.args:
                    r = bor(r, tm.eq(x, i))
                return r
            if x.op == 'str' and y.op == 'str':
                return mkbool(x.args[0] in y.args[0])
            if y.op == 'dictkeys':
                return self.contains(x, y.args[0])
            return condatom(T('in', self.freeze(x), self.freeze(y)))
        return lift(f, a, b)

    def ex_Attribute(self, e, frame):
        return self.getattr_(self.eval(e.value, frame), e.attr)

    def getattr_(self, obj, name):
        def f(o):
            k = ('f', o, name)
            if k in self.st:
                return self.st[k]
            if o.op == 'module':
                m = self.prog.modules[o.args[0]]
                return self.global_name(m, name)
            if o.op == 'ext':
                return self.ext((o.args[0] + '.' + name))
            ci = self.types.get(o)
            if name == '__class__' and ci is not None and o.op != 'class':
                return self.class_term(ci)
            if o.op == 'class' and ci is not None:
                fm = ci.find(name)
                if fm:
                    return self.mkfunc(fm[1], None, fm[0].module, fm[0])
                fa = ci.find_attr(name)
                if fa:
                    return self.module_const(fa[0].module, ci.name + '.' + name, fa[1])
                return T('attr', o, name)
            if ci is not None:
                fm = ci.find(name)
                if fm:
                    fn = self.mkfunc(fm[1], None, fm[0].module, fm[0])
                    if name in fm[0].props:
                        return self.call_func(fn, [o], {})
                    if name in fm[0].statics:
                        return fn
                    return T('bound', o, fn)
                fa = ci.find_attr(name)
                if fa and not self._instance_assigned(ci, name):
                    return self.module_const(fa[0].module, ci.name + '.' + name, fa[1])
            if o.op == 'vec' and name == 'T':
                if all(r.op == 'vec' for r in o.args) and o.args and len(set(len(r.args) for r in o.args)) == 1:
                    return T('vec', *[T('vec', *[r.args[j] for r in o.args]) for j in range(len(o.args[0].args))])
                return o
            if self.extra and o.op == 'vec' and name == 'size' and (not o.args or all(x.op != 'vec' for x in o.args) or
                                                                    len(set(len(x.args) if x.op == 'vec' else -1 for x in o.args)) == 1 and all(y.op != 'vec' for x in o.args for y in x.args)):
                return num(sum(len(x.args) if x.op == 'vec' else 1 for x in o.args))
            if o.op == 'vec' and name == 'shape':
                if o.args and all(r.op == 'vec' for r in o.args):
                    return T('tuple', num(len(o.args)), num(len(o.args[0].args)))
                return T('tuple', num(len(o.args)))
            if self.hget(o) is not None or o.op in ('str', 'concat', 'tuple', 'list', 'vec', 'dictitems'):
                return T('builtinmethod', o, name)
            t = T('attr', o, name)
            if ci is not None:
                for c in ci.mro():
                    ty = self.attr_types.get((c.name, name))
                    if ty is not None and not isinstance(ty, list):
                        self.types.setdefault(t, self.prog.cls(ty))
                        break
            return t
        return self.distribute(obj, f) if obj.op == 'ite' else f(obj)

    def _instance_assigned(self, ci, name):
        for c in ci.mro():
            for fn in c.methods.values():
                for x in ast.walk(fn):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == name:
                        return True
        return False

    def eval_index(self, sl, frame):
        if isinstance(sl, ast.Slice):
            return T('slice', *[self.eval(x, frame) if x is not None else NONE for x in (sl.lower, sl.upper, sl.step)])
        if isinstance(sl, ast.Tuple):
            return T('tuple', *[self.eval_index(x, frame) for x in sl.elts])
        if sl.__class__.__name__ == 'Index':
            return self.eval_index(sl.value, frame)
        return self.eval(sl, frame)

    def ex_Slice(self, e, frame):
        return self.eval_index(e, frame)

    def ex_Subscript(self, e, frame):
        b = self.eval(e.value, frame)
        if b.op == 'ext' and b.args[0] in ('r_', 'c_'):
            ix = self.eval_index(e.slice, frame)
            parts = list(ix.args) if ix.op == 'tuple' else [ix]
            return self.cat(parts) if b.args[0] == 'r_' else self.colstack(parts)
        return self.getitem(b, self.eval_index(e.slice, frame))

    def cat(self, parts):
        parts = [self.to_vec(p) if self.concrete_items(p) is not None and p.op != 'str' else self.freeze(p) for p in parts]
        out = []
        for p in parts:
            if p.op == 'vec':
                out += list(p.args)
            elif self.surely_scalar(p):
                out.append(p)
            elif p.op == 'cat':
                out += list(p.args)
            else:
                out.append(T('part', p))
        if any(p.op == 'part' for p in out):
            if len(out) == 1:
                return out[0].args[0]
            return T('cat', *out)
        return T('vec', *out)

    def surely_scalar(self, p):
        if tm.is_num(p) or p.op in ('pos', 'sin', 'cos', 'sqrt', 'norm', 'arctan2', 'inf', 'arctan', 'tan', 'scalar'):
            return True
        if p.op == 'getitem' and (numval(p.args[1]) is not None):
            # x[0] of an unknown: treated as scalar when indexing a 1-D attribute
            return True
        if p.op == 'poly':
            return all(self.surely_scalar(a) for m, c in p.args for a, e in m)
        if p.op == 'ite':
            return self.surely_scalar(p.args[1]) and self.surely_scalar(p.args[2])
        if p.op == 'evalspl' or p.op == 'sym':
            return True
        if p.op == 'mcall' and p.args[0].op == 'str' and p.args[0].args[0] in ('define_symbol', 'define_parameter', 'define_variable'):
            return len(p.args) > 4 and p.args[3] is ONE and p.args[4] is ONE
        return False

    def colstack(self, parts):
        h = (self.extra or {}).get('<colstack>')
        r = h(self, parts) if h is not None else None
        if r is not None:
            return r
        vs = [self.to_vec(p) if self.concrete_items(p) is not None else p for p in parts]
        if len(vs) == 1:
            if vs[0].op == 'vec' and not any(x.op == 'vec' for x in vs[0].args):
                return T('vec', *[T('vec', x) for x in vs[0].args])
            return vs[0]
        return call('colstack', *vs)

    def getitem(self, b, i):
        def f(b, i):
            if self.extra and b.op == 'obj' and self.operator(b, '__getitem__') is not None:
                return self.call_func(self.operator(b, '__getitem__'), [b, i], {})
            k = ('i', b, i)
            if k in self.st:
                return self.st[k]
            c = self.hget(b)
            if c is not None:
                if c.op == 'ite':
                    cc = condatom(c.args[0])
                    return ite(cc, self._cget(b, c.args[1], i), self._cget(b, c.args[2], i))
                return self._cget(b, c, i)
            n = numval(i) if i.op == 'poly' else None
            if self.extra and b.op == 'vec' and self.gather(b, i) is not None:
                return self.gather(b, i)
            if b.op in ('tuple', 'list', 'vec'):
                if n is not None and n.denominator == 1:
                    n = int(n)
                    if -len(b.args) <= n < len(b.args):
                        return b.args[n]
                    return T('unknown', mkstr('index'))
                if i.op == 'slice':
                    r = self.slice_args(b.args, i)
                    if r is not None:
                        if b.op == 'list':
                            return self.new_list(r)
                        return T(b.op, *r)
                if i.op == 'tuple' and b.op == 'vec':
                    return self.multi_index(b, i.args)
            if b.op == 'str' and n is not None and n.denominator == 1 and -len(b.args[0]) <= n < len(b.args[0]):
                return mkstr(b.args[0][int(n)])
            if b.op == 'clist' or b.op == 'dict':
                r = self._frozen_get(b, i)
                if r is not None:
                    return r
            fr = T('getitem', self.freeze(b), self.freeze(i))
            # full slices are copies
            self.type_elem(fr.args[0], fr)
            return fr
        return lift(f, b, i)

    def _frozen_get(self, b, i):
        if b.op == 'dict':
            for x in b.args[1:]:
                if x.op == 'kv' and x.args[0] is i:
                    return x.args[1]
            return None
        if len(b.args) == 1 and b.args[0].op == 'comp':
            c = b.args[0]
            if len(c.args) == 2 and c.args[1].op == 'one':
                idx = c.args[0]
                return tm.substitute(c.args[1].args[0], {idx: i})
        return None

    def gather(self, b, i):
        """an array indexed by an array or a list of integers"""
        its = i.args if i.op == 'vec' else self.concrete_items(i) if self.is_list(i) else None
        if its is None:
            return None
        ns = [numval(x) if x.op == 'poly' else None for x in its]
        if any(n is None or n.denominator != 1 or not -len(b.args) <= n < len(b.args) for n in ns):
            return None
        return T('vec', *[b.args[int(n)] for n in ns])

    def multi_index(self, b, ixs):
        if self.extra and len(ixs) == 2 and b.op == 'vec' and ixs[0].op == 'slice' and (ixs[1].op == 'vec' or self.is_list(ixs[1])) \
                and all(r.op == 'vec' for r in b.args):
            rs = [self.gather(r, ixs[1]) for r in (self.slice_args(b.args, ixs[0]) or ())]
            if rs and all(r is not None for r in rs):
                return T('vec', *rs)
        if not ixs:
            return b
        i = ixs[0]
        n = numval(i)
        if n is not None and n.denominator == 1 and -len(b.args) <= n < len(b.args):
            x = b.args[int(n)]
            if len(ixs) == 1:
                return x
            if x.op == 'vec':
                return self.multi_index(x, ixs[1:])
            return T('getitem', x, ixs[1] if len(ixs) == 2 else T('tuple', *ixs[1:]))
        if i.op == 'slice':
            r = self.slice_args(b.args, i)
            if r is not None:
                if len(ixs) == 1:
                    return T('vec', *r)
                return T('vec', *[self.multi_index(x, ixs[1:]) if x.op == 'vec' else
                                  (x if False else T('getitem', x, ixs[1] if len(ixs) == 2 else T('tuple', *ixs[1:]))) for x in r])
        return T('getitem', b, T('tuple', *ixs))

    def slice_args(self, args, sl):
        vals = []
        for x in sl.args:
            if x is NONE:
                vals.append(None)
            else:
                n = numval(x)
                if n is None or n.denominator != 1:
                    return None
                vals.append(int(n))
        return list(args[slice(*vals)])

    def _cget(self, b, c, i):
        if c.op == 'ite':
            return ite(condatom(c.args[0]), self._cget(b, c.args[1], i), self._cget(b, c.args[2], i))
        if c.op == 'Lst':
            n = numval(i) if i.op == 'poly' else None
            if n is not None and n.denominator == 1:
                n = int(n)
                args = c.args
                if n >= 0 and n < len(args) and all(x.op == 'one' for x in args[:n + 1]):
                    return args[n].args[0]
                if n < 0 and -n <= len(args) and all(x.op == 'one' for x in args[n:]):
                    return args[n].args[0]
                if len(args) >= 1 and args[0].op == 'splat' and n >= 0:
                    if len(args) == 1:
                        return self.getitem(args[0].args[0], i) if args[0].args[0] is not b else self.typed_elem(b, i)
                if n < 0 and args and args[-1].op == 'comp' and len(args[-1].args) == 2 and args[-1].args[1].op == 'one':
                    return T('lastitem', T('clist', *[self._freeze_item(x, 0) for x in args]), i)
            if i.op == 'slice' and all(x.op == 'one' for x in c.args):
                r = self.slice_args(c.args, i)
                if r is not None:
                    return self.alloc(T('Lst', *r))
            if i.op == 'slice' and i.args[0] is NONE and i.args[1] is NONE and i.args[2] is NONE:
                return self.alloc(c)
            if len(c.args) == 1 and c.args[0].op == 'comp':
                r = self._frozen_get(T('clist', c.args[0]), i)
                if r is not None:
                    return r
            if len(c.args) == 1 and c.args[0].op == 'splat':
                if c.args[0].args[0] is b:
                    return self.typed_elem(b, i)
                return self.getitem(c.args[0].args[0], i)
            return T('getitem', self.freeze(b), self.freeze(i))
        if c.op == 'Dct':
            d = self.dct(c)
            if i in d:
                return d[i]
            if c.args[0] is not NONE:
                return call('getitem', c.args[0], self.freeze(i))
            for x in c.args[1:]:
                if x.op == 'dcomp':
                    if x.args[2] is i:
                        return x.args[3]
            return T('getitem', self.freeze(b), self.freeze(i))
        return T('getitem', self.freeze(b), self.freeze(i))

    def materialise(self, b, kind):
        """first mutation of a symbolic container"""
        if self.hget(b) is None:
            if kind == 'Lst':
                self.st[('h', b)] = T('Lst', T('splat', b))
            else:
                self.st[('h', b)] = T('Dct', b)
        return self.hget(b)

    def setitem(self, b, i, v, base_expr, frame):
        def f(o):
            if self.extra and o.op == 'obj' and self.operator(o, '__setitem__') is not None:
                self.call_func(self.operator(o, '__setitem__'), [o, i, v], {})
                return
            self.event('setitem', o, [i, v])
            c = self.hget(o)
            if c is not None and c.op == 'Dct':
                self.dict_set(o, i, v)
                return
            if c is not None and c.op == 'Lst':
                n = numval(i) if i.op == 'poly' else None
                if n is not None and n.denominator == 1 and all(x.op == 'one' for x in c.args) and -len(c.args) <= n < len(c.args):
                    items = list(c.args)
                    items[int(n)] = T('one', v)
                    self.st[('h', o)] = T('Lst', *items)
                    return
                fr = self._freeze_container(c, 0)
                self.st[('h', o)] = T('Lst', T('splat', call('upd', fr, self.freeze(i), self.freeze(v))))
                return
            if self.extra and o.op == 'vec' and i.op == 'vec' and self.extra.get('<mask>') is not None:
                new = self.extra['<mask>'](self, o, i, v)
                if new is not None:
                    self.rebind(base_expr, o, new, frame)
                    return
            if o.op == 'vec':
                new = self.vec_store(o, i, self.freeze(v) if self.hget(v) is not None or v.op == 'ite' else v)
                self.rebind(base_expr, o, new, frame)
                return
            if o.op in ('sym', 'attr', 'getitem', 'ref', 'obj', 'mcall') and i.op not in ('slice', 'tuple'):
                self.st[('i', o, i)] = v
                return
            if o.op in ('sym', 'attr', 'ref', 'obj'):
                self.st[('i', o, i)] = v
                return
            new = call('upd', o, self.freeze(i), self.freeze(v))
            self.rebind(base_expr, o, new, frame)
        self.distribute(b, f)

    def rebind(self, e, old, new, frame):
        if isinstance(e, ast.Name):
            k = ('v', frame.env, e.id)
            self.st[k] = new
        elif isinstance(e, ast.Attribute):
            o = self.eval(e.value, frame)
            self.st[('f', o, e.attr)] = new
        elif isinstance(e, ast.Subscript):
            b = self.eval(e.value, frame)
            i = self.eval_index(e.slice, frame)
            self.setitem(b, i, new, e.value, frame)

    def element(self, v, q):
        """entry q of a frozen sequence, per case"""
        if v.op == 'ite':
            return ite(v.args[0], self.element(v.args[1], q), self.element(v.args[2], q))
        if v.op in ('vec', 'list', 'tuple') and q < len(v.args) and all(isinstance(x, Term) and x.op not in ('splat', 'gen') for x in v.args):
            return v.args[q]
        return T('getitem', v, num(q))

    def vec_store(self, o, i, v):
        n = numval(i) if i.op == 'poly' else None
        if n is not None and n.denominator == 1 and -len(o.args) <= n < len(o.args):
            a = list(o.args)
            a[int(n)] = v
            return T('vec', *a)
        if i.op == 'tuple' and len(i.args) == 2 and all(x.op == 'vec' for x in i.args) and \
                all(numval(y) is not None for x in i.args for y in x.args) and len(i.args[0].args) == len(i.args[1].args):
            for q, (r, c) in enumerate(zip(i.args[0].args, i.args[1].args)):
                o = self.vec_store(o, T('tuple', r, c), v.args[q] if v.op == 'vec' and len(v.args) == len(i.args[0].args) else v)
            return o
        if i.op == 'tuple' and len(i.args) >= 1:
            n = numval(i.args[0])
            if n is not None and -len(o.args) <= n < len(o.args) and o.args[int(n)].op == 'vec':
                a = list(o.args)
                rest = i.args[1] if len(i.args) == 2 else T('tuple', *i.args[1:])
                a[int(n)] = self.vec_store(a[int(n)], rest, v)
                return T('vec', *a)
            if i.args[0].op == 'slice' and all(r.op == 'vec' for r in o.args):
                rows = self.slice_args(list(range(len(o.args))), i.args[0]) if True else None
                if rows is not None and len(i.args) == 2:
                    a = list(o.args)
                    vv = self.to_vec(v)
                    for q, r in enumerate(rows):
                        x = vv.args[q] if vv.op == 'vec' and len(vv.args) == len(rows) else (self.element(vv, q) if not tm.is_num(vv) else vv)
                        a[r] = self.vec_store(a[r], i.args[1], x)
                    return T('vec', *a)
        if i.op == 'slice':
            idxs = self.slice_args(list(range(len(o.args))), i)
            vv = self.to_vec(v)
            if idxs is not None:
                a = list(o.args)
                for q, r in enumerate(idxs):
                    if vv.op == 'vec' and len(vv.args) == len(idxs):
                        a[r] = vv.args[q]
                    elif tm.is_num(vv):
                        a[r] = vv
                    else:
                        a[r] = T('getitem', vv, num(q))
                return T('vec', *a)
        return call('upd', o, self.freeze(i), self.freeze(v))

    def dict_set(self, d, k, v):
        k = self.freeze(k)
        c = self.hget(d)
        items = []
        done = False
        for x in c.args[1:]:
            if x.op == 'kv' and x.args[0] is k:
                items.append(T('kv', k, v))
                done = True
            else:
                items.append(x)
        if not done:
            items.append(T('kv', k, v))
        self.st[('h', d)] = T('Dct', c.args[0], *items)

    def dict_update(self, d, o):
        c = self.hget(o)
        if c is not None and c.op == 'Dct':
            if c.args[0] is not NONE:
                mine = self.hget(d)
                if len(mine.args) == 1 and mine.args[0] is NONE:
                    self.st[('h', d)] = T('Dct', c.args[0])
                else:
                    self._overlay(d, c.args[0])
            for x in c.args[1:]:
                if x.op == 'kv':
                    self.dict_set(d, x.args[0], x.args[1])
                else:
                    m = self.hget(d)
                    self.st[('h', d)] = T('Dct', *(m.args + (x,)))
            return
        if o.op == 'dict':
            for x in o.args[1:]:
                if x.op == 'kv':
                    self.dict_set(d, x.args[0], x.args[1])
            return
        its = self.concrete_items(o) if c is not None and c.op != 'Dct' or o.op in ('list', 'tuple') else None
        pairs = [self.concrete_items(x) for x in its] if its is not None else [None]
        if all(x is not None and len(x) == 2 for x in pairs):
            for k, v in pairs:
                self.dict_set(d, k, v)
            return
        self._overlay(d, self.freeze(o))

    def _overlay(self, d, o):
        """update with an unknown dict: every known key becomes ite(key in o, o[key], old)"""
        c = self.hget(d)
        items = []
        for x in c.args[1:]:
            if x.op == 'kv':
                k = x.args[0]
                items.append(T('kv', k, ite(condatom(T('in', k, o)), T('getitem', o, k), x.args[1])))
            else:
                items.append(x)
        base = o if c.args[0] is NONE else T('merged', c.args[0], o)
        self.st[('h', d)] = T('Dct', base, *items)

    # comprehensions -------------------------------------------------------
    def ex_ListComp(self, e, frame):
        r = self.new_list()
        self.comp(e.generators, 0, frame, lambda fr: self.list_append(r, self.eval(e.elt, fr)))
        return r

    def ex_GeneratorExp(self, e, frame):
        return self.ex_ListComp(e, frame)

    def ex_SetComp(self, e, frame):
        r = self.new_list()
        self.comp(e.generators, 0, frame, lambda fr: self.list_append(r, self.eval(e.elt, fr)))
        return call('setof', self.freeze(r))

    def ex_DictComp(self, e, frame):
        r = self.new_dict()

        def put(fr):
            k = self.eval(e.key, fr)
            self.dict_set(r, k, self.eval(e.value, fr))
        self.comp(e.generators, 0, frame, put)
        return r

    def comp(self, gens, k, frame, leaf):
        self.nenv += 1
        fr = Frame(self.nenv, frame.module, frame.cls, frame.fn, frame, frame.qual)
        self._comp(gens, k, fr, leaf)

    def _comp(self, gens, k, fr, leaf):
        if k == len(gens):
            leaf(fr)
            return
        g = gens[k]
        it = self.eval(g.iter, fr)
        this = self

        class Body(object):
            pass
        # run the rest as a synthetic loop body
        node = _CompBody()
        node.run = lambda: this._comp_inner(gens, k, fr, leaf)
        outs = self.for_over(it, lambda x: self.assign(g.target, x, fr), [node], [], fr)
        norm = [o for o in outs if o.kind == 'normal']
        if not norm:
            raise AlwaysRaises('?')
        self.st = self.join_states([o.rel for o in norm], [o.st for o in norm])
        pc = FALSE
        for o in norm:
            pc = bor(pc, o.pc)
        self.pc = pc

    def _comp_inner(self, gens, k, fr, leaf):
        c = TRUE
        for cond in gens[k].ifs:
            c = band(c, self.truth_of(self.eval(cond, fr)))
        c = self.simplify(c)
        if c is TRUE:
            self._comp(gens, k + 1, fr, leaf)
            return None
        if c is FALSE:
            return None
        st0, pc0 = self.st, self.pc
        self.st, self.pc = dict(st0), band(pc0, c)
        self._comp(gens, k + 1, fr, leaf)
        sa, pa = self.st, self.pc
        self.st = self.join_states([c, bnot(c)], [sa, dict(st0)])
        self.pc = pc0
        return None

    def st__CompBody(self, s, frame):
        return s.run()

    def list_append(self, r, v):
        c = self.hget(r)
        if c is None:
            c = self.materialise(r, 'Lst')
        if c.op == 'ite':
            self.st[('h', r)] = lift(lambda x: T('Lst', *(x.args + (T('one', v),))), c)
            return
        self.st[('h', r)] = T('Lst', *(c.args + (T('one', v),)))

    def list_extend(self, r, v):
        c = self.hget(r)
        if c is None:
            c = self.materialise(r, 'Lst')
        o = self.hget(v)
        if v.op == 'ite' or (o is not None and o.op == 'ite'):
            items = (T('splat', self.freeze(v)),)
        elif o is not None and o.op == 'Lst':
            items = o.args
        else:
            its = self.concrete_items(v)
            if its is not None:
                items = tuple(T('one', x) for x in its)
            elif v.op == 'clist':
                items = v.args
            else:
                items = (T('splat', self.freeze(v)),)
        if c.op == 'ite':
            self.st[('h', r)] = lift(lambda x: T('Lst', *(x.args + items)), c)
        else:
            self.st[('h', r)] = T('Lst', *(c.args + items))

    # calls -----------------------------------------------------------------
    def ex_Starred(self, e, frame):
        return self.eval(e.value, frame)

    def ex_Call(self, e, frame):
        # super().f(...)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and \
                isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super' and frame_cls(frame) is not None:
            fr = frame
            while fr.fn is None or not getattr(fr.fn, 'args', None) or not fr.fn.args.args:
                fr = fr.parent
            slf = self.lookup(fr, fr.fn.args.args[0].arg)
            mro = (self.types.get(slf) or frame_cls(frame)).mro()
            c = frame_cls(frame)
            rest = mro[mro.index(c) + 1:] if c in mro else c.mro()[1:]
            for b in rest:
                if e.func.attr in b.methods:
                    fn = self.mkfunc(b.methods[e.func.attr], None, b.module, b)
                    args, kw = self.call_args(e, frame)
                    return self.call_func(fn, [slf] + args, kw)
            return T('unknown', mkstr('super'))
        fv = self.eval(e.func, frame)
        args, kw = self.call_args(e, frame)
        save = self.cur
        r = self.apply(fv, args, kw, e, frame)
        self.cur = save
        return r

    def call_args(self, e, frame):
        args = self.elts(e.args, frame)
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, frame)
            if k.arg is None:
                c = self.hget(v)
                d = None
                if c is not None and c.op == 'Dct':
                    d = self.dct(c)
                    if c.args[0] is not NONE:
                        kw['**'] = c.args[0]
                if d is None:
                    kw['**'] = self.freeze(v)
                else:
                    for kk, vv in d.items():
                        if kk.op == 'str':
                            kw[kk.args[0]] = vv
            else:
                kw[k.arg] = v
        return args, kw

    def apply(self, fv, args, kw, node=None, frame=None):
        if fv.op == 'ite':
            return self.distribute(fv, lambda f: self.apply(f, args, kw, node, frame))
        if fv.op == 'func':
            return self.call_func(fv, args, kw)
        if fv.op == 'bound':
            return self.call_func(fv.args[1], [fv.args[0]] + args, kw)
        if fv.op == 'class':
            return self.instantiate(fv, args, kw)
        if fv.op == 'ext':
            return self.call_ext(fv.args[0], args, kw, node, frame)
        if fv.op == 'builtinmethod':
            return self.call_builtin_method(fv.args[0], fv.args[1], args, kw, node, frame)
        if fv.op == 'attr':
            return self.call_unknown_method(fv.args[0], fv.args[1], args, kw, node, frame)
        fargs = [self.freeze(a) for a in args]
        if fv.op == 'new' and fv.args[0] is mkstr('BSpline') and len(fv.args) > 2 and fv.args[2].op == 'vec' and fv.args[2].args and fargs:
            # a clamped spline takes its first/last coefficient at the ends of its domain [0, 1]
            if fargs[0] is ONE:
                return fv.args[2].args[-1]
            if fargs[0] is ZERO:
                return fv.args[2].args[0]
        if self.extra:
            ci = self.types.get(fv)
            f2 = ci.find('__call__') if ci is not None else None
            if f2 is not None:
                return self.call_func(self.mkfunc(f2[1], None, f2[0].module, f2[0]), [fv] + list(args), kw)
        self.event('<call>', fv, fargs, kw)
        return call('call', self.freeze(fv), *(fargs + self.kwterms(kw)))

    def kwterms(self, kw):
        return [T('kwarg', k, self.freeze(v)) for k, v in sorted(kw.items())]

    LIST_METHODS = ('append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'sort')

    def call_unknown_method(self, o, name, args, kw, node, frame):
        q = '.' + name
        m = self.models.get(q)
        if m is not None:
            r = m(self, o, args, kw)
            if r is not None:
                return r
        fargs = [self.freeze(a) for a in args]
        if name == 'append' and len(args) == 1 and not kw:
            self.event('append', o, args)
            self.materialise(o, 'Lst')
            self.list_append(o, args[0])
            return NONE
        if name == 'extend' and len(args) == 1:
            self.event('extend', o, args)
            self.materialise(o, 'Lst')
            self.list_extend(o, args[0])
            return NONE
        if name == 'update' and len(args) == 1 and not kw and (self.hget(args[0]) is not None and self.hget(args[0]).op == 'Dct'):
            self.event('update', o, args)
            self.materialise(o, 'Dct')
            self.dict_update(o, args[0])
            return NONE
        if name == 'items' and not args:
            return T('dictitems', o)
        if name == 'keys' and not args:
            return T('dictkeys', o)
        if name == 'values' and not args:
            return T('dictvalues', o)
        if name == 'get' and len(args) in (1, 2) and args[0].op in ('str', 'concat'):
            dflt = args[1] if len(args) == 2 else NONE
            return ite(condatom(T('in', args[0], o)), self.getitem(o, args[0]), dflt)
        if name == 'copy' and not args:
            return o
        if name == 'dot' and len(args) == 1:
            return self.dot(o, args[0])
        if name in ('pop', 'insert', 'remove', 'sort', 'reverse', 'clear', 'popitem', 'setdefault', 'add'):
            self.event(name, o, args, kw)
            r = call('mcall', mkstr(name), self.freeze(o), *(fargs + self.kwterms(kw)))
            self.st[('h', o)] = T('Lst', T('splat', call('after', mkstr(name), self.freeze(o), *fargs)))
            return r
        self.event('.' + name, o, args, kw)
        t = call('mcall', mkstr(name), self.freeze(o), *(fargs + self.kwterms(kw)))
        rm = self.ret_models.get('obj:' + name)
        return rm(self, t, args) if rm is not None else t

    def call_builtin_method(self, o, name, args, kw, node, frame):
        if self.extra and self.models.get('.' + name) is not None:
            r = self.models['.' + name](self, o, args, kw)
            if r is not None:
                return r
        if self.extra and name == 'tolist' and o.op == 'vec' and not args:
            return self.new_list([self.call_builtin_method(x, name, [], {}, node, frame) if x.op == 'vec' else x for x in o.args])
        if self.extra and name == 'sort' and self.is_list(o) and not args and not kw and self.concrete_items(o) is not None:
            r = self.extra['sorted'](self, [o], {})
            if r is not None:
                self.st[('h', o)] = self.hget(r)
                return NONE
        c = self.hget(o)
        fargs = [self.freeze(a) for a in args]
        if o.op in ('str', 'concat'):
            if name == 'format' and o.op == 'str':
                parts, i, k = [], 0, 0
                import re
                ok = True
                for m in re.finditer(r'\{(\d*|\w*)\}', o.args[0]):
                    parts.append(mkstr(o.args[0][i:m.start()]))
                    i = m.end()
                    key = m.group(1)
                    if key == '':
                        x = fargs[k] if k < len(fargs) else None
                        k += 1
                    elif key.isdigit():
                        x = fargs[int(key)] if int(key) < len(fargs) else None
                    else:
                        x = self.freeze(kw[key]) if key in kw else None
                    if x is None:
                        ok = False
                        break
                    parts.append(str_of(x))
                if ok:
                    parts.append(mkstr(o.args[0][i:]))
                    return concat(*parts)
            if name == 'join':
                its = self.concrete_items(args[0]) if args else None
                if its is not None:
                    parts = []
                    for q, x in enumerate(its):
                        if q:
                            parts.append(o)
                        parts.append(x)
                    return concat(*parts) if parts else mkstr('')
            if o.op == 'str' and not kw and all(a.op == 'str' for a in fargs) and name in ('lower', 'upper', 'strip', 'replace', 'startswith', 'endswith'):
                r = getattr(o.args[0], name)(*[a.args[0] for a in fargs])
                return mkbool(r) if isinstance(r, bool) else mkstr(r)
            return call('strjoin' if name == 'join' else 'strm', mkstr(name), o, *fargs)
        if c is not None and c.op == 'Dct' or o.op == 'dict':
            if name == 'items':
                return T('dictitems', o)
            if name == 'keys':
                return T('dictkeys', o)
            if name == 'values':
                return T('dictvalues', o)
            if name == 'update':
                self.event('update', o, args, kw)
                if args:
                    self.dict_update(o, args[0])
                for k, v in kw.items():
                    self.dict_set(o, mkstr(k), v)
                return NONE
            if name == 'get':
                dflt = args[1] if len(args) == 2 else NONE
                return ite(self.contains(args[0], o), self.getitem(o, args[0]), dflt)
            if name == 'copy':
                return self.alloc(c) if c is not None else o
            if name == 'setdefault' and len(args) == 2:
                v = ite(self.contains(args[0], o), self.getitem(o, args[0]), args[1])
                self.dict_set(o, args[0], v)
                return v
            if name == 'pop':
                v = ite(self.contains(args[0], o), self.getitem(o, args[0]), args[1]) if len(args) == 2 else self.getitem(o, args[0])
                cc = self.hget(o)
                if cc is not None:
                    self.st[('h', o)] = T('Dct', cc.args[0], *[x for x in cc.args[1:] if not (x.op == 'kv' and x.args[0] is fargs[0])])
                return v
        if c is not None and (c.op == 'Lst' or c.op == 'ite'):
            if name == 'append' and len(args) == 1:
                self.event('append', o, args)
                self.list_append(o, args[0])
                return NONE
            if name == 'extend' and len(args) == 1:
                self.event('extend', o, args)
                self.list_extend(o, args[0])
                return NONE
            if name == 'copy':
                return self.alloc(c)
            its = self.concrete_items(o)
            self.event(name, o, args)
            if its is not None:
                n = numval(args[0]) if args else None
                if name == 'pop' and (not args or n is not None):
                    n = int(n) if args else -1
                    if -len(its) <= n < len(its):
                        x = its.pop(n)
                        self.st[('h', o)] = T('Lst', *[T('one', y) for y in its])
                        return x
                if name == 'insert' and n is not None:
                    its.insert(int(n), args[1])
                    self.st[('h', o)] = T('Lst', *[T('one', y) for y in its])
                    return NONE
                if name == 'reverse':
                    self.st[('h', o)] = T('Lst', *[T('one', y) for y in its[::-1]])
                    return NONE
                if name == 'clear':
                    self.st[('h', o)] = T('Lst')
                    return NONE
                if name == 'remove' and len(args) == 1:
                    eqs = []
                    for y in its:
                        eqs.append(TRUE if y is args[0] else tm.eq(self.freeze(y), self.freeze(args[0])))
                        if eqs[-1] is not FALSE:
                            break
                    if eqs and eqs[-1] is TRUE:
                        self.st[('h', o)] = T('Lst', *[T('one', y) for q, y in enumerate(its) if q != len(eqs) - 1])
                        return NONE
                if name == 'index':
                    for q, y in enumerate(its):
                        if y is args[0]:
                            return num(q)
            if name == 'insert' and numval(args[0]) == 0 and c.op == 'Lst':
                self.st[('h', o)] = T('Lst', T('one', args[1]), *c.args)
                return NONE
            if name == 'pop' and args and numval(args[0]) == 0 and c.op == 'Lst' and c.args and c.args[0].op == 'one':
                self.st[('h', o)] = T('Lst', *c.args[1:])
                return c.args[0].args[0]
            fr = self.freeze(o)
            if name in ('pop', 'insert', 'remove', 'reverse', 'sort', 'clear'):
                self.st[('h', o)] = T('Lst', T('splat', call('after', mkstr(name), fr, *fargs)))
            return call('mcall', mkstr(name), fr, *(fargs + self.kwterms(kw)))
        if o.op == 'vec':
            if name == 'dot':
                return self.dot(o, self.arr(args[0]))
            if name in ('copy', 'flatten', 'ravel', 'squeeze') and not any(x.op == 'vec' for x in o.args):
                return o
            if name == 'tolist':
                return self.new_list(o.args)
            if name in ('toarray', 'copy') and not args:
                return o
            if name == 'multiply' and len(args) == 1 and args[0].op == 'vec':
                return self.elementwise(mul, o, args[0])
            if name in ('sum', 'min', 'max', 'mean') and not args and not kw:
                return self.call_ext(name, [o], {}, node, frame)
        self.event('.' + name, o, args, kw)
        return call('mcall', mkstr(name), self.freeze(o), *(fargs + self.kwterms(kw)))

    def instantiate(self, ct, args, kw):
        ci = self.types[ct]
        q = ci.qual
        m = self.models.get(ci.name) or self.models.get(q)
        if m is not None:
            r = m(self, ct, args, kw)
            if r is not None:
                return r
        pol = self.policy(q)
        init = ci.find('__init__')
        fargs = [self.freeze(a) for a in args]
        if pol == 'inline' and init is not None and len(self.stack) < self.max_depth:
            self.nref += 1
            o = T('obj', self.nref, ci.name)
            self.types[o] = ci
            if ci.find('__eq__') is not None or ci.find('__ne__') is not None:
                tm.OWN_EQ.add(ci.name)
            fn = self.mkfunc(init[1], None, init[0].module, init[0])
            self.call_func(fn, [o] + list(args), kw)
            return o
        if init is not None:
            b = self.bind_params(init[1], [NONE] + list(args), kw, init[0].module, None, skip_defaults=False)
            if b is not None:
                names = [a.arg for a in init[1].args.args][1:]
                fargs = [self.freeze(b[n]) for n in names]
                kw = {}
        t = call('new', mkstr(ci.name), *(fargs + self.kwterms(kw)))
        self.event('new ' + ci.name, None, args if init is None else fargs, kw, ret=t)
        self.distribute(t, lambda x: self.types.setdefault(x, ci))
        return t

    def bind_params(self, node, args, kw, module, frame, skip_defaults=False):
        """-> dict name->Term (None if the call does not bind)"""
        a = node.args
        names = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        res = {}
        if len(args) > len(names) and a.vararg is None:
            return None
        for n, v in zip(names, args):
            res[n] = v
        if a.vararg is not None:
            res[a.vararg.arg] = T('tuple', *args[len(names):])
        kwrest = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in res:
                    return None
                res[k] = v
            elif k == '**':
                kwrest[k] = v
            elif a.kwarg is not None:
                kwrest[k] = v
            else:
                return None
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs[x.arg] = d
            names = names + [x.arg]
        for n in names:
            if n not in res:
                if n in defs:
                    f = frame or Frame(-1, module, None, None, None, module.name)
                    v = self.eval(defs[n], f)
                    if '**' in kwrest:
                        k = kwrest['**']
                        v = ite(condatom(T('in', mkstr(n), k)), T('getitem', k, mkstr(n)), v)
                    res[n] = v
                elif '**' in kwrest:
                    res[n] = T('getitem', kwrest['**'], mkstr(n))
                else:
                    return None
        if a.kwarg is not None:
            base = kwrest.pop('**', NONE)
            d = self.alloc(T('Dct', base))
            for k, v in kwrest.items():
                self.dict_set(d, mkstr(k), v)
            res[a.kwarg.arg] = d
        return res

    def call_func(self, fn, args, kw, force=False):
        node, dframe, module, cls = self.funcs[fn]
        name = getattr(node, 'name', '<lambda>')
        qual = module.name + '.' + (cls.name + '.' if cls and dframe is None else '') + name
        if not force:
            for key in (qual, (cls.name + '.' + name) if cls else name, '.' + name):
                m = self.models.get(key)
                if m is not None:
                    r = m(self, args[0] if (cls and args) else None, args[1:] if cls else args, kw)
                    if r is not None:
                        return r
        pol = 'inline' if (force or dframe is not None) else self.policy(qual)
        rec = sum(1 for f in self.stack if f.fn is node)
        b = self.bind_params(node, args, kw, module, dframe)
        if b is None:
            self.event('<badcall>', None, [mkstr(qual)])
            return T('unknown', mkstr('badcall ' + qual))
        if pol != 'inline' or rec >= (6 if self.extra else 2) or len(self.stack) >= self.max_depth:
            isbound = cls is not None and dframe is None and node.args.args and name not in cls.statics
            names = [x.arg for x in node.args.posonlyargs + node.args.args]
            recv = None
            if isbound:
                recv = b[names[0]]
                names = names[1:]
            bound = {n: b[n] for n in names if n in b}
            for x in node.args.kwonlyargs:
                bound[x.arg] = b[x.arg]
            if node.args.vararg is not None:
                bound['*' + node.args.vararg.arg] = b[node.args.vararg.arg]
            if node.args.kwarg is not None:
                bound['**' + node.args.kwarg.arg] = b[node.args.kwarg.arg]
            order = [bound[n] for n in names] + [bound[k] for k in sorted(bound) if k not in names]
            fr = [self.freeze(x) for x in order]
            if recv is not None:
                t = call('mcall', mkstr(name), self.freeze(recv), *fr)
            else:
                t = call('fcall', mkstr(name), *fr)
            if pol != 'pure':
                self.event(('.' if recv is not None else '') + name, recv, [], bound, ret=t)
            rm = self.ret_models.get(name)
            self.last_recv = recv
            return rm(self, t, bound) if rm is not None else t
        self.visited.add(qual)
        self.nenv += 1
        env = self.nenv
        fr = Frame(env, module, cls if dframe is None else dframe.cls, node, dframe, qual)
        for n, v in b.items():
            self.st[('v', env, n)] = v
        if isinstance(node, ast.Lambda):
            self.stack.append(fr)
            try:
                return self.eval(node.body, fr)
            finally:
                self.stack.pop()
        fr.locals_ = local_names(node)
        if len(self.stack) > self.max_depth + 4:
            return T('unknown', mkstr('depth'))
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
            return T('unknown', mkstr('generator'))
        self.stack.append(fr)
        cur = self.cur
        st_before = self.st
        pc0 = self.pc
        try:
            outs = self.exec_block(node.body, fr)
        finally:
            self.stack.pop()
            self.cur = cur
        good = [o for o in outs if o.kind in ('normal', 'return') and o.rel is not FALSE]
        if not good:
            raise AlwaysRaises('?')
        self.st = self.join_states([o.rel for o in good], [o.st for o in good])
        val = good[-1].val
        for o in reversed(good[:-1]):
            val = self._join_ret(o.rel, o.val, val)
        pc = FALSE
        for o in good:
            pc = bor(pc, o.pc)
        self.pc = pc
        # drop the frame's variables unless captured by closures that may outlive it
        if not any(isinstance(x, (ast.Lambda, ast.FunctionDef)) for x in ast.walk(node) if x is not node):
            for k in [k for k in self.st if k[0] == 'v' and k[1] == env]:
                del self.st[k]
        return val

    def _join_ret(self, c, a, b):
        return ite(c, a, b)

    # external functions ---------------------------------------------------
    def dot(self, a, b):
        a, b = self.arr(a), self.arr(b)

        def f(x, y):
            if x.op == 'vec' and y.op == 'vec' and x.args and y.args:
                xm = x.args[0].op == 'vec'
                ym = y.args[0].op == 'vec'
                try:
                    if not xm and not ym and len(x.args) == len(y.args):
                        return sum_([mul(p, q) for p, q in zip(x.args, y.args)])
                    if xm and not ym and all(len(r.args) == len(y.args) for r in x.args):
                        return T('vec', *[sum_([mul(p, q) for p, q in zip(r.args, y.args)]) for r in x.args])
                    if not xm and ym and len(x.args) == len(y.args):
                        return T('vec', *[sum_([mul(x.args[k], y.args[k].args[j]) for k in range(len(x.args))]) for j in range(len(y.args[0].args))])
                    if xm and ym and all(len(r.args) == len(y.args) for r in x.args):
                        return T('vec', *[T('vec', *[sum_([mul(r.args[k], y.args[k].args[j]) for k in range(len(y.args))]) for j in range(len(y.args[0].args))]) for r in x.args])
                except IndexError:
                    pass
            if tm.is_num(x) or tm.is_num(y):
                return mul(x, y)
            # expand against a vector of unknown contents when one side has known length
            if x.op == 'vec' and x.args and x.args[0].op == 'vec' and y.op != 'vec':
                return call('dot', x, y)
            return T('dot', x, y)
        return lift(f, a, b)

    def call_ext(self, name, args, kw, node, frame):
        m = self.models.get(name)
        if m is not None:
            r = m(self, None, args, kw)
            if r is not None:
                return r
        base = name.split('.')[-1] if not name.startswith('random') else name
        h = self.extra.get('.'.join(name.split('.')[-2:])) or self.extra.get(base)
        if h is not None:
            r = h(self, args, kw)
            if r is not None:
                return r
        h = getattr(self, 'bi_' + base, None)
        if h is not None:
            r = h(args, kw, frame)
            if r is not None:
                return r
        if base in MATH1 and len(args) == 1 and not kw:
            def f(x):
                v = numval(x)
                if v == 0 and base in ('sin', 'tan', 'arctan', 'arcsin'):
                    return ZERO
                if v == 0 and base in ('cos', 'exp'):
                    return ONE
                if v is not None and base == 'floor':
                    return num(v.numerator // v.denominator)
                if v is not None and base == 'ceil':
                    return num(-((-v.numerator) // v.denominator))
                if base in ('floor', 'ceil'):
                    return T(base, x)
                e = exact_angle(base, x)
                if e is not None:
                    return e
                if base in ('cos', 'sin') and x.op == 'arctan':
                    c = tm.power(tm.sqrt_(add(ONE, mul(x.args[0], x.args[0]))), num(-1))
                    return c if base == 'cos' else mul(c, x.args[0])
                # parity normalisation  sin(-x) = -sin(x)
                if x.op == 'poly' and base in ('sin', 'cos', 'tan', 'arctan') and x.args and x.args[0][1] < 0:
                    nx = neg(x)
                    return T('cos', nx) if base == 'cos' else neg(T(base, nx))
                return T(base, x)
            return lift(lambda y: tm._vec1(lambda z: lift(f, z), y), self.arr(args[0]))
        fargs = [self.freeze(a) for a in args]
        self.event('ext ' + base, None, args, kw)
        t = call(base, *(fargs + self.kwterms(kw)))
        rm = self.ret_models.get('ext:' + base)
        return rm(self, t, args) if rm is not None else t

    def bi_len(self, a, kw, fr):
        def f(x):
            its = self.concrete_items(x)
            if its is not None and x.op != 'str':
                return num(len(its))
            c = self.hget(x)
            if c is not None and c.op == 'Lst':
                n = ZERO
                for i in c.args:
                    n = add(n, self.item_count(i))
                return n
            if x.op == 'str':
                return num(len(x.args[0]))
            if x.op == 'range':
                return sub(x.args[1], x.args[0])
            ci = self.types.get(x)
            f2 = ci.find('__len__') if ci is not None and x.op != 'class' else None
            if f2 is not None:
                return self.call_func(self.mkfunc(f2[1], None, f2[0].module, f2[0]), [x], {}, force=True)
            return T('len', self.freeze(x))
        return lift(f, a[0])

    def item_count(self, i):
        if i.op == 'one':
            return ONE
        if i.op == 'splat':
            return T('len', i.args[0])
        if i.op == 'opt':
            return ite(i.args[0], sum_([self.item_count(x) for x in i.args[1:]]), ZERO)
        if i.op == 'comp':
            inner = sum_([self.item_count(x) for x in i.args[1:]])
            if tm.is_num(inner):
                return mul(inner, self.count_of(i.args[0]))
            return T('len', T('clist', i))
        return T('len', T('clist', i))

    def bi_range(self, a, kw, fr):
        if len(a) == 1:
            return T('range', ZERO, a[0], ONE)
        if len(a) == 2:
            return T('range', a[0], a[1], ONE)
        return T('range', *a)
    bi_xrange = bi_range

    def bi_enumerate(self, a, kw, fr):
        return T('enumerate', a[0], a[1] if len(a) > 1 else kw.get('start', ZERO))

    def bi_zip(self, a, kw, fr):
        return T('zip', *a)

    def bi_reversed(self, a, kw, fr):
        return T('reversed', a[0])

    def bi_print(self, a, kw, fr):
        return NONE

    def bi_str(self, a, kw, fr):
        return str_of(self.freeze(a[0])) if a else mkstr('')

    def bi_int(self, a, kw, fr):
        if not a:
            return ZERO
        def f(x):
            v = numval(x)
            if v is not None:
                return num(int(v))
            if x.op in ('int', 'len', 'floor', 'ceil', 'idx') :
                return x if x.op in ('int', 'len', 'idx') else T('int', x)
            return T('int', x)
        return lift(f, self.freeze(a[0]))

    def bi_float(self, a, kw, fr):
        def f(x):
            if x.op == 'str':
                if x.args[0] in ('inf', '+inf', 'Inf', 'infinity'):
                    return INF
                if x.args[0] == '-inf':
                    return neg(INF)
                try:
                    return num(float(x.args[0]))
                except ValueError:
                    pass
            if self.strish(x):
                return T('float', x)
            return x if x.op != 'getitem' else x
        return lift(f, self.freeze(a[0])) if a else ZERO

    def bi_bool(self, a, kw, fr):
        return self.truth_of(a[0]) if a else FALSE

    def bi_abs(self, a, kw, fr):
        def f(x):
            v = numval(x)
            if v is not None:
                return num(abs(v))
            if x is INF or x is neg(INF):
                return INF
            # |x| is even: canonical sign, positive factor out
            p = tm._scale(x, False)
            d = _pd(x)
            k = None
            for m, c in _pd(p).items():
                k = abs(d[m] / c)
                break
            return mul(num(k), T('abs', p))
        return lift(lambda y: tm._vec1(lambda z: lift(f, z), y), self.arr(a[0]))
    bi_fabs = bi_abs
    bi_absolute = bi_abs

    def _minmax(self, a, kw, mx):
        if kw and set(kw) - {'default'}:
            return None
        if len(a) == 1:
            its = self.concrete_items(a[0])
            if its is None:
                return None
        else:
            its = list(a)
        if not its:
            return None
        if any(self.hget(x) is not None or x.op in ('vec', 'str', 'tuple') for x in its):
            return None
        r = its[0]
        def two(x, y):
            if x is y:
                return x
            vx, vy = numval(x), numval(y)
            if vx is not None and vy is not None:
                return num(max(vx, vy) if mx else min(vx, vy))
            xs, ys = [z for z in self._mmargs(x, mx)], [z for z in self._mmargs(y, mx)]
            al = sorted(set(xs + ys))
            return T('max' if mx else 'min', *al)
        for x in its[1:]:
            r = lift(two, r, x)
        return r

    def _mmargs(self, x, mx):
        return list(x.args) if x.op == ('max' if mx else 'min') and len(x.args) > 1 else [x]

    def bi_max(self, a, kw, fr):
        if len(a) == 2 and False:
            return None
        return self._minmax(a, kw, True)

    def bi_min(self, a, kw, fr):
        return self._minmax(a, kw, False)

    def bi_fmax(self, a, kw, fr):
        return self._minmax(a, kw, True)

    def bi_fmin(self, a, kw, fr):
        return self._minmax(a, kw, False)
    bi_maximum = bi_fmax
    bi_minimum = bi_fmin
    bi_amax = bi_max
    bi_amin = bi_min

    def bi_sum(self, a, kw, fr):
        if kw:
            return None
        its = self.concrete_items(a[0])
        start = a[1] if len(a) > 1 else ZERO
        if its is not None and self.extra and self.is_list(start) and all(self.is_list(x) for x in its):
            r = self.new_list()
            for x in [start] + its:
                self.list_extend(r, x)
            return r
        if its is not None:
            return sum_([start] + [self.arr(x) for x in its])
        c = self.hget(a[0])
        if c is not None and c.op == 'Lst':
            r = start
            for i in c.args:
                r = add(r, self.sum_item(i))
            return r
        if a[0].op == 'clist':
            r = start
            for i in a[0].args:
                r = add(r, self.sum_item(i))
            return r
        return None

    def sum_item(self, i):
        if i.op == 'one':
            return i.args[0]
        if i.op == 'opt':
            return ite(i.args[0], sum_([self.sum_item(x) for x in i.args[1:]]), ZERO)
        if i.op == 'comp':
            return self.sum_term(i.args[0], TRUE, sum_([self.sum_item(x) for x in i.args[1:]]))
        if i.op == 'splat':
            return T('sum', i.args[0])
        return T('sum', i)

    def _anyall(self, a, isany):
        segs = self.segments(a[0]) if a[0].op != 'ite' else self.gated_segments(a[0])
        r = FALSE if isany else TRUE

        def one(seg):
            if seg[0] == 'one':
                return self.truth_of(seg[1])
            if seg[0] == 'opt':
                q = FALSE if isany else TRUE
                for s in seg[2]:
                    q = bor(q, one(s)) if isany else band(q, one(s))
                return band(seg[1], q) if isany else bor(bnot(seg[1]), q)
            if seg[0] == 'symx':
                idx, val, g = seg[1:]
            else:
                idx = self.new_idx(seg[1])
                val, g = seg[2](idx), seg[3]
            c = self.truth_of(val)
            return self.any_of(idx, band(g, c)) if isany else bnot(self.any_of(idx, band(g, bnot(c))))
        for s in segs:
            r = bor(r, one(s)) if isany else band(r, one(s))
        return r

    def bi_any(self, a, kw, fr):
        if len(a) != 1 or kw:
            return None
        if a[0].op in ('vlt', 'vle', 'vgt', 'vge'):
            return None
        return self._anyall(a, True)

    def bi_all(self, a, kw, fr):
        if len(a) != 1 or kw:
            return None
        if a[0].op in ('vlt', 'vle', 'vgt', 'vge'):
            return None
        return self._anyall(a, False)

    def bi_list(self, a, kw, fr):
        if not a:
            return self.new_list()
        r = self.new_list()
        v = a[0]
        its = self.concrete_items(v)
        if its is not None:
            for x in its:
                self.list_append(r, x)
            return r
        if self.is_list(v):
            self.list_extend(r, v)
            return r
        if v.op in ('range', 'enumerate', 'zip', 'dictitems', 'dictvalues', 'dictkeys', 'reversed'):
            segs = self.segments(v)
            if len(segs) == 1 and segs[0][0] == 'sym' and segs[0][3] is TRUE:
                idx = self.new_idx(segs[0][1])
                self.st[('h', r)] = T('Lst', T('comp', idx, T('one', segs[0][2](idx))))
                return r
        self.list_extend(r, v)
        return r

    def bi_sorted(self, a, kw, fr):
        its = self.concrete_items(a[0]) if a else None
        if its is not None and not kw:
            if all(numval(x) is not None for x in its):
                return self.new_list(sorted(its, key=numval))
            if all(x.op == 'str' for x in its):
                return self.new_list(sorted(its, key=lambda x: x.args[0]))
        return T('call', mkstr('sorted'), *([self.freeze(x) for x in a] + [T('kwarg', mkstr(k), self.freeze(v)) for k, v in sorted(kw.items())]))

    def bi_tuple(self, a, kw, fr):
        its = self.concrete_items(a[0]) if a else []
        return T('tuple', *its) if its is not None else self.freeze(a[0])

    def bi_dict(self, a, kw, fr):
        d = self.new_dict()
        if a:
            self.dict_update(d, a[0])
        for k, v in kw.items():
            self.dict_set(d, mkstr(k), v)
        return d

    def bi_OrderedDict(self, a, kw, fr):
        return self.bi_dict(a, kw, fr)

    def bi_map(self, a, kw, fr):
        its = [self.concrete_items(x) for x in a[1:]]
        if all(i is not None for i in its):
            return self.new_list([self.apply(a[0], list(xs), {}, None, fr) for xs in zip(*its)])
        return None

    def bi_isinstance(self, a, kw, fr):
        x, c = a

        def f(o):
            cs = list(c.args) if c.op == 'tuple' else [c]
            res = FALSE
            for k in cs:
                res = bor(res, self._isinst(o, k))
            return res
        return lift(f, x)

    def _isinst(self, o, k):
        ci = self.types.get(o)
        if k.op == 'class':
            kc = self.types[k]
            if ci is not None and o.op != 'class':
                if ci.is_sub(kc):
                    return TRUE
                if o.op in ('obj', 'new'):
                    return FALSE
                if kc.is_sub(ci):
                    return condatom(T('isinst', o, k.args[0]))
                return FALSE
            if self.hget(o) is not None or o.op in ('list', 'tuple', 'str', 'vec') or tm.is_num(o) or o is NONE:
                return FALSE
            return condatom(T('isinst', o, k.args[0]))
        nm = k.args[0] if k.op == 'ext' else show(k)
        c = self.hget(o)
        if c is not None:
            kind = 'list' if c.op == 'Lst' else 'dict'
            return mkbool(nm == kind)
        if o.op in ('list', 'clist'):
            return mkbool(nm == 'list')
        if o.op in ('tuple', 'str'):
            return mkbool(nm == o.op)
        if tm.is_num(o):
            return mkbool(nm in ('int', 'float'))
        if o is NONE or o.op in ('obj', 'new') or ci is not None:
            return FALSE
        if o.op == 'D' or o.op == 'poly' and any(x.op == 'D' for x in tm.subterms(o)):
            return FALSE
        return condatom(T('isinst', self.freeze(o), nm))

    def bi_hasattr(self, a, kw, fr):
        ci = self.types.get(a[0])
        if a[1].op == 'str':
            if ('f', a[0], a[1].args[0]) in self.st:
                return TRUE
            if ci is not None and ci.find(a[1].args[0]):
                return TRUE
        return condatom(T('hasattr', a[0], a[1]))

    def bi_getattr(self, a, kw, fr):
        if a[1].op == 'str' and len(a) == 2:
            return self.getattr_(a[0], a[1].args[0])
        return None

    def bi_setattr(self, a, kw, fr):
        if a[1].op == 'str':
            self.setattr_(a[0], a[1].args[0], a[2])
            return NONE
        return None

    def bi_deepcopy(self, a, kw, fr):
        c = self.hget(a[0])
        if c is not None:
            return self.alloc(c)
        return a[0]
    bi_copy = bi_deepcopy

    # numpy
    def bi_array(self, a, kw, fr):
        return lift(lambda x: self.to_vec(x), a[0])
    bi_asarray = bi_array

    def bi_zeros(self, a, kw, fr):
        return self._fill(a, kw, ZERO)

    def bi_ones(self, a, kw, fr):
        return self._fill(a, kw, ONE)

    def _fill(self, a, kw, v):
        s = self.concrete_items(a[0])
        dims = s if s is not None else [a[0]]
        if len(a) > 1 and s is None:
            dims = list(a)
        ns = [numval(d) for d in dims]
        if all(n is not None and n.denominator == 1 and n <= 24 for n in ns):
            def build(k):
                if k == len(ns):
                    return v
                return T('vec', *[build(k + 1) for _ in range(int(ns[k]))])
            return build(0)
        return call('fill', v, T('tuple', *[self.freeze(d) for d in dims]))

    def bi_eye(self, a, kw, fr):
        n = numval(a[0])
        if n is not None and n <= 12 and len(a) == 1:
            n = int(n)
            return T('vec', *[T('vec', *[ONE if i == j else ZERO for j in range(n)]) for i in range(n)])
        return None

    def bi_hstack(self, a, kw, fr):
        its = self.concrete_items(a[0])
        if its is None:
            return None
        vs = [self.to_vec(x) if self.concrete_items(x) is not None else x for x in its]
        if any(x.op == 'vec' and any(y.op == 'vec' for y in x.args) for x in vs):
            return call('hstack', *[self.freeze(x) for x in vs])
        if any(self.matrix(x) for x in vs):
            return self.colstack(its)
        if any(x.op in ('sym', 'attr', 'getitem', 'mcall', 'fcall', 'call', 'ite') and not self.surely_scalar(x) for x in vs):
            return call('hstack', *[self.freeze(x) for x in vs])
        return self.cat(its)

    def matrix(self, x):
        """certainly two-dimensional: a column range of a matrix"""
        if x.op == 'ite':
            return self.matrix(x.args[1]) and self.matrix(x.args[2])
        return x.op == 'getitem' and x.args[1].op == 'tuple' and len(x.args[1].args) == 2 and all(i.op == 'slice' for i in x.args[1].args)

    def bi_concatenate(self, a, kw, fr):
        if kw or len(a) > 1:
            return None
        its = self.concrete_items(a[0])
        return self.cat(its) if its is not None else None

    def bi_vstack(self, a, kw, fr):
        its = self.concrete_items(a[0])
        if its is None:
            return None
        vs = [self.to_vec(x) if self.concrete_items(x) is not None else self.freeze(x) for x in its]
        return call('vstack', *vs)

    def bi_dot(self, a, kw, fr):
        return self.dot(a[0], a[1]) if len(a) == 2 else None
    bi_matmul = bi_dot

    def bi_cross(self, a, kw, fr):
        x, y = self.arr(a[0]), self.arr(a[1])
        if x.op == 'vec' and y.op == 'vec' and len(x.args) == 3 and len(y.args) == 3:
            p, q = x.args, y.args
            return T('vec', sub(mul(p[1], q[2]), mul(p[2], q[1])), sub(mul(p[2], q[0]), mul(p[0], q[2])), sub(mul(p[0], q[1]), mul(p[1], q[0])))
        if x.op == 'vec' and y.op == 'vec' and len(x.args) == 2 and len(y.args) == 2:
            return sub(mul(x.args[0], y.args[1]), mul(x.args[1], y.args[0]))
        return None

    def bi_norm(self, a, kw, fr):
        if kw or len(a) != 1:
            return None
        x = self.arr(a[0])

        def f(v):
            if v.op == 'vec' and not any(y.op == 'vec' for y in v.args):
                return lift(tm.sqrt_, sum_([mul(y, y) for y in v.args]))
            # norm(-x) == norm(x)
            return T('norm', tm._scale(v, False)) if v.op == 'poly' and not tm.is_num(v) and self._unitlead(v) else T('norm', v)
        return lift(f, x)

    def _unitlead(self, v):
        p = tm._scale(v, False)
        return p is v or neg(p) is v

    def bi_sqrt(self, a, kw, fr):
        return lift(lambda y: tm._vec1(lambda z: lift(tm.sqrt_, z), y), self.arr(a[0]))

    def bi_square(self, a, kw, fr):
        return power(self.arr(a[0]), num(2))

    def bi_hypot(self, a, kw, fr):
        return tm.lift(tm.sqrt_, add(mul(a[0], a[0]), mul(a[1], a[1])))

    def bi_power(self, a, kw, fr):
        return power(self.arr(a[0]), self.arr(a[1]))
    bi_pow = bi_power

    def bi_arctan2(self, a, kw, fr):
        return call('arctan2', self.arr(a[0]), self.arr(a[1]))

    def bi_round(self, a, kw, fr):
        nd = a[1] if len(a) > 1 else kw.get('decimals', kw.get('ndigits', ZERO))
        def f(x):
            v, n = numval(x), numval(nd)
            if v is not None and n is not None:
                return num(round(v, int(n)))
            return T('round', x, nd)
        return lift(f, self.freeze(a[0]))

    def bi_degrees(self, a, kw, fr):
        return div(mul(a[0], num(180)), T('ext', 'pi'))

    def bi_radians(self, a, kw, fr):
        return div(mul(a[0], T('ext', 'pi')), num(180))

    def bi_sign(self, a, kw, fr):
        return call('sign', self.arr(a[0]))

    def bi_append(self, a, kw, fr):
        if len(a) == 2 and not kw:
            return self.cat([a[0], a[1]])
        return None

    def bi_vertcat(self, a, kw, fr):
        return self.cat(list(a))

    def bi_horzcat(self, a, kw, fr):
        return call('horzcat', *[self.freeze(x) for x in a])

    def bi_add(self, a, kw, fr):
        return add(self.arr(a[0]), self.arr(a[1]))

    def bi_subtract(self, a, kw, fr):
        return sub(self.arr(a[0]), self.arr(a[1]))

    def bi_multiply(self, a, kw, fr):
        return mul(self.arr(a[0]), self.arr(a[1]))


_refmemo = {}


class _CompBody(ast.stmt):
    _fields = ()
    lineno = 0


def sum_(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


def frame_cls(f):
    while f is not None:
        if f.cls is not None:
            return f.cls
        f = f.parent
    return None


_local_memo = {}


def local_names(node):
    r = _local_memo.get(node)
    if r is None:
        r = set()
        glob = set()

        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    r.add(c.name)
                    continue
                if isinstance(c, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                    continue
                if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                    r.add(c.id)
                if isinstance(c, (ast.Global, ast.Nonlocal)):
                    glob.update(c.names)
                walk(c)
        walk(node)
        r -= glob
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            r.add(x.arg)
        _local_memo[node] = r
    return r
