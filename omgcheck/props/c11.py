"""C11: arguments are only read: no function changes a list, dictionary or array its caller gave, directly, through a callee or through what it kept."""
import ast
import os
from ..program import ClassInfo

CHANGE = {'append', 'extend', 'insert', 'remove', 'pop', 'sort', 'reverse', 'update', 'clear', 'setdefault', 'popitem', 'add', 'discard', 'fill', 'resize', 'itemset'}
FRESH = {'list', 'dict', 'set', 'tuple', 'sorted', 'copy', 'deepcopy', 'array', 'zip', 'map', 'filter', 'enumerate_', 'vstack', 'hstack', 'concatenate', 'zeros', 'ones', 'r_', 'c_'}
SAME = {'reversed', 'asarray', 'atleast_1d', 'ravel', 'reshape', 'get', 'values', 'items', 'iter', 'enumerate'}


def run(ctx):
    ctx.rules.append('C11: effect analysis over all functions of the package: which local names can be (parts of) a container a parameter holds, which statements change '
                     'them in place, which callees do (to a fixed point), and which containers a constructor keeps and a method changes; no public function may, nor '
                     'may a parameter default that is shared between calls be changed.')
    w = World(ctx.prog)
    w.solve()
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..', 'spec', 'api.txt')) as g:
        API.update(g.read().split())
    n = 0
    for f in w.funcs:
        for p in f.params:
            n += 1
            key = 'keeps.%s.%s' % (f.name, p)
            if p in f.effects and not excused(f, p):
                line, how = f.effects[p]
                ctx.bad(key, 'the container given as %s is changed: %s' % (p, how), '%s:%d %s' % (f.file, line, f.qual))
            else:
                ctx.ok(key, 'argument %s is only read' % p, '%s:%d %s' % (f.file, f.node.lineno, f.qual))
    ctx.functions |= set(f.name for f in w.funcs)
    n += kept(ctx, w)
    n += defaults(ctx, w)
    return n


# parameters that are there to be filled or changed: (function, parameter)
OUTPUT = {
    ('PlotLayer.update_plots', 'plots'),            # the bookkeeping of the plots
    ('Environment.__init__', 'room'),               # completed; the caller's dictionary names the room in fill_room
    ('DistributedProblem.interprete_constraints', 'updaters'), ('Deployer.set_problem', 'problem'), ('SchedulerProblem.get_init_guess_new_frame', 'frame'),   # objects that are theirs
    ('EnvironmentGUI.add_obstacle', 'obstacle'),    # an obstacle being drawn, completed by the drawing
    ('Dubins.update_signals', 'signals'), ('Dubins.update_prediction', 'prediction'),     # the parts of the signals of a trailer that are those of its leading vehicle
}


# what callers know; a function that is not among these is a helper: what it changes counts where a function of these hands it a container of its caller
API = set()


def excused(f, p):
    return f.name not in API or (f.qual, p) in OUTPUT or f.qual.split('.')[-1].startswith('_') and not f.qual.endswith('__init__')


class Func(object):
    def __init__(self, m, cls, node):
        self.m, self.cls, self.node = m, cls, node
        self.qual = '.'.join(x for x in (cls.name if cls else None, node.name) if x)
        self.name = '%s.%s' % (m.name, self.qual)
        i = m.path.find('omgtools/')
        self.file = m.path[i:]
        a = node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        self.me = ps[0] if cls is not None and node.name not in cls.statics and ps else None
        self.all = ps
        self.params = [p for p in ps if p != self.me] + [x.arg for x in a.kwonlyargs]
        self.effects = {}       # parameter -> (line, how)
        self.keeps = {}         # attribute of self -> (parameter, line)
        self.attr_effects = {}  # attribute of self -> (line, how)


class World(object):
    def __init__(self, prog):
        self.prog = prog
        self.funcs, self.by_node = [], {}
        self.methods = {}
        for m in prog.modules.values():
            if m.name.split('.')[0] != 'omgtools':
                continue
            for s in m.tree.body:
                if isinstance(s, ast.FunctionDef):
                    self.add(m, None, s)
                elif isinstance(s, ast.ClassDef) and s.name in m.classes and m.classes[s.name].node is s:
                    for y in s.body:
                        if isinstance(y, ast.FunctionDef):
                            self.add(m, m.classes[s.name], y)

    def add(self, m, cls, node):
        f = Func(m, cls, node)
        self.funcs.append(f)
        self.by_node[id(node)] = f
        if cls is not None:
            self.methods.setdefault(node.name, []).append(f)

    def solve(self):
        for _ in range(12):
            before = [(set(f.effects), set(f.attr_effects)) for f in self.funcs]
            for f in self.funcs:
                Flow(self, f).run()
            if before == [(set(f.effects), set(f.attr_effects)) for f in self.funcs]:
                break

    def callee(self, f, call):
        """-> [(function, whether the receiver is bound)]"""
        g = call.func
        r = None
        if isinstance(g, ast.Name):
            r = self.prog.resolve(f.m, g.id)
        elif isinstance(g, ast.Attribute):
            if isinstance(g.value, ast.Name) and g.value.id == f.me and f.cls is not None:
                out = []
                for c in [f.cls]:
                    d = c.find(g.attr)
                    if d is not None and id(d[1]) in self.by_node:
                        out.append((self.by_node[id(d[1])], g.attr not in d[0].statics))
                return out
            if isinstance(g.value, ast.Name):
                b = self.prog.resolve_expr(f.m, g.value)
                if isinstance(b, ClassInfo):
                    d = b.find(g.attr)
                    if d is not None and id(d[1]) in self.by_node:
                        return [(self.by_node[id(d[1])], False)]
                    return []
                r = self.prog.resolve_expr(f.m, g)
            if not isinstance(r, (tuple, ClassInfo)):
                ms = self.methods.get(g.attr, [])
                return [(x, g.attr not in x.cls.statics) for x in ms] if len(ms) == 1 else []
        if isinstance(r, ClassInfo):
            d = r.find('__init__')
            return [(self.by_node[id(d[1])], True)] if d is not None and id(d[1]) in self.by_node else []
        if isinstance(r, tuple) and r[0] == 'func' and id(r[2]) in self.by_node:
            return [(self.by_node[id(r[2])], False)]
        return []


class Flow(object):
    """local name -> roots it can share its container with: ('p', parameter) or ('a', attribute of self)"""

    def __init__(self, w, f):
        self.w, self.f = w, f
        self.env = {p: {('p', p)} for p in f.params}
        self.own = set()
        body = f.node.body
        self.containers = {x.value.id for s in body for x in ast.walk(s) if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name)}
        self.containers |= {x.args[0].id for s in body for x in ast.walk(s) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len'
                            and x.args and isinstance(x.args[0], ast.Name)}

        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('dot', 'norm', 'array', 'vstack', 'hstack', 'atleast_1d', 'mean', 'tolist'):
                    self.containers |= {a.id for a in x.args + [x.func.value] if isinstance(a, ast.Name)}
                if isinstance(x, ast.Attribute) and x.attr in ('T', 'shape') and isinstance(x.value, ast.Name):
                    self.containers.add(x.value.id)
                if isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.iter, ast.Name):
                    self.containers.add(x.iter.id)

    def run(self):
        self.block(self.f.node.body)

    def roots(self, e):
        """parameters or attributes an expression can be (a part of) the container of"""
        if isinstance(e, ast.Name):
            return self.env.get(e.id, set())
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return set()            # a copy (of lists; of arrays a view that is rarely written)
            return self.roots(e.value)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.f.me:
                return set() if e.attr in self.own else {('a', e.attr)}
            return self.roots(e.value)
        if isinstance(e, ast.IfExp):
            return self.roots(e.body) | self.roots(e.orelse)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.roots(v) for v in e.values])
        if isinstance(e, ast.NamedExpr):
            return self.roots(e.value)
        if isinstance(e, ast.Starred):
            return self.roots(e.value)
        if isinstance(e, ast.Call):
            g = e.func
            name = g.attr if isinstance(g, ast.Attribute) else g.id if isinstance(g, ast.Name) else None
            if name in SAME:
                r = self.roots(e.args[0]) if e.args and (isinstance(g, ast.Name) or name in ('asarray', 'atleast_1d', 'ravel', 'reshape')) else set()
                if isinstance(g, ast.Attribute) and name in ('get', 'values', 'items', 'ravel', 'reshape'):
                    r = r | self.roots(g.value)
                return r
        return set()

    def hit(self, roots, line, how):
        for kind, name in roots:
            d = self.f.effects if kind == 'p' else self.f.attr_effects
            d.setdefault(name, (line, how))

    def bind(self, t, roots):
        if isinstance(t, ast.Name):
            self.env[t.id] = set(roots)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, roots)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, set())
        elif isinstance(t, ast.Subscript):
            self.hit(self.roots(t.value), t.lineno, 'an entry is set')
        elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.f.me:
            if not any(kind == 'p' for kind, p in roots):
                self.own.add(t.attr)        # replaced by a container of its own
            for kind, p in roots:
                if kind == 'p':
                    self.f.keeps.setdefault(t.attr, (p, t.lineno))

    def expr(self, e):
        for x in ast.walk(e):
            if isinstance(x, ast.Call):
                self.call(x)
            if isinstance(x, ast.NamedExpr):
                self.bind(x.target, self.roots(x.value))

    def call(self, x):
        g = x.func
        if isinstance(g, ast.Attribute) and g.attr in CHANGE and g.attr not in self.w.methods:
            r = self.roots(g.value)
            if r:
                self.hit(r, x.lineno, '%s()' % g.attr)
                return
        for h, bound in self.w.callee(self.f, x):
            names = h.all[1:] if bound else h.all
            for k, a in enumerate(x.args):
                if isinstance(a, ast.Starred):
                    break
                if k < len(names) and names[k] in h.effects:
                    self.hit(self.roots(a), x.lineno, 'given to %s, %s' % (h.qual, h.effects[names[k]][1]))
            for kw in x.keywords:
                if kw.arg in h.effects:
                    self.hit(self.roots(kw.value), x.lineno, 'given to %s, %s' % (h.qual, h.effects[kw.arg][1]))

    def block(self, body):
        """True: never runs to its end"""
        for s in body:
            if self.stmt(s):
                return True
        return False

    def merge(self, *envs):
        out = {}
        for e in envs:
            for k, v in e.items():
                out[k] = out.get(k, set()) | v
        return out

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return False
        if isinstance(s, ast.Assign):
            self.expr(s.value)
            if len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts):
                for t, r in zip(s.targets[0].elts, [self.roots(v) for v in s.value.elts]):
                    self.bind(t, r)
                return False
            r = self.roots(s.value)
            for t in s.targets:
                self.bind(t, r)
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value)
            t = s.target
            if isinstance(t, ast.Subscript):
                self.hit(self.roots(t.value), s.lineno, 'an entry is set')
            elif isinstance(t, ast.Name) and (t.id in self.containers or isinstance(s.value, (ast.List, ast.ListComp))):
                self.hit(self.roots(t), s.lineno, 'changed in place')
            elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.f.me and t.attr not in self.own and isinstance(s.value, (ast.List, ast.ListComp)):
                self.hit({('a', t.attr)}, s.lineno, 'changed in place')
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value)
                self.bind(s.target, self.roots(s.value))
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.hit(self.roots(t.value), s.lineno, 'an entry is deleted')
        elif isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.expr(c)
            return True
        elif isinstance(s, (ast.Break, ast.Continue)):
            return False
        elif isinstance(s, ast.If):
            self.expr(s.test)
            before = {k: set(v) for k, v in self.env.items()}
            ends = []
            for b in (s.body, s.orelse):
                self.env = {k: set(v) for k, v in before.items()}
                if not self.block(b):
                    ends.append(self.env)
            self.env = self.merge(*ends)
            return not ends
        elif isinstance(s, (ast.For, ast.While)):
            for _ in range(2):
                before = {k: set(v) for k, v in self.env.items()}
                if isinstance(s, ast.For):
                    self.expr(s.iter)
                    self.loop(s.target, s.iter)
                else:
                    self.expr(s.test)
                self.block(s.body)
                self.env = self.merge(before, self.env)
            self.block(s.orelse)
        elif isinstance(s, ast.Try):
            before = {k: set(v) for k, v in self.env.items()}
            self.block(s.body)
            after = self.merge(before, self.env)
            out = [self.env]
            for h in s.handlers:
                self.env = {k: set(v) for k, v in after.items()}
                if not self.block(h.body):
                    out.append(self.env)
            self.env = self.merge(*out)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr)
            return self.block(s.body)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.expr(c)
        return False

    def loop(self, target, it):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and isinstance(target, ast.Tuple) and it.args:
            self.bind(target.elts[0], set())
            self.bind(target.elts[1], self.roots(it.args[0]))
        elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'zip' and isinstance(target, ast.Tuple):
            for t, a in zip(target.elts, it.args):
                self.bind(t, self.roots(a))
        elif isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and isinstance(target, ast.Tuple) and len(target.elts) == 2:
            self.bind(target.elts[0], set())
            self.bind(target.elts[1], self.roots(it))
        else:
            self.bind(target, self.roots(it))


# ---------------------------------------------------------------- kept containers

def kept(ctx, w):
    """a container a public method keeps without a copy and a method of the class changes in place"""
    n = 0
    for f in w.funcs:
        for a, (p, line) in sorted(f.keeps.items()):
            n += 1
            key = 'shared.%s.%s' % (f.name, a)
            g = [h for h in w.funcs if h.cls is not None and f.cls is not None and (h.cls.is_sub(f.cls) or f.cls.is_sub(h.cls)) and a in h.attr_effects]
            if g and not excused(f, p) and ('%s' % f.qual, a) not in OUTPUT:
                l, how = g[0].attr_effects[a]
                ctx.bad(key, 'the container given as %s is kept as %s and changed by %s (line %d): %s' % (p, a, g[0].qual, l, how), '%s:%d %s' % (f.file, line, f.qual))
            else:
                ctx.ok(key, 'the container given as %s is kept and not changed' % p, '%s:%d %s' % (f.file, line, f.qual))
    return n


def defaults(ctx, w):
    """a default that is a container is the same one at every call"""
    n = 0
    for f in w.funcs:
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if not isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) and not (
                    isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('list', 'dict', 'set')):
                continue
            n += 1
            key = 'default.%s.%s' % (f.name, p)
            changed = f.effects.get(p)
            for at_, (q, line) in f.keeps.items():
                if q == p and changed is None:
                    for h in w.funcs:
                        if h.cls is not None and f.cls is not None and (h.cls.is_sub(f.cls) or f.cls.is_sub(h.cls)) and at_ in h.attr_effects:
                            changed = h.attr_effects[at_]
            if changed is not None:
                ctx.bad(key, 'the default of %s is changed (%s) and shared by all later calls' % (p, changed[1]), '%s:%d %s' % (f.file, changed[0], f.qual))
            else:
                ctx.ok(key, 'the default of %s stays as it is' % p, '%s:%d %s' % (f.file, f.node.lineno, f.qual))
    return n
