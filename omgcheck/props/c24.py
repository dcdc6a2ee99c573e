"""C24: every name, attribute and call of the package resolves: no path of it ends in an undefined name or an argument error."""
import ast
import builtins
import os
import symtable
from ..program import ClassInfo

GONE = {'has_key', 'iteritems', 'itervalues', 'iterkeys', 'getchildren', 'getiterator'}
ERRORS = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)
          and not issubclass(getattr(builtins, n), Warning)}
IMPLICIT = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__path__', '__class__', '__module__', '__qualname__', '__builtins__', '__spec__', '__loader__'}


def run(ctx):
    ctx.rules.append('C24: over all functions of the package: every global name read is defined by its module, an import or the language; no local is read '
                     'where no path can have bound it; every call of a function, class or method of the package that resolves (directly, over self or as '
                     'unbound method, for every concrete class) fits its signature; every attribute read of self is stored or defined somewhere; no call '
                     'on an unknown receiver is refused by all (for overridden methods: by any) of the package methods of that name; '
                     'exceptions that are constructed are raised.')
    prog = ctx.prog
    mods = [m for m in prog.modules.values() if m.name.split('.')[0] == 'omgtools']
    world = World(prog, mods)
    n = 0
    for m in mods:
        n += names(ctx, prog, m)
    for m, cls, fn, own in world.functions:
        locals_(ctx, m, cls, fn)
        n += calls(ctx, world, m, cls, fn, own)
        n += attributes(ctx, world, m, cls, fn)
        n += others(ctx, world, m, cls, fn)
        raised(ctx, m, cls, fn)
    return n


def rel(m):
    i = m.path.find('omgtools/')
    return m.path[i:] if i >= 0 else m.path


def at(m, node, cls=None, fn=None):
    return '%s:%d %s' % (rel(m), node.lineno, '.'.join(x for x in (cls.name if cls else None, fn.name if fn else None) if x))


class World(object):
    def __init__(self, prog, mods):
        self.prog, self.mods = prog, mods
        self.functions = []        # (module, class, function, nested in)
        self.stored = set()        # attribute names stored on anything
        self.methods = {}          # method name -> [(class, def)]

        self.defined = set()       # other names defined anywhere
        for m in mods:
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    self.stored.add(x.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) > 1:
                    if isinstance(x.args[1], ast.Constant):
                        self.stored.add(x.args[1].value)
                    else:
                        self.any_attribute = True
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    self.defined.add(x.name)
                if isinstance(x, ast.ClassDef):
                    self.defined |= stores(x.body)
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    self.defined |= {(a.asname or a.name).split('.')[0] for a in x.names}
            for c in m.classes.values():
                for name, d in c.methods.items():
                    self.methods.setdefault(name, []).append((c, d))
            self.walk(m, m.tree.body, None, ())

    any_attribute = False

    def walk(self, m, body, cls, own):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions.append((m, cls, s, own))
                self.walk(m, s.body, cls, own + (s,))
            elif isinstance(s, ast.ClassDef):
                c = m.classes.get(s.name)
                self.walk(m, s.body, c if c is not None and c.node is s else None, own)
            else:
                for sub in ('body', 'orelse', 'finalbody'):
                    self.walk(m, getattr(s, sub, []) or [], cls, own)
                for h in getattr(s, 'handlers', []) or []:
                    self.walk(m, h.body, cls, own)


# ---------------------------------------------------------------- names

def top_names(prog, m, seen=None):
    """names a module defines; None: not known (star import of something else)"""
    seen = set() if seen is None else seen
    if m.name in seen:
        return set()
    seen.add(m.name)
    out = set()
    table = symtable.symtable(m.src, m.path, 'exec')

    def collect(t):
        for s in t.get_symbols():
            if t.get_type() == 'module' and (s.is_assigned() or s.is_imported() or s.is_namespace()):
                out.add(s.get_name())
            if t.get_type() != 'module' and s.is_declared_global() and s.is_assigned():
                out.add(s.get_name())
        for c in t.get_children():
            collect(c)
    collect(table)
    for x in ast.walk(m.tree):
        if isinstance(x, ast.ImportFrom) and any(a.name == '*' for a in x.names):
            parts = m.name.split('.') if m.path.endswith('__init__.py') else m.name.split('.')[:-1]
            base = '.'.join((parts[:len(parts) - x.level + 1] if x.level else []) + (x.module.split('.') if x.module else []))
            t = prog.modules.get(base)
            if t is None:
                return None
            sub = top_names(prog, t, seen)
            if sub is None:
                return None
            out |= sub
    return out


def names(ctx, prog, m):
    """globals read somewhere in a module that nothing defines"""
    known = top_names(prog, m)
    if known is None:
        return 0
    table = symtable.symtable(m.src, m.path, 'exec')
    wanted = {}

    def collect(t):
        for s in t.get_symbols():
            if s.is_referenced() and (s.is_global() or t.get_type() == 'module'):
                wanted.setdefault(s.get_name(), []).append((t.get_name(), t.get_lineno()))
        for c in t.get_children():
            collect(c)
    collect(table)
    n = 0
    guarded = {x.id for t in ast.walk(m.tree) if isinstance(t, ast.Try) and any(catches(h, 'NameError') for h in t.handlers) for b in t.body for x in ast.walk(b) if isinstance(x, ast.Name)}
    for name, where in sorted(wanted.items()):
        n += 1
        key = 'name.%s.%s' % (m.name, name)
        if name in known or name in IMPLICIT or name in guarded:
            ctx.ok(key, 'name %s is defined' % name, rel(m))
            continue
        for fname, line in where:
            lines = [x.lineno for x in ast.walk(m.tree) if isinstance(x, ast.Name) and x.id == name and x.lineno >= line]
            ctx.bad('%s.%s' % (key, fname), 'name %s is not defined' % name, '%s:%d %s' % (rel(m), min(lines or [line]), fname))
    return n


def catches(h, name):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(isinstance(t, ast.Name) and t.id in (name, 'Exception', 'BaseException') for t in ts)


# ---------------------------------------------------------------- locals

class Flow(object):
    """names that some path can have bound, in execution order"""

    def __init__(self, fn, local):
        self.local, self.bad = local, []
        a = fn.args
        self.bound = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}

    def expr(self, e):
        if e is None or not isinstance(e, ast.AST):
            return
        if isinstance(e, (ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            if isinstance(e, ast.Lambda):
                for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                    self.expr(d)
                return
            self.expr(e.generators[0].iter)
            for x in ast.walk(e):
                if isinstance(x, ast.NamedExpr):
                    self.bound.add(x.target.id)
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                if e.id in self.local and e.id not in self.bound:
                    self.bad.append(e)
            elif isinstance(e.ctx, ast.Store):
                self.bound.add(e.id)
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value)
            self.expr(e.target)
            return
        for c in ast.iter_child_nodes(e):
            self.expr(c)

    def block(self, body):
        """True: the block never runs to its end"""
        for s in body:
            if self.stmt(s):
                return True
        return False

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                self.expr(d)
            if not isinstance(s, ast.ClassDef):
                for d in s.args.defaults + [x for x in s.args.kw_defaults if x]:
                    self.expr(d)
            self.bound.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                self.bound.add((a.asname or a.name).split('.')[0])
        elif isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.expr(c)
            return True
        elif isinstance(s, (ast.Break, ast.Continue)):
            return True
        elif isinstance(s, ast.Assign):
            self.expr(s.value)
            for t in s.targets:
                self.expr(t)
        elif isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name) and s.target.id in self.local and s.target.id not in self.bound:
                self.bad.append(s.target)
            self.expr(s.value)
            self.expr(s.target)
        elif isinstance(s, ast.AnnAssign):
            self.expr(s.value)
            if s.value is not None:
                self.expr(s.target)
        elif isinstance(s, ast.If):
            self.expr(s.test)
            before = set(self.bound)
            ends = []
            for b in (s.body, s.orelse):
                self.bound = set(before)
                stop = self.block(b)
                ends.append((self.bound, stop))
            live = [b for b, stop in ends if not stop]
            self.bound = set().union(*(live or [b for b, _ in ends]))
            return not live
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            # a later statement of the body can have bound a name for the next time around
            if isinstance(s, ast.While):
                self.expr(s.test)
            else:
                self.expr(s.iter)
                self.expr(s.target)
            start, known = set(self.bound), len(self.bad)
            self.block(s.body)
            after = self.bound | stores(s.body)
            again = Flow.__new__(Flow)
            again.local, again.bad, again.bound = self.local, [], set(after)
            again.block(s.body)
            # a name only unbound the first time: the loop starts with an error all the same, whenever it is entered
            self.bound = after | start
            self.block(s.orelse)
        elif isinstance(s, ast.Try):
            start = set(self.bound)
            stop = self.block(s.body)
            mid = self.bound | stores(s.body)
            out = set() if stop else set(self.bound)
            for h in s.handlers:
                self.bound = set(mid)
                self.expr(h.type)
                if h.name:
                    self.bound.add(h.name)
                if not self.block(h.body):
                    out |= self.bound
            self.bound = out | start
            self.block(s.orelse)
            self.block(s.finalbody)
            return False
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr)
                self.expr(i.optional_vars)
            return self.block(s.body)
        elif isinstance(s, ast.Delete):
            pass
        else:
            for c in ast.iter_child_nodes(s):
                self.expr(c)
        return False


def stores(body):
    return {x.id for s in body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def locals_of(fn):
    out, glob = set(), set()

    def visit(n, top):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
                continue
            if isinstance(c, (ast.Global, ast.Nonlocal)):
                glob.update(c.names)
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                out.add(c.id)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                out.update((a.asname or a.name).split('.')[0] for a in c.names)
            if isinstance(c, ast.ExceptHandler) and c.name:
                out.add(c.name)
            visit(c, False)
    for s in fn.body:
        visit(ast.Module(body=[s], type_ignores=[]), True)
    return out - glob


def locals_(ctx, m, cls, fn):
    f = Flow(fn, locals_of(fn))
    f.block(fn.body)
    key = 'local.%s.%s' % (m.name, '.'.join(x for x in (cls.name if cls else '', fn.name) if x))
    for x in f.bad:
        ctx.bad('%s.%s' % (key, x.id), 'local %s is read before anything can have bound it' % x.id, at(m, x, cls, fn))
    if not f.bad:
        ctx.ok(key, 'locals are bound before they are read', at(m, fn, cls, fn))


# ---------------------------------------------------------------- calls

def misfit(d, call, skip):
    """why a call does not fit a definition (None: it fits)"""
    a = d.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    if len(a.posonlyargs + a.args) < skip and a.vararg is None:
        return 'takes no argument at all'
    n_def = len(a.defaults)
    required = set(pos[:len(pos) - n_def] if n_def else pos)
    kwonly = {x.arg for x in a.kwonlyargs}
    required |= {x.arg for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is None}
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    given = [x for x in call.args if not isinstance(x, ast.Starred)]
    if len(given) > len(pos) and a.vararg is None:
        return 'takes %d positional arguments, %d given' % (len(pos), len(given))
    taken = set(pos[:len(given)]) if not star else set()
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in taken:
            return 'gets argument %s twice' % k.arg
        if k.arg not in pos and k.arg not in kwonly and a.kwarg is None:
            return 'has no argument %s' % k.arg
    if not star and not dstar:
        missing = required - taken - {k.arg for k in call.keywords}
        if missing:
            return 'misses argument %s' % ', '.join(sorted(missing))
    return None


def target(w, m, cls, fn, own, f):
    """-> list of (label, definition, skipped arguments), or None"""
    prog = w.prog
    local = set()
    for g in own + (fn,):
        local |= locals_of(g) | {x.arg for x in ast.walk(g.args) if isinstance(x, ast.arg)}
    if isinstance(f, ast.Name):
        if f.id in local:
            return None
        return of(prog.resolve(m, f.id))
    if not isinstance(f, ast.Attribute):
        return None
    base = f.value
    if isinstance(base, ast.Name) and base.id not in local:
        r = prog.resolve_expr(m, base)
        if isinstance(r, ClassInfo):
            d = r.find(f.attr)
            if d is None:
                if whole(w, r) and f.attr not in w.stored and r.find_attr(f.attr) is None and not hasattr(object, f.attr):
                    return [('%s.%s' % (r.name, f.attr), None, 0)]
                return None
            return [('%s.%s' % (d[0].name, f.attr), d[1], 0 if f.attr not in d[0].classmethods else 1)]
        if isinstance(r, tuple) and r[0] == 'module':
            return of(prog.resolve_expr(m, f))
        return None
    return None


def of(r):
    if isinstance(r, ClassInfo):
        d = r.find('__init__')
        if d is not None:
            return [(r.name, d[1], 1)]
        return None
    if isinstance(r, tuple) and r[0] == 'func' and not r[2].decorator_list:
        return [(r[2].name, r[2], 0)]
    return None


def whole(w, c):
    """all bases of a class are classes of the package"""
    return all(len(k.bases()) == len([b for b in k.node.bases if not (isinstance(b, ast.Name) and b.id == 'object')]) for k in c.mro())


def self_name(cls, fn):
    if cls is None or fn.name in cls.statics or fn.name in cls.classmethods or not fn.args.args or cls.methods.get(fn.name) is not fn:
        return None
    return fn.args.args[0].arg


def family(w, cls):
    return [c for m in w.mods for c in m.classes.values() if c.is_sub(cls)]


def calls(ctx, w, m, cls, fn, own):
    n = 0
    me = self_name(cls, fn)
    seen = {}
    for call in own_nodes(fn):
        if not isinstance(call, ast.Call):
            continue
        text = short(call.func)
        seen[text] = seen.get(text, 0) + 1
        key = 'call.%s.%s.%s%s' % (m.name, '.'.join(x for x in (cls.name if cls else '', fn.name) if x), text, '#%d' % seen[text] if seen[text] > 1 else '')
        where = at(m, call, cls, fn)
        f = call.func
        found = target(w, m, cls, fn, own, f)
        if found is None and me and isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == me and f.attr not in w.stored:
            found = []
            for c in family(w, cls):
                d = c.find(f.attr)
                if d is not None and f.attr not in c.props:
                    found.append(('%s.%s' % (d[0].name, f.attr), d[1], 0 if f.attr in d[0].statics else 1))
            found = found or None
        if found is not None:
            n += 1
            why = refused([(lab, d, skip) for lab, d, skip in found if d is None or not decorated(d)], call)
            if why:
                ctx.bad(key, 'call of %s: it %s' % why, where)
            else:
                ctx.ok(key, 'call fits %s' % found[0][0], where)
            continue
        # any receiver
        if isinstance(f, ast.Attribute) and not (isinstance(f.value, ast.Name) and f.value.id == me):
            r = w.prog.resolve_expr(m, f.value)
            if isinstance(r, tuple) and r[0] == 'ext':
                continue
            if f.attr in GONE:
                ctx.bad(key, 'method %s does not exist any more' % f.attr, where)
                n += 1
                continue
            defs = [(c, d) for c, d in w.methods.get(f.attr, []) if not decorated(d) and f.attr not in c.props]
            if not defs or f.attr in w.stored or f.attr in COMMON:
                continue
            n += 1
            roots = {}
            for c, d in defs:
                roots.setdefault(root(c, [k for k, _ in defs]), []).append(('%s.%s' % (c.name, f.attr), d, 0 if f.attr in c.statics else 1))
            why = [refused(ds, call) for ds in roots.values()]
            if all(why):
                ctx.bad(key, 'call of %s: it %s' % why[0], where)
            else:
                ctx.ok(key, 'call fits the methods %s of the package' % f.attr, where)
    return n


COMMON = {'get', 'set', 'append', 'update', 'insert', 'copy', 'keys', 'items', 'values', 'pop', 'index', 'sort', 'remove', 'reset', 'close', 'open', 'write', 'read',
          'draw', 'plot', 'show', 'dot', 'format', 'join', 'split', 'sum', 'min', 'max', 'T', 'shape', 'size', 'name', 'find', 'replace', 'add', 'clear', 'start', 'stop', 'run',
          'move', 'coords', 'delete', 'pack', 'grid', 'bind', 'extend', 'reverse', 'count', 'transpose', 'round', 'scale', 'sleep', 'load', 'save', 'dump', 'savefig', 'configure',
          'rotate', 'transform', 'derivative', 'integral', 'roots', 'tick', 'publish', 'subscribe'}


def abstract(d):
    body = [x for x in d.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Raise) and body[0].exc is not None and 'NotImplementedError' in ast.dump(body[0].exc)


def refused(found, call):
    """a definition that does not take the call, when all of them do not or only the lesser part: then the callers of the others meet an argument error.
    (A call only few definitions take is made on receivers of their kind.)"""
    found = [x for x in found if x[1] is None or not abstract(x[1])] or found
    seen, uniq = set(), []
    for x in found:
        if id(x[1]) not in seen:
            seen.add(id(x[1]))
            uniq.append(x)
    why = [(lab, 'does not exist' if d is None else misfit(d, call, skip)) for lab, d, skip in uniq]
    no = [x for x in why if x[1]]
    if no and (len(no) == len(why) or 2 * len(no) < len(why)):
        return no[0]
    return None


def root(c, among):
    """the topmost class of the hierarchy that defines the method"""
    r = c
    for k in c.mro():
        if k in among:
            r = k
    return r


def decorated(d):
    return any(not (isinstance(x, ast.Name) and x.id in ('staticmethod', 'classmethod')) for x in d.decorator_list)


def own_nodes(fn):
    """nodes of a function without those of functions defined in it"""
    todo = list(fn.body)
    while todo:
        x = todo.pop(0)
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        yield x
        todo = list(ast.iter_child_nodes(x)) + todo


def short(f):
    if isinstance(f, ast.Name):
        return f.id
    if isinstance(f, ast.Attribute):
        return short(f.value) + '.' + f.attr
    return '()'


# ---------------------------------------------------------------- attributes

def attributes(ctx, w, m, cls, fn):
    me = self_name(cls, fn)
    if me is None or not whole(w, cls) or w.any_attribute:
        return 0
    n = 0
    asked = asked_for(fn) | {y.attr for t in ast.walk(fn) if isinstance(t, ast.Try) and any(catches(h, 'AttributeError') for h in t.handlers)
                             for b in t.body for y in ast.walk(b) if isinstance(y, ast.Attribute)}
    names_ = {}
    for x in own_nodes(fn):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me:
            names_.setdefault(x.attr, x)
    for a, x in sorted(names_.items()):
        n += 1
        key = 'attr.%s.%s.%s.%s' % (m.name, cls.name, fn.name, a)
        if a in w.stored or a.startswith('__') or a in asked or any(c.find(a) or c.find_attr(a) or not whole(w, c) for c in family(w, cls)):
            ctx.ok(key, 'attribute is defined', at(m, x, cls, fn))
        else:
            ctx.bad(key, 'attribute %s of %s is defined nowhere' % (a, cls.name), at(m, x, cls, fn))
    return n


def library():
    if not LIBRARY:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..', 'spec', 'library_names.txt')) as f:
            LIBRARY.update(f.read().split())
        for t in (object, type, str, list, dict, set, tuple, int, float, Exception):
            LIBRARY.update(dir(t))
    return LIBRARY


LIBRARY = set()


def others(ctx, w, m, cls, fn):
    """attributes read of anything but self: nothing has an attribute that neither the package stores or defines nor a library has"""
    if w.any_attribute:
        return 0
    me = self_name(cls, fn)
    lib = library()
    asked = asked_for(fn) | {y.attr for t in ast.walk(fn) if isinstance(t, ast.Try) and any(catches(h, 'AttributeError') for h in t.handlers)
                             for b in t.body for y in ast.walk(b) if isinstance(y, ast.Attribute)}
    names_ = {}
    for x in own_nodes(fn):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and not (isinstance(x.value, ast.Name) and x.value.id == me and whole(w, cls)):
            r = x.value
            while isinstance(r, ast.Attribute):
                r = r.value
            if isinstance(r, ast.Name):
                t = w.prog.resolve(m, r.id)
                if isinstance(t, tuple) and t[0] == 'ext':
                    continue            # a library
            names_.setdefault(x.attr, x)
    for a, x in sorted(names_.items()):
        key = 'other.%s.%s.%s' % (m.name, '.'.join(y for y in (cls.name if cls else '', fn.name) if y), a)
        if a in w.stored or a in w.methods or a in w.defined or a in lib or a in asked or a.startswith('__'):
            ctx.ok(key, 'attribute is defined', at(m, x, cls, fn))
        else:
            ctx.bad(key, 'attribute %s is defined nowhere' % a, at(m, x, cls, fn))
    return len(names_)


def asked_for(fn):
    return {x.args[1].value for x in ast.walk(fn) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr') and len(x.args) > 1 and isinstance(x.args[1], ast.Constant)}


def raised(ctx, m, cls, fn):
    for x in own_nodes(fn):
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id in ERRORS:
            ctx.bad('raised.%s.%s.%s' % (m.name, '.'.join(y for y in (cls.name if cls else '', fn.name) if y), x.value.func.id),
                    'the %s is constructed but not raised' % x.value.func.id, at(m, x, cls, fn))
