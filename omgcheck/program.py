"""Loading /repo: modules, classes, method resolution order, import resolution."""
import ast
import os


class AnalysisBroken(Exception):
    """an anchor of the analysis vanished: the run is an error, never a pass"""


class ClassInfo(object):
    def __init__(self, prog, module, node):
        self.prog, self.module, self.node, self.name = prog, module, node, node.name
        self.qual = module.name + '.' + node.name
        self.methods = {}
        self.props = set()
        self.statics = set()
        self.classmethods = set()
        self.attrs = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = s
                for d in s.decorator_list:
                    n = d.id if isinstance(d, ast.Name) else getattr(d, 'attr', None)
                    if n == 'property':
                        self.props.add(s.name)
                    elif n == 'staticmethod':
                        self.statics.add(s.name)
                    elif n == 'classmethod':
                        self.classmethods.add(s.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.attrs[s.target.id] = s.value
        self._mro = None

    def bases(self):
        out = []
        for b in self.node.bases:
            r = self.prog.resolve_expr(self.module, b)
            if isinstance(r, ClassInfo):
                out.append(r)
        return out

    def mro(self):
        if self._mro is None:
            out = [self]
            for b in self.bases():
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
            self._mro = out
        return self._mro

    def find(self, name):
        """(defining class, FunctionDef) or None"""
        for c in self.mro():
            if name in c.methods:
                return c, c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_sub(self, other):
        return other in self.mro()

    def __repr__(self):
        return '<class %s>' % self.qual


class Module(object):
    def __init__(self, prog, name, path, tree, src):
        self.prog, self.name, self.path, self.tree, self.src = prog, name, path, tree, src
        self.functions, self.classes, self.assigns, self.imports, self.stars = {}, {}, {}, {}, []
        self.is_pkg = os.path.basename(path) == '__init__.py'

    def index(self):
        for s in self._toplevel(self.tree.body):
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(self.prog, self, s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = self._absbase(s)
                for a in s.names:
                    if a.name == '*':
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = ('from', base, a.name)

    def _absbase(self, s):
        if s.level == 0:
            return s.module or ''
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)]
        return '.'.join(parts + ([s.module] if s.module else []))

    def _toplevel(self, body):
        for s in body:
            if isinstance(s, ast.Try):
                for x in self._toplevel(s.body):
                    yield x
                for h in s.handlers:
                    for x in self._toplevel(h.body):
                        yield x
            elif isinstance(s, ast.If):
                for x in self._toplevel(s.body):
                    yield x
                for x in self._toplevel(s.orelse):
                    yield x
            else:
                yield s


class Program(object):
    def __init__(self, root='/repo', package='omgtools', extra=()):
        self.root = root
        self.modules = {}
        for dirpath, dirs, files in os.walk(os.path.join(root, package)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(dirpath, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-len('.__init__')]
                    self.add(rel, p)
        for name, p in extra:
            self.add(name, p)
        if not self.modules:
            raise AnalysisBroken('no python module found under %s/%s' % (root, package))
        for m in self.modules.values():
            m.index()

    def add(self, name, path):
        with open(path, encoding='utf-8') as f:
            src = f.read()
        try:
            tree = ast.parse(src, path)
        except SyntaxError as e:
            raise AnalysisBroken('%s does not parse: %s' % (path, e))
        self.modules[name] = Module(self, name, path, tree, src)

    def cls(self, name):
        """class by bare name or module-qualified name"""
        if '.' in name:
            m, c = name.rsplit('.', 1)
            if m in self.modules and c in self.modules[m].classes:
                return self.modules[m].classes[c]
        hits = [m.classes[name] for m in self.modules.values() if name in m.classes and m.name.startswith('omgtools')]
        if len(hits) != 1:
            raise AnalysisBroken('class %s: %d definitions found' % (name, len(hits)))
        return hits[0]

    def subclasses(self, name, itself=False):
        base = self.cls(name)
        out = []
        for m in self.modules.values():
            if m.name.startswith('spec.'):
                continue
            for c in m.classes.values():
                if c.is_sub(base) and (itself or c is not base) and c not in out:
                    out.append(c)
        return sorted(out, key=lambda c: c.qual)

    def func(self, modname, name):
        m = self.modules.get(modname)
        if m is None or name not in m.functions:
            # a function may have been moved and re-exported
            if m is not None:
                r = self.resolve(m, name)
                if isinstance(r, tuple) and r[0] == 'func':
                    return r[1], r[2]
                if isinstance(r, tuple) and r[0] == 'assign' and isinstance(r[2], ast.Name) and r[2].id != name:
                    return self.func(r[1].name, r[2].id)
            raise AnalysisBroken('function %s.%s not found' % (modname, name))
        return m, m.functions[name]

    def resolve(self, module, name, seen=None):
        """-> ClassInfo | ('func', module, node) | ('module', Module) | ('assign', module, expr) | ('ext', dotted) | None"""
        seen = set() if seen is None else seen
        if (module.name, name) in seen:
            return None
        seen.add((module.name, name))
        if name in module.classes:
            return module.classes[name]
        if name in module.functions:
            return ('func', module, module.functions[name])
        if name in module.imports:
            imp = module.imports[name]
            if imp[0] == 'mod':
                if imp[1] in self.modules:
                    return ('module', self.modules[imp[1]])
                return ('ext', imp[1])
            base, n = imp[1], imp[2]
            if base in self.modules:
                r = self.resolve(self.modules[base], n, seen)
                if r is not None:
                    return r
                if base + '.' + n in self.modules:
                    return ('module', self.modules[base + '.' + n])
                return None
            if base + '.' + n in self.modules:
                return ('module', self.modules[base + '.' + n])
            return ('ext', base + '.' + n)
        if name in module.assigns:
            return ('assign', module, module.assigns[name])
        for b in module.stars:
            if b in self.modules:
                r = self.resolve(self.modules[b], name, seen)
                if r is not None:
                    return r
        if module.is_pkg and module.name + '.' + name in self.modules:
            return ('module', self.modules[module.name + '.' + name])
        return None

    def star_exts(self, module, seen=None):
        """external modules star-imported (transitively through repo modules)"""
        seen = set() if seen is None else seen
        if module.name in seen:
            return []
        seen.add(module.name)
        out = []
        for b in module.stars:
            if b in self.modules:
                out += self.star_exts(self.modules[b], seen)
            else:
                out.append(b)
        return out

    def resolve_expr(self, module, e):
        if isinstance(e, ast.Name):
            return self.resolve(module, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(module, e.value)
            if isinstance(b, tuple) and b[0] == 'module':
                return self.resolve(b[1], e.attr)
            if isinstance(b, tuple) and b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
        return None

    def all_functions(self):
        """(module, class or None, FunctionDef), nested functions included"""
        for m in self.modules.values():
            if not m.name.startswith('omgtools'):
                continue
            for fn in m.functions.values():
                yield m, None, fn
            for c in m.classes.values():
                for fn in c.methods.values():
                    yield m, c, fn
