"""Reference semantics of the casadi matrices, structures and functions the distributed updates are written in
(never executed; evaluated by the value numbering of the checker)."""
import numpy as np


def raw(x):
    if isinstance(x, Mat):
        return x.data
    if isinstance(x, Struct):
        return x.cat.data
    return x


def kind_of(x):
    if isinstance(x, Mat) or isinstance(x, Struct):
        return x.kind
    return 'DM'


class Mat(object):
    """a matrix expression; an object of its own, changed in place by item assignment"""

    def __init__(self, data, kind='MX', label=None):
        self.data = data
        self.kind = kind
        self.label = label

    @property
    def T(self):
        return Mat(self.data.T, self.kind)

    @property
    def shape(self):
        return (len(self.data), 1)

    def size(self, k=None):
        return (len(self.data), 1)

    def name(self):
        return self.label

    def __getitem__(self, i):
        return Mat(self.data[i], self.kind)

    def __setitem__(self, i, v):
        d, x = self.data, raw(v)
        if isinstance(i, list):
            for k, j in enumerate(i):
                d[j] = x[k]
        else:
            d[i] = x
        self.data = d

    def __neg__(self):
        return Mat(-self.data, self.kind)

    def __add__(self, o):
        return Mat(self.data + raw(o), self.kind)

    def __radd__(self, o):
        return Mat(self.data + raw(o), self.kind)

    def __sub__(self, o):
        return Mat(self.data - raw(o), self.kind)

    def __rsub__(self, o):
        return Mat(raw(o) - self.data, self.kind)

    def __mul__(self, o):
        return Mat(self.data*raw(o), self.kind)

    def __rmul__(self, o):
        return Mat(self.data*raw(o), self.kind)

    def __truediv__(self, o):
        return Mat(self.data/raw(o), self.kind)

    def __div__(self, o):
        return Mat(self.data/raw(o), self.kind)

    def __rtruediv__(self, o):
        return Mat(raw(o)/self.data, self.kind)

    def __pow__(self, n):
        return Mat(self.data**n, self.kind)

    def __len__(self):
        return len(self.data)


class Entry(object):
    def __init__(self, name, shape=1, struct=None):
        self.items = []
        if struct is None:
            n = shape
            if isinstance(shape, tuple):
                n = shape[0]*shape[1]
            self.items.append(((name,), n))
        else:
            for path, n in struct.paths:
                self.items.append(((name,) + path, n))


class StructType(object):
    def __init__(self, entries):
        self.paths = []
        n = 0
        for e in entries:
            for item in e.items:
                self.paths.append(item)
                n = n + item[1]
        self.n = n

    @property
    def shape(self):
        return (self.n, 1)

    def __call__(self, value=0):
        if isinstance(value, Mat) or isinstance(value, Struct):
            return Struct(self.paths, raw(value), value.kind)
        if isinstance(value, float) or isinstance(value, int):
            return Struct(self.paths, np.zeros(self.n) + value, 'DM')
        return Struct(self.paths, value, 'DM')


class Struct(object):
    """values by path; the items of a numeric or mutable structure are its contents, those of an expression are
    objects made from the master expression"""

    def __init__(self, paths, master, kind):
        self.paths = paths
        self.kind = kind
        self.mutable = kind != 'MX'
        self.master = master
        self.items = {}
        lo = 0
        for path, n in paths:
            self.items[path] = Mat(master[lo:lo+n], kind)
            lo = lo + n

    @property
    def shape(self):
        return (len(raw(self)), 1)

    @property
    def cat(self):
        if not self.mutable:
            return Mat(self.master, self.kind)
        return Mat(np.concatenate([self.items[path].data for path, n in self.paths]), self.kind)

    def __getitem__(self, key):
        p = key if isinstance(key, tuple) else (key,)
        if p in self.items:
            if self.kind == 'DM':
                return Mat(self.items[p].data, 'DM')
            return self.items[p]
        if p[:-1] in self.items:
            return self.items[p[:-1]][p[-1]]
        return self.sub(p)

    def sub(self, p):
        parts = [(path[len(p):], n) for path, n in self.paths if path[:len(p)] == p]
        return Struct(parts, np.concatenate([self.items[path].data for path, n in self.paths if path[:len(p)] == p]), self.kind)

    def __setitem__(self, key, v):
        p = key if isinstance(key, tuple) else (key,)
        if p in self.items:
            self.items[p] = Mat(raw(v), self.kind)
        elif p[:-1] in self.items:
            self.items[p[:-1]][p[-1]] = v
        else:
            d = raw(v)
            lo = 0
            for path, n in self.paths:
                if path[:len(p)] == p:
                    self.items[path] = Mat(d[lo:lo+n], self.kind)
                    lo = lo + n

    @property
    def prefix(self):
        return Prefix(self, ())

    def cast(self):
        return self


class Prefix(object):
    def __init__(self, struct, path):
        self.struct = struct
        self.path = path

    def __getitem__(self, k):
        return Prefix(self.struct, self.path + (k if isinstance(k, tuple) else (k,)))

    def cast(self):
        return self.struct.sub(self.path)


class Fun(object):
    """a function of expressions: its outputs with the inputs replaced by the arguments"""

    def __init__(self, name, inp, out):
        self.inp = [raw(x) for x in inp]
        self.out = [raw(x) for x in out]

    def expand(self):
        return self

    def __call__(self, *args):
        res = [Mat(substituted(self.inp, [raw(a) for a in args], o), 'DM') for o in self.out]
        return res[0] if len(res) == 1 else res
