"""The world in which the distributed updates are evaluated: vehicles with shared splines, their updaters, and the
casadi structures and functions (spec/structs.py)."""
from ..behave import *
from ..terms import *
from .. import matrices
from ..matrices import x_isinstance, x_mtimes, x_solve
from .c04 import S, O
from .c14 import inline

LEN = 2          # coefficients per spline
NSPL = 2


def make(I, ctx, cls, *args):
    return I.instantiate(I.class_term(model(ctx, cls)), list(args), {})


def model(ctx, cls):
    return ctx.prog.modules['spec.structs'].classes[cls]


def is_a(I, x, cls):
    ci = I.types.get(x) if isinstance(x, Term) and x.op == 'obj' else None
    return ci is not None and ci.name == cls


def raw(I, x):
    if is_a(I, x, 'Mat'):
        return I.freeze(I.st[('f', x, 'data')])
    if is_a(I, x, 'Struct'):
        return raw(I, I.getattr_(x, 'cat'))
    return x


def kind(I, x):
    return I.st[('f', x, 'kind')].args[0] if is_a(I, x, 'Mat') or is_a(I, x, 'Struct') else None


def flat(x):
    if x.op != 'vec':
        return [x]
    return [y for r in x.args for y in flat(r)]


def mx(I, ctx, data, k='MX', label=None):
    return make(I, ctx, 'Mat', data, tstr(k), tstr(label) if label is not None else NONE)


def mt(I, a, kw):
    if len(a) == 2 and a[0].op == 'vec' and a[1].op == 'vec':
        return I.dot(a[0], a[1])
    return x_mtimes(I, a, kw)


def install(I, ctx):
    matrices.install(I)
    I.count = 0
    I.symbols = []

    def symbolic(name, n):
        I.count += 1
        m = mx(I, ctx, T('vec', *[S('%s@%d.%d' % (name, I.count, k)) for k in range(n)]), 'MX', '%s@%d' % (name, I.count))
        I.symbols.append(m)
        return m
    I.symbolic = symbolic

    def x_struct(I, a, kw):
        return make(I, ctx, 'StructType', a[0]) if len(a) == 1 else None

    def x_entry(I, a, kw):
        return I.instantiate(I.class_term(model(ctx, 'Entry')), [a[0]], {k: v for k, v in kw.items()})

    def x_symMX(I, a, kw):
        n = numval(I.st[('f', a[0], 'n')])
        return I.call_func(I.operator(a[0], '__call__'), [a[0], symbolic('s', int(n))], {})

    def x_mutable(I, a, kw):
        n = int(numval(I.st[('f', a[0], 'n')]))
        return make(I, ctx, 'Struct', I.st[('f', a[0], 'paths')], T('vec', *([ZERO]*n)), tstr('mutable'))

    def x_sym(I, a, kw):
        I.count += 1
        if len(a) > 1 and numval(a[1]) != 1:
            return symbolic(a[0].args[0], int(numval(a[1])))
        return S('%s@%d' % (a[0].args[0] if a[0].op == 'str' else 'sym', I.count))

    def isinst(I, a, kw):
        o = a[0]
        if a[1].op == 'class' and I.types[a[1]].module.name == 'spec.structs':
            return mkbool(is_a(I, o, I.types[a[1]].name))
        if is_a(I, o, 'Mat') or is_a(I, o, 'Struct'):
            ks = list(a[1].args) if a[1].op == 'tuple' else [a[1]]
            if any(k.op == 'class' for k in ks):
                return None
            nms = [k.args[0].split('.')[-1] if k.op == 'ext' else show(k) for k in ks]
            k = kind(I, o)
            return mkbool('struct' in nms if is_a(I, o, 'Struct') else ('MX' if k != 'DM' else 'DM') in nms)
        if o.op in ('slice', 'range') or numval(o) is not None and 'list' in show(a[1]):
            return FALSE if 'list' in show(a[1]) else None
        return x_isinstance(I, a, kw)

    def hasa(I, a, kw):
        o = a[0]
        if o in w_objects(I) and a[1].op == 'str' and ('f', o, a[1].args[0]) not in I.st and I.types[o].find(a[1].args[0]) is None:
            return FALSE
        return None

    def x_str(I, a, kw):
        if a and isinstance(a[0], Term) and ('f', a[0], 'label') in I.st:
            return I.st[('f', a[0], 'label')]
        return None

    def lifted(f, wrap=True):
        def g(I, a, kw):
            if not any(is_a(I, x, 'Mat') or is_a(I, x, 'Struct') for x in a):
                return f(I, a, kw)
            ks = [kind(I, x) for x in a if is_a(I, x, 'Mat') or is_a(I, x, 'Struct')]
            r = f(I, [raw(I, x) for x in a], kw)
            if r is None or not wrap:
                return r
            return mx(I, ctx, r, 'DM' if all(k == 'DM' for k in ks) else 'MX')
        return g

    def vertcat(I, a, kw):
        out = []
        for x in a:
            if I.is_list(x) and not I.concrete_items(x):
                continue
            out += flat(x) if x.op == 'vec' else [x]
        return T('vec', *out)

    def horzcat(I, a, kw):
        ms = [x for x in a if not (I.is_list(x) and not I.concrete_items(x))]
        if not all(m.op == 'vec' and m.args and m.args[0].op == 'vec' for m in ms):
            return None
        return T('vec', *[T('vec', *[y for m in ms for y in m.args[k].args]) for k in range(len(ms[0].args))])

    def jacobian(I, a, kw):
        g, v = flat(a[0]), flat(a[1])
        cols = []
        for x in v:
            one, zero = {x: num(1)}, {x: ZERO}
            cols.append([sub(tm_substitute(e, one), tm_substitute(e, zero)) for e in g])
        return T('vec', *[T('vec', *[c[k] for c in cols]) for k in range(len(g))])

    def subst(I, a, kw):
        e, s, v = a
        s, v = flat(s), flat(v)
        if len(v) == 1:
            v = v*len(s)
        return tm_substitute(e, dict(zip(s, v)))

    def symvar(I, a, kw):
        e = raw(I, a[0])
        found = set(x for x in subterms_of(e))
        return I.new_list([m for m in I.symbols if any(x in found for x in raw(I, m).args)])

    def substituted(I, a, kw):
        inp = [I.freeze(x) for x in I.concrete_items(a[0])]
        args = [I.freeze(x) for x in I.concrete_items(a[1])]
        m = {}
        for i, x in zip(inp, args):
            fi, fx = flat(i), flat(x)
            if len(fi) != len(fx):
                raise CannotModel('function called with %d values for %d' % (len(fx), len(fi)))
            m.update(dict(zip(fi, fx)))
        return tm_substitute(I.freeze(a[2]), m)

    def fl(I, a, kw):
        r = raw(I, a[0]) if a else None
        return flat(r)[0] if r is not None and is_a(I, a[0], 'Mat') else None

    def x_round(I, a, kw):
        return T('round', I.freeze(a[0]))

    def norm(I, a, kw):
        r = raw(I, a[0])
        return sqrt_(I.dot(r, r)) if r.op == 'vec' else None

    def x_array(I, a, kw):
        return raw(I, a[0]) if a and (is_a(I, a[0], 'Mat')) else None

    def function(I, a, kw):
        return make(I, ctx, 'Fun', *a[:3])
    def zeros(I, a, kw):
        shape = [int(numval(x)) for x in (a[0].args if len(a) == 1 and a[0].op == 'tuple' else a)]
        return mx(I, ctx, T('vec', *([ZERO]*(shape[0]*(shape[1] if len(shape) > 1 else 1)))), 'MX')

    def reshaped(I, a, kw):
        return mx(I, ctx, raw(I, a[0]), kind(I, a[0])) if is_a(I, a[0], 'Mat') else None
    I.extra.update({'MX.zeros': zeros, 'reshape': reshaped, 'struct': x_struct, 'entry': x_entry, 'struct_symMX': x_symMX, 'struct_MX_mutable': x_mutable, 'sym': x_sym,
                    'isinstance': isinst, 'hasattr': hasa, 'str': x_str, 'vertcat': lifted(vertcat), 'horzcat': lifted(horzcat), 'mtimes': lifted(mt),
                    'jacobian': lifted(jacobian), 'substitute': lifted(subst), 'symvar': symvar, 'substituted': substituted, 'float': fl,
                    'round': x_round, 'around': x_round, 'norm': norm, 'array': x_array, 'Function': function,
                    'solve': lifted(lambda I, a, kw: x_solve(I, a[:2], kw))})
    I.ret_models['create_function'] = lambda I, t, b: T('tuple', make(I, ctx, 'Fun', b['name'], b['inp'], b['out']), S('buildtime'))
    for nm in ('shift_knot1_fwd', 'shift_knot1_bwd', 'shift_over_knot'):
        I.ret_models[nm] = shifted(ctx, nm)


def shifted(ctx, nm):
    """coefficients after a shift of the knots: unknown functions of the coefficients, the basis and the amount"""
    def f(I, t, b):
        vs = list(b.values())
        x = vs[0]
        r = moved(nm, raw(I, x), [I.freeze(y) for y in vs[1:]])
        return mx(I, ctx, r, kind(I, x)) if is_a(I, x, 'Mat') else r
    return f


def moved(nm, coeffs, rest):
    t = T('fcall', tstr(nm), coeffs, *rest)
    return T('vec', *[T('getitem', t, num(k)) for k in range(len(coeffs.args))])


def subterms_of(t):
    from .. import terms
    return terms.subterms(t)


def tm_substitute(t, m):
    return substitute(t, m)


def w_objects(I):
    return getattr(I, 'updaters', ())


class CannotModel(Exception):
    pass


class World(object):
    """n vehicles with a spline variable each (and optionally a variable of their problem), everyone coupled to its
    neighbours; the updaters of all of them"""

    def __init__(self, ctx, cls, n=3, shared='spline', options=()):
        self.ctx, self.n = ctx, n
        I = self.I = ctx.interp(policy=self.policy)
        I.max_depth = 40
        install(I, ctx)
        self.cls = ctx.prog.cls(cls)
        self.B = S('basis')
        I.types[self.B] = ctx.prog.cls('BSplineBasis')
        I.st[('f', self.B, 'knots')] = T('vec', *[num(k) for k in (0, 0, 1, 1)])
        I.st[('f', self.B, 'degree')] = num(1)
        lab = 'admm' if cls == 'ADMM' else 'dd'
        self.upd, self.veh, self.prob = [], [], []
        for k in range(n):
            v, p, u = O('veh%d' % k), O('prob%d' % k), O('upd%d' % k)
            I.types[v], I.types[p], I.types[u] = ctx.prog.cls('Holonomic'), ctx.prog.cls('FixedTPoint2point'), self.cls
            for o, l in ((v, 'holonomic%d' % k), (p, 'p2p%d' % k), (u, '%s%d' % (lab, k))):
                I.st[('f', o, 'label')] = tstr(l)
                I.st[('f', o, '_index')] = num(k)
            I.st[('f', v, '_splines_prim')] = I.new_dict([(tstr('splines_seg0'), I.new_dict([(tstr('basis'), self.B)]))])
            I.st[('f', p, '_splines_prim')] = I.new_dict([])
            I.st[('f', p, 'knot_time')] = S('knot_time')
            I.st[('f', p, 'options')] = I.new_dict([(tstr('horizon_time'), S('horizon_time'))])
            self.veh.append(v)
            self.prob.append(p)
            self.upd.append(u)
        I.updaters = list(self.upd)
        self.distr = O('distr')
        I.types[self.distr] = ctx.prog.cls('ADMMProblem' if cls == 'ADMM' else 'DDProblem')
        I.st[('f', self.distr, 'father')] = O('father')
        I.types[O('father')] = ctx.prog.cls('OptiFather')
        self.numeric, self.symbols = {}, {}
        self.shape = {}
        self.shared = shared
        entries = lambda k: ([(self.veh[k], [('splines_seg0', self.indices())])] if shared != 'other' else []) + \
            ([(self.prob[k], [('conT0', [0, 1])])] if shared in ('other', 'both') else [])
        q = lambda k: I.new_dict([(c, I.new_dict([(tstr(nm), I.new_list([num(i) for i in ind])) for nm, ind in d])) for c, d in entries(k)])
        self.entries = entries
        for k in range(n):
            u = self.upd[k]
            nb = self.neighbours(k)
            I.st[('f', u, 'q_i')] = q(k)
            I.st[('f', u, 'q_ij')] = I.new_dict([(self.upd[j], q(j)) for j in nb])
            I.st[('f', u, 'q_ji')] = I.new_dict([(self.upd[j], q(k)) for j in nb])
            opts = [('rho', S('rho')), ('AMA', FALSE), ('nesterov_reset', FALSE), ('eta', S('eta'))]
            o = dict(opts)
            o.update(dict(options))
            I.st[('f', u, 'options')] = I.new_dict([(tstr(a), b) for a, b in o.items()])
            I.st[('f', u, 'problem')] = self.prob[k]
            I.st[('f', u, 'vehicle')] = self.veh[k]
            I.st[('f', u, 'distr_problem')] = self.distr
            I.st[('f', u, 'father_updx')] = O('fx%d' % k)
            I.types[O('fx%d' % k)] = ctx.prog.cls('OptiFather')
            self.couple(k)
            I.call_method(ctx.prog.cls('DualUpdater'), 'init', [], {}, self_term=u)
        I.ret_models['get_variables'] = self.get_variables
        I.ret_models['set_parameters'] = lambda I, t, b: I.new_dict([(tstr('rel'), T('vec', S('rel0'), S('rel1')))])

    def policy(self, q):
        last = q.split('.')[-1]
        if last in self.events:
            return 'event'
        if q.startswith('spec.structs') or q.split('.')[-2] in ('ADMM', 'DualUpdater', 'DDUpdater', 'dualmethod', 'admm', 'dualdecomposition', 'BSplineBasis'):
            return 'inline'
        if last in ('__len__',):
            return 'inline'
        return 'event'

    events = ('create_function',)

    def indices(self):
        return list(range(LEN*NSPL)) if self.shared != 'part' else list(range(LEN, 2*LEN))

    def neighbours(self, k):
        n = self.n
        return [(k + 1) % n, (k - 1) % n] if n > 2 else [1 - k]

    def couple(self, k, slack=0):
        """x_i + rel = x_j for every neighbour"""
        I, ctx = self.I, self.ctx
        rel = mx(I, ctx, T('vec', S('par.rel0'), S('par.rel1')), 'MX', 'rel')
        I.symbols.append(rel)
        cons = []
        mine = self.values_of(k, True)
        for j in self.neighbours(k):
            theirs = self.values_of(j, True)
            cons.append((T('vec', *[sub(add(a, S('par.rel%d' % (m % 2))), b) for m, (a, b) in enumerate(zip(mine, theirs))]), len(mine)))
        u = self.upd[k]
        I.st[('f', u, 'global_constraints')] = I.new_list([T('tuple', mx(I, ctx, c), T('vec', *([num(0.75)]*m)), T('vec', *([num(0.75)]*(m-1) + [num(0.75 + slack)]))) for c, m in cons])
        I.st[('f', u, 'par_global')] = I.new_dict([(tstr('rel'), rel)])

    def values_of(self, k, symbolic):
        out = []
        for c, d in self.entries(k):
            for nm, ind in d:
                data = raw(self.I, self.variable(c, nm, True)) if symbolic else None
                out += [data.args[i] for i in ind]
        return out

    def variable(self, child, name, symbolic):
        """all entries of a variable (column major)"""
        key = (child, name)
        if key not in self.symbols:
            n = LEN*NSPL if name == 'splines_seg0' else 2
            lab = '%s.%s' % (self.I.st[('f', child, 'label')].args[0], name)
            self.symbols[key] = mx(self.I, self.ctx, T('vec', *[S('%s.%d' % (lab, i)) for i in range(n)]), 'MX', lab)
            self.I.symbols.append(self.symbols[key])
        return self.symbols[key]

    def get_variables(self, I, t, b):
        child, name, sy = b.get('child', b.get('label')), b.get('name'), b.get('symbolic')
        kw = b.get('**kwargs')
        if kw is not None and sy is None:
            for k, v in (self.items_of(kw) or []):
                if k is tstr('symbolic') or k.op == 'str' and k.args[0] == 'symbolic':
                    sy = v
        if name is None or name.op != 'str':
            return t
        m = self.variable(child, name.args[0], True)
        if sy is TRUE:
            d = raw(I, m)
            return mx(I, self.ctx, d, 'MX', I.st[('f', m, 'label')].args[0])
        d = [S('num<%s>' % x.args[0]) for x in raw(I, m).args]
        cols = NSPL if name.args[0] == 'splines_seg0' else 1
        rows = len(d)//cols
        return T('vec', *[T('vec', *[d[c*rows + r] for c in range(cols)]) for r in range(rows)])

    def items_of(self, d):
        c = self.I.hget(d)
        if c is not None and c.op == 'Dct':
            return [(x.args[0], x.args[1]) for x in c.args if x.op == 'kv']
        if d.op == 'dict':
            return [(x.args[0], x.args[1]) for x in d.args if isinstance(x, Term) and x.op == 'kv']
        return None

    def struct(self, k, which, name):
        """a structure of plain symbols"""
        I = self.I
        st = I.st[('f', self.upd[k], which + '_struct')]
        n = int(numval(I.st[('f', st, 'n')]))
        return I.call_func(I.operator(st, '__call__'), [st, mx(I, self.ctx, T('vec', *[S('%s.%d' % (name, i)) for i in range(n)]), 'DM')], {})

    def size(self, k):
        return sum(len(ind) for c, d in self.entries(k) for nm, ind in d)

    def call(self, k, method, *args):
        return self.I.call_method(self.cls, method, list(args), {}, self_term=self.upd[k])

    def field(self, k, name):
        return self.I.st.get(('f', self.upd[k], name))

    def var(self, k, name, store='var_admm'):
        d = self.field(k, store)
        return raw(self.I, self.I.getitem(d, tstr(name)))
