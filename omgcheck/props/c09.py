"""C09: options and bounds: what the user gives is used, the rest has its default, options are told apart by value and no dictionary is shared."""
import ast
from .. import terms as tm
from ..terms import T, Term as T_
from ..behave import tstr
from .. import matrices
from .c04 import S, O

PI = T('ext', 'pi')
VEHICLE = {'safety_distance': 0., 'safety_weight': 10., 'room_constraints': True, 'stop_tol': 1.e-3, 'ideal_prediction': False, 'ideal_update': False,
           '1storder_delay': False, 'time_constant': 0.1, 'input_disturbance': None}
IPOPT = {'ipopt.tol': 1e-3, 'ipopt.warm_start_init_point': 'yes', 'ipopt.print_level': 0, 'print_time': 0, 'ipopt.fixed_variable_treatment': 'make_constraint'}
PROBLEM = {'verbose': 2, 'solver': 'ipopt'}


def more(base, **kw):
    d = dict(base)
    d.update(kw)
    return d


FIXED = more(PROBLEM, inter_vehicle_avoidance=False, horizon_time=10., hard_term_con=False, no_term_con_der=False)
DUAL = more(PROBLEM, separate_build=False, max_iter=None, max_iter_per_update=1, rho=2., init_iter=5)
# class: (options by default)
PROBLEMS = {
    'FixedTPoint2point': FIXED, 'FreeTPoint2point': more(PROBLEM, inter_vehicle_avoidance=False), 'FreeEndPoint2point': FIXED,
    'FormationPoint2pointCentral': more(FIXED, soft_formation=False, soft_formation_weight=10, max_formation_deviation='inf'),
    'MultiFrameProblem': more(PROBLEM, inter_vehicle_avoidance=False), 'GCodeProblem': PROBLEM,
    'ADMMProblem': more(DUAL, nesterov_acceleration=False, eta=0.999, nesterov_reset=False, AMA=False), 'DDProblem': DUAL,
}


def sym(lo, hi, **kw):
    """bounds name -> default"""
    return more({k: v for k, v in zip(('vmin', 'vmax', 'amin', 'amax'), (-lo, lo, -hi, hi))}, **kw)


def pi(n):
    return ('pi', n)


U3 = dict(u1min=2., u1max=15., u2min=-2., u2max=2., u3min=-2., u3max=2., phimin=pi(-6), phimax=pi(6), thetamin=pi(-6), thetamax=pi(6))
STEER = dict(dmin=pi(-6), dmax=pi(6), ddmin=pi(-4), ddmax=pi(4))
AXES = {a + x + e: v * s for a, v in (('v', .5), ('a', 1.), ('j', 2.)) for x in 'xyz' for e, s in (('min', -1), ('max', 1))}
# class: (options on top of those of every vehicle, bounds, arguments)
VEHICLES = {
    'Holonomic': (dict(syslimit='norm_inf'), {k: v for k, v in AXES.items() if k[0] in 'va' and k[1] in 'xy'}, {}),
    'Holonomic1D': ({}, sym(.5, 1.), {}),
    'Holonomic3D': (dict(syslimit='norm_inf'), sym(.5, 1.), {'shapes': 'ball'}),
    'HolonomicOrient': (dict(syslimit='norm_inf', reg_type=None), sym(.5, 1., wmin=pi(-6), wmax=pi(6)), {}),
    'Dubins': (dict(stop_tol=1.e-2, substitution=False, exact_substitution=False), dict(vmax=.5, amax=1., wmin=pi(-6), wmax=pi(6)), {}),
    'Trailer': ({}, dict(tmin=pi(-4), tmax=pi(4)), {}),
    'Bicycle': (dict(plot_type='bicycle', substitution=False, exact_substitution=False), dict(STEER, vmax=.8, amax=1.), {}),
    'AGV': (dict(plot_type='agv'), dict(STEER, vmax=.5, amax=1.), {}),
    'Quadrotor': (dict(stop_tol=1.e-2), dict(u1min=2., u1max=15., u2min=-8., u2max=8.), {}),
    'Quadrotor3D': (dict(stop_tol=.5, substitution=True, exact_substitution=False), U3, {}),
    'SimpleQuadrotor3D': (dict(stop_tol=.5), U3, {}),
    'Tool': (dict(vel_limit='machining', variable_tolerance=False), AXES, {'tolerance': 'tol', 'tol_small': 'small'}),
}
# one bound for all directions
SHORT = {'Holonomic': {a + e: [a + 'x' + e, a + 'y' + e] for a in 'va' for e in ('min', 'max')},
         'Tool': {a + e: [a + x + e for x in ('xy' if a == 'v' else 'xyz')] for a in 'vaj' for e in ('min', 'max')}}


def run(ctx):
    ctx.rules.append('C09: construct every vehicle, problem and obstacle with opaque options and bounds and compare what it holds with the table of defaults and the '
                     'values given; the dictionaries given stay as they are and are not shared; no value is compared by identity; every option '
                     'that is read has a default, is set or is asked for.')
    n = vehicles(ctx)
    n += problems(ctx)
    n += obstacles(ctx)
    n += identity(ctx)
    n += read(ctx)
    return n


def inline(q):
    return 'pure' if q.rsplit('.', 1)[-1] in ('define_knots',) else 'inline'


def const(v):
    if isinstance(v, T_):
        return v
    if isinstance(v, tuple):
        return tm.div(PI, tm.num(v[1]))
    if v is None:
        return tm.NONE
    if isinstance(v, bool):
        return tm.mkbool(v)
    if v == 'inf':
        return tm.INF
    return tstr(v) if isinstance(v, str) else tm.num(v)


def value(I, v):
    return I.new_dict([(tstr(k), value(I, x)) for k, x in v.items()]) if isinstance(v, dict) else const(v)


def entries(t):
    """entries of a resolved dictionary of strings (None: not resolved)"""
    if t.op != 'dict' or t.args[0] is not tm.NONE or any(x.op != 'kv' or x.args[0].op != 'str' for x in t.args[1:]):
        return None
    return {x.args[0].args[0]: x.args[1] for x in t.args[1:]}


def same_dict(ctx, key, got, want, what, where):
    """got: frozen term; want: {name: python value, term or dictionary}; entries that are not specified do not matter"""
    have = entries(got)
    if have is None:
        ctx.unknown(key, '%s: not a resolved dictionary' % what, where)
        return 0
    n = 0
    for k, v in sorted(want.items()):
        n += 1
        if k not in have:
            ctx.bad('%s[%s]' % (key, k), '%s: %s is missing' % (what, k), where)
        elif isinstance(v, dict):
            n += same_dict(ctx, '%s[%s]' % (key, k), have[k], v, '%s, %s' % (what, k), where)
        else:
            ctx.equal('%s[%s]' % (key, k), have[k], const(v), '%s: %s' % (what, k), where)
    return n


def untouched(ctx, key, I, given, before, what, where):
    after = I.freeze(given)
    have, had = entries(after), entries(before)
    if have is None or had is None:
        ctx.unknown(key, 'dictionary given: not resolved', where)
    else:
        extra = sorted(set(have) - set(had)) + sorted(set(had) - set(have))
        if extra:
            ctx.bad(key, 'the dictionary of the %s the caller gave has changed: %s' % (what, ', '.join(extra)), where)
        else:
            for k in sorted(had):
                ctx.equal('%s[%s]' % (key, k), have[k], had[k], 'the %s the caller gave: %s' % (what, k), where)


def world(ctx):
    I = ctx.interp(policy=inline)
    matrices.install(I)
    I.extra_quiet = True
    return I


def build(ctx, I, cls, kwargs, args=()):
    c = ctx.prog.cls(cls)
    s = T('sym', 'new%d' % len(I.types), 'notnone')
    I.types[s] = c
    I.call_method(c, '__init__', list(args), kwargs, self_term=s)
    ctx.functions |= set(q for q in I.visited if not q.startswith('spec.'))
    return s


def held(I, s, name):
    v = I.st.get(('f', s, name))
    return T('attr', s, name) if v is None else I.freeze(v)


# ---------------------------------------------------------------- vehicles

def vehicles(ctx):
    n = 0
    for cls, (opts, bounds, extra) in VEHICLES.items():
        where = ctx.loc(cls, '__init__')
        default = more(VEHICLE, **opts)
        names = sorted(bounds)
        cases = [('none', []), ('all', names), ('even', names[::2]), ('odd', names[1::2])] + [('short.' + k, [k]) for k in sorted(SHORT.get(cls, {}))]
        cases += [('only.' + k, [k]) for k in names] + [('but.' + k, [x for x in names if x != k]) for k in names]
        for case, given in cases:
            def go():
                I = world(ctx)
                kw = {k: O('shape') if v == 'ball' else S(v) for k, v in extra.items()}
                for v in kw.values():
                    if v is O('shape'):
                        I.types[v] = ctx.prog.cls('Sphere')
                mine = {'stop_tol': S('mytol'), 'safety_distance': S('mydist'), 'of_the_user': S('x')} if case != 'none' else {}
                if case != 'none':
                    kw['bounds'] = value(I, {k: S('my_' + k) for k in given})
                    kw['options'] = value(I, mine)
                    before = {k: I.freeze(kw[k]) for k in ('bounds', 'options')}
                s = build(ctx, I, cls, kw)
                expect = {k: S('my_' + k) if k in given else v for k, v in bounds.items()}
                for k in given:
                    for x in SHORT.get(cls, {}).get(k, []):
                        expect[x] = S('my_' + k)
                for k, v in sorted(expect.items()):
                    ctx.equal('%s.%s.%s' % (cls, case, k), held(I, s, k), const(v), 'bound %s with bounds given for %s' % (k, ', '.join(given) or 'nothing'), where)
                same_dict(ctx, '%s.%s.options' % (cls, case), held(I, s, 'options'), more(default, **mine), 'options of a %s' % cls, where)
                if case != 'none':
                    for k in before:
                        untouched(ctx, '%s.%s.given.%s' % (cls, case, k), I, kw[k], before[k], k, where)
                if case == 'all':
                    other = build(ctx, I, cls, {k: v for k, v in kw.items() if k not in ('options', 'bounds')})
                    for k, v in sorted(bounds.items()):
                        ctx.equal('%s.second.%s' % (cls, k), held(I, other, k), const(v), 'bound %s of a second %s' % (k, cls), where)
                    same_dict(ctx, '%s.second.options' % cls, held(I, other, 'options'), default, 'options of a second %s' % cls, where)
            ctx.guard('%s.%s' % (cls, case), go)
            n += 1

    def norm2():
        I = world(ctx)
        s = build(ctx, I, 'Holonomic', {'options': value(I, {'syslimit': 'norm_2'}), 'bounds': value(I, {'vmax': S('v')})})
        ctx.equal('Holonomic.norm_2.vmax', held(I, s, 'vmax'), S('v'), 'speed bound', ctx.loc('Holonomic', '__init__'))
        ctx.equal('Holonomic.norm_2.amax', held(I, s, 'amax'), tm.num(1), 'acceleration bound', ctx.loc('Holonomic', '__init__'))
    ctx.guard('Holonomic.norm_2', norm2)
    return n + 1


# ---------------------------------------------------------------- problems

def problems(ctx):
    n = 0
    for cls, default in PROBLEMS.items():
        c = ctx.prog.cls(cls)
        where = ctx.loc(cls, 'set_options')
        mine = {'verbose': S('v'), 'horizon_time': S('T'), 'rho': S('rho'), 'of_the_user': S('x')}
        nested = more(mine, solver_options={'ipopt': {'ipopt.tol': S('tol'), 'ipopt.max_iter': S('n')}, 'knitro': {'a': S('a')}}, codegen={'flags': S('flags')})
        solver = {'ipopt': more(IPOPT, **{'ipopt.tol': S('tol'), 'ipopt.max_iter': S('n')}), 'knitro': {'a': S('a')}}
        plain = more(default, solver_options={'ipopt': IPOPT}, codegen={'build': None, 'flags': '-O0'})
        cases = [('none', {}, plain), ('flat', mine, more(plain, **mine)),
                 ('nested', nested, more(plain, **more(mine, solver_options=solver, codegen={'build': None, 'flags': S('flags')})))]
        for case, given, expect in cases:
            def go():
                I = world(ctx)
                s, t = T('sym', 'self', 'notnone'), T('sym', 'second', 'notnone')
                kids = [O('problem%d' % k) for k in range(2)]
                distributed = c.is_sub(ctx.prog.cls('DistributedProblem'))
                for x in (s, t):
                    I.types[x] = c
                    if distributed:
                        I.st[('f', x, 'problems')] = I.new_list(kids if x is s else [])
                for x in kids:
                    I.types[x] = ctx.prog.cls('FixedTPoint2point')
                    if distributed:
                        I.call_method(I.types[x], 'set_default_options', [], {}, self_term=x)
                d = value(I, given)
                before = I.freeze(d)
                for x, o in ((s, d), (t, value(I, {}))):
                    I.call_method(c, 'set_default_options', [], {}, self_term=x)
                    I.call_method(c, 'set_options', [o], {}, self_term=x)
                ctx.functions |= set(q for q in I.visited if not q.startswith('spec.'))
                same_dict(ctx, '%s.%s' % (cls, case), held(I, s, 'options'), expect, 'options of a %s' % cls, where)
                same_dict(ctx, '%s.%s.second' % (cls, case), held(I, t, 'options'), plain, 'options of a second %s' % cls, where)
                untouched(ctx, '%s.%s.given' % (cls, case), I, d, before, 'options', where)
                if distributed:
                    kid = more(FIXED, solver_options={'ipopt': IPOPT}, codegen={'build': None, 'flags': '-O0'})
                    kid.update(mine if case != 'none' else {})
                    if case == 'nested':
                        kid.update(solver_options=solver, codegen={'build': None, 'flags': S('flags')})
                    for k, x in enumerate(kids):
                        same_dict(ctx, '%s.%s.problem%d' % (cls, case, k), held(I, x, 'options'), kid, 'options of the problem of vehicle %d' % k, where)
            ctx.guard('%s.%s' % (cls, case), go)
            n += 1
    return n


# ---------------------------------------------------------------- obstacles

def obstacles(ctx):
    default = {'draw': True, 'avoid': True, 'spline_traj': False, 'bounce': False}
    n = 0
    for cls, extra in (('Obstacle2D', {'horizon_time': None}), ('Obstacle3D', {})):
        where = ctx.loc(cls, 'set_options')

        def go():
            I = world(ctx)
            c = ctx.prog.cls(cls)
            xs = [T('sym', 'obs%d' % k, 'notnone') for k in range(2)]
            d = value(I, {'avoid': S('avoid'), 'of_the_user': S('x')})
            before = I.freeze(d)
            for x, o in zip(xs, (d, value(I, {}))):
                I.types[x] = c
                I.call_method(c, 'set_default_options', [], {}, self_term=x)
                I.call_method(c, 'set_options', [o], {}, self_term=x)
            ctx.functions |= set(q for q in I.visited if not q.startswith('spec.'))
            same_dict(ctx, cls, held(I, xs[0], 'options'), more(default, avoid=S('avoid'), of_the_user=S('x'), **extra), 'options of an %s' % cls, where)
            same_dict(ctx, cls + '.second', held(I, xs[1], 'options'), more(default, **extra), 'options of a second %s' % cls, where)
            untouched(ctx, cls + '.given', I, d, before, 'options', where)
        ctx.guard(cls, go)
        n += 1
    return n


# ---------------------------------------------------------------- by value

def identity(ctx):
    """strings and numbers are compared by value"""
    n = 0
    for m, cls, fn in functions(ctx):
        for x in ast.walk(fn):
            if isinstance(x, ast.Compare):
                sides = [x.left] + x.comparators
                for k, op in enumerate(x.ops):
                    if isinstance(op, (ast.Is, ast.IsNot)):
                        n += 1
                        key = 'identity.%s.%s' % (m.name, '.'.join(y for y in (cls, fn.name) if y))
                        if any(literal(e) for e in sides[k:k + 2]):
                            ctx.bad(key, 'a value is compared by identity', at(m, x, cls, fn))
                        else:
                            ctx.ok(key, 'identity is asked of objects only', at(m, x, cls, fn))
    return n


def literal(e):
    if isinstance(e, ast.UnaryOp):
        return literal(e.operand)
    return isinstance(e, (ast.List, ast.Dict, ast.Tuple, ast.Set)) or isinstance(e, ast.Constant) and e.value is not None and not isinstance(e.value, bool) and e.value is not Ellipsis


def at(m, node, cls, fn):
    i = m.path.find('omgtools/')
    return '%s:%d %s' % (m.path[i:], node.lineno, '.'.join(x for x in (cls, fn.name) if x))


def functions(ctx):
    for m in ctx.prog.modules.values():
        if m.name.split('.')[0] == 'omgtools':
            for x in m.tree.body:
                if isinstance(x, ast.FunctionDef):
                    yield m, None, x
                elif isinstance(x, ast.ClassDef):
                    for y in x.body:
                        if isinstance(y, ast.FunctionDef):
                            yield m, x.name, y


# ---------------------------------------------------------------- what is read exists

def read(ctx):
    """an option a class reads of itself has a default in that class, is set, or the reader asks for it or for another option first"""
    prog = ctx.prog
    keys = lambda e: e.value if isinstance(e, ast.Constant) and isinstance(e.value, str) else None
    mine = lambda e: isinstance(e, ast.Attribute) and e.attr == 'options' and isinstance(e.value, ast.Name) and e.value.id == 'self'
    made = {}
    for m, cls, fn in functions(ctx):
        if cls is None:
            continue
        names = made.setdefault(m.classes[cls], set())
        for x in ast.walk(fn):
            if isinstance(x, ast.Dict):
                names |= {keys(k) for k in x.keys if k is not None}
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                names.add(keys(x.slice))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('setdefault', 'update'):
                names |= {keys(a) for a in x.args[:1]} | {k.arg for k in x.keywords}
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'dict':
                names |= {k.arg for k in x.keywords}
    n = 0
    for m, cls, fn in functions(ctx):
        if cls is None:
            continue
        c = m.classes[cls]
        holders = [k for k in family(prog, c)]

        def visit(x, asked):
            out = []
            if isinstance(x, (ast.If, ast.IfExp, ast.While)):
                if any(mine(y) for y in ast.walk(x.test)):
                    out += visit(x.test, True if has_in(x.test) else asked)
                    rest = (x.body if isinstance(x.body, list) else [x.body]) + (x.orelse if isinstance(x.orelse, list) else [x.orelse])
                    for y in rest:
                        out += visit(y, True)
                    return out
            if isinstance(x, ast.BoolOp) and has_in(x) or isinstance(x, ast.Try):
                asked = True
            elif isinstance(x, ast.BoolOp):
                for y in x.values:
                    out += visit(y, asked)
                    asked = asked or any(mine(z) for z in ast.walk(y))
                return out
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and mine(x.value) and keys(x.slice) and not asked:
                out.append(x)
            for y in ast.iter_child_nodes(x):
                out += visit(y, asked)
            return out
        has_in = lambda e: any(isinstance(y, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in y.ops) for y in ast.walk(e))
        for x in visit(fn, False):
            k = keys(x.slice)
            n += 1
            key = 'read.%s.%s.%s' % (cls, fn.name, k)
            if not any(k in names for names in made.values()) and all(complete(h) for h in holders):
                ctx.bad(key, 'option %s is read and nothing gives it a default' % k, at(m, x, cls, fn))
            else:
                ctx.ok(key, 'option %s has a default' % k, at(m, x, cls, fn))
    return n


def complete(c):
    return all(len(k.bases()) == len([b for b in k.node.bases if not (isinstance(b, ast.Name) and b.id == 'object')]) for k in c.mro())


def family(prog, c):
    return [k for m in prog.modules.values() for k in m.classes.values() if k.is_sub(c)]
