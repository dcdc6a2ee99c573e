"""C13: the optimisation problem handed to the solver contains exactly what the objects declared."""
from ..behave import *
from ..terms import *
from ..core import std_policy
from .c04 import S, O
from .c07 import require_order

ME = T('sym', 'self', 'notnone')
EVENTS = ('_substitute_symbols', 'set_parameters', 'add_to_dict')


def policy(q):
    last = q.split('.')[-1]
    if last in EVENTS:
        return 'event' if last != 'set_parameters' or '.OptiFather.' not in q else 'inline'
    if last == '_make_label':
        return 'event'
    if '.OptiChild.' in q or '.OptiFather.' in q or q.startswith('spec.'):
        return 'inline'
    return STD(q)


STD = std_policy()


def child(I, label, vars_=(), pars=(), syms=(), cons=(), shut=(), values=()):
    c = O('object_' + label)
    I.types[c] = I.prog.cls('OptiChild')
    d = lambda kv: I.new_dict([(tstr(n), v) for n, v in kv])
    st = {'label': tstr(label), '_variables': d([(n, S('var_%s_%s' % (label, n))) for n in vars_]),
          '_parameters': d([(n, S('par_%s_%s' % (label, n))) for n in pars]),
          '_symbols': d([(n, S('sym_%s_%s' % (label, n))) for n in syms]),
          '_values': d([(n, S('val_%s_%s' % (label, n))) for n in list(vars_) + list(pars)]),
          '_substitutes': d([]), '_splines_dual': d([]),
          '_constraints': d([(n, T('tuple', *([S('%s_%s_%s' % (q, label, n)) for q in ('expr', 'lb', 'ub')] + [S('shut_%s_%s' % (label, n)) if n in shut else FALSE])))
                             for n in cons]),
          '_splines_prim': d([(n, d([('basis', S('basis_' + n)), ('init', S('init_' + n) if 'init' in n else NONE)])) for n in vars_ if 'spl' in n]),
          '_objective': S('objective_' + label)}
    for k, v in st.items():
        I.st[('f', c, k)] = v
    return c


def father(*specs, **kw):
    def f(I, s):
        cs = [child(I, **k) for k in specs]
        I.st[('f', s, 'children')] = I.new_dict([(I.st[('f', c, 'label')], c) for c in cs])
        if 'given' in kw:
            # what set_parameters of every child returns
            def par(I, t, bound):
                me = t.args[1] if t.op == 'mcall' else t
                for c in cs:
                    if c is me:
                        rows = kw['given'].get(c.args[0][7:], {})
                        return I.new_dict([(O('object_' + o), I.new_dict([(tstr(n), S('given_%s_%s_%s' % (c.args[0][7:], o, n))) for n in ns])) for o, ns in rows.items()])
                return t
            I.ret_models['set_parameters'] = par
        for k, v in kw.get('fields', {}).items():
            I.st[('f', s, k)] = v(I)
    return f


def entries_of(t):
    """the written entries of a structure value"""
    out = {}
    while t.op == 'upd':
        out.setdefault(t.args[1], t.args[2])
        t = t.args[0]
    return t, out


def same_entries(ctx, key, a, b, what, where):
    x, p = entries_of(a)
    y, q = entries_of(b)
    ctx.equal(key + '.base', x, y, what + ': start value', where)
    for k in sorted(q, key=lambda t: t.dig):
        if k in p:
            ctx.equal('%s[%s]' % (key, short(k, 60)), p[k], q[k], '%s %s' % (what, short(k, 60)), where)
        elif x.op == 'ite' or decided(a, [b]):
            ctx.unknown('%s[%s]' % (key, short(k, 60)), '%s not resolved' % what, where)
        else:
            ctx.bad('%s[%s]' % (key, short(k, 60)), '%s: %s is not set' % (what, short(k, 60)), where, 'missing')
    for k in p:
        if k not in q:
            ctx.bad('%s[%s]' % (key, short(k, 60)), '%s: %s is set to `%s`, specified is to leave it' % (what, short(k, 60), short(p[k], 120)), where, p[k].dig)


def run(ctx):
    ctx.rules.append('C13: what a declaration records and what the assembled problem contains equal the specified records, entry by entry.')
    declarations(ctx)
    constraint(ctx)
    assembly(ctx)
    return 60


def store(n_fields=('_variables', '_parameters', '_symbols', '_values', '_splines_prim', '_splines_dual', '_constraints')):
    def f(I, s):
        for n in n_fields:
            I.st[('f', s, n)] = I.new_dict([])
        I.st[('f', s, '_constraint_cnt')] = S('count')
    return f


def declarations(ctx):
    for kind in ('variable', 'parameter', 'symbol', 'spline_variable', 'spline_parameter', 'spline_symbol'):
        for val in (NONE, S('value')):
            for basis in ((NONE, S('own_basis')) if 'spline' in kind else (NONE,)):
                for size1 in ((1, 2) if kind in ('spline_variable', 'spline_parameter') else (1,)):
                    m = 'define_' + kind
                    key = '%s%d%s%s' % (m, size1, '.value' if val is not NONE else '', '.basis' if basis is not NONE else '')
                    where = ctx.loc('OptiChild', m)

                    def go():
                        kw = {}
                        if val is not NONE and kind != 'symbol':
                            kw['value'] = val
                        if basis is not NONE:
                            kw['basis'] = basis
                        size0 = num(2) if 'spline' in kind else S('size0')
                        args = [tstr('name'), size0, num(size1) if 'spline' in kind else S('size1')]
                        spec = kind if size1 == 1 else {'spline_variable': 'many_variables', 'spline_parameter': 'many_parameters'}[kind]
                        a = run_method(ctx, 'OptiChild', m, args, dict(kw), setup=store(), policy=policy)
                        b = run_spec(ctx, 'assembly.' + spec, 'OptiChild', args, dict(kw), setup=store(), policy=policy)
                        ctx.equal(key + '.ret', a.ret, b.ret, 'returned symbol', where)
                        for f in ('_variables', '_parameters', '_symbols', '_values', '_splines_prim'):
                            x, y = a.field(ME, f), b.field(ME, f)
                            require_dict(ctx, '%s.%s' % (key, f), x, y, '%s records in %s' % (m, f), where)
                            if x.op == 'dict' and len(x.args) > len(y.args):
                                ctx.bad('%s.%s.extra' % (key, f), '%s records unspecified entries in %s: %s' % (m, f, short(x, 150)), where, x.dig)
                        x = a.field(ME, '_values')
                        if 'value' in kw and x.op == 'dict':
                            for y in x.args[1:]:
                                if y.op == 'kv' and y.args[1].op == 'fill':
                                    ctx.bad('%s.value[%s]' % (key, short(y.args[0])), '%s discards the given initial value: `%s`' % (m, short(y.args[1])), where, y.dig)
                    ctx.guard(key, go)


def constraint(ctx):
    where = ctx.loc('OptiChild', 'define_constraint')
    bs = ctx.prog.cls('BSpline')
    for kind, skip in (('spline', None), ('spline', (0, 1)), ('spline', (1, 0)), ('spline', (2, 1)), ('number', None), ('expression', None)):
        for shut in (FALSE, S('condition')):
            for nm in (NONE, tstr('own')):
                key = 'define_constraint.%s%s%s%s' % (kind, '' if skip is None else '%d%d' % skip, '.shut' if shut is not FALSE else '', '.named' if nm is not NONE else '')

                def go():
                    e = S('expression')

                    def setup(I, s):
                        store()(I, s)
                        I.st[('f', s, 'n_cons')] = S('n_cons')
                        I.types[e] = bs if kind == 'spline' else ctx.prog.cls('OptiFather')     # some object that is no spline
                    x = num(3) if kind == 'number' else e
                    kw = {'shutdown': shut}
                    if skip is not None:
                        kw['skip'] = T('list', *[num(k) for k in skip])
                    if nm is not NONE:
                        kw['name'] = nm
                    args = [x, S('lb'), S('ub')]
                    a = run_method(ctx, 'OptiChild', 'define_constraint', args, dict(kw), setup=setup, policy=policy)
                    b = run_spec(ctx, 'assembly.constraint', 'OptiChild', args, dict(kw), setup=setup, policy=policy)
                    d = a.field(ME, '_constraints')
                    rows = [x for x in d.args[1:] if x.op == 'kv'] if d.op == 'dict' else None
                    if rows is None:
                        return ctx.unknown(key, 'recorded constraints not resolved', where)
                    want = b.ret
                    vals = [r.args[1] for r in rows]
                    if want is NONE:
                        if any(v.op != 'bound' and v.op != 'missing' for v in vals):
                            ctx.bad(key, 'a constraint on a number is recorded', where, '')
                        else:
                            ctx.ok(key, 'a number is no constraint', where)
                        return
                    if len(vals) != 1:
                        return ctx.bad(key, 'specified one recorded constraint, found %d' % len(vals), where, '') if all(not decided(v, [want]) for v in vals) else ctx.unknown(key, 'not resolved', where)
                    ctx.equal(key, vals[0], want, 'recorded (expression, lower, upper, shutdown)', where)
                    # every declaration gets a name of its own
                    ctx.equal(key + '.count', a.field(ME, '_constraint_cnt'), padd_one(S('count')), 'counter that makes names unique', where)
                    if S('count') not in tm.subterms(rows[0].args[0]):
                        ctx.bad(key + '.name', 'the name `%s` of a constraint does not depend on the counter: later constraints replace it' % short(rows[0].args[0]), where, '')
                    else:
                        ctx.ok(key + '.name', 'constraint names are unique', where)
                ctx.guard(key, go)


def padd_one(t):
    return tm._padd(t, ONE, 1)


TWO = (dict(label='a0', vars_=['x', 'spl_seg0', 'spl_init_seg0', 'spl_seg1', 'spl_other'], pars=['p', 'p2'], syms=[], cons=['c_0', 'c_1'], shut=['c_1']),
       dict(label='b0', vars_=['y'], pars=['p', 'q'], syms=['x'], cons=['c_0']))


def assembly(ctx):
    cls = 'OptiFather'
    # symbols
    for name, specs in (('one', TWO), ('parameter', (TWO[0], dict(label='b0', syms=['p2', 'q'], pars=['q']))),
                        ('none', (TWO[0], dict(label='b0', syms=['nowhere']))), ('ambiguous', (TWO[0], dict(label='b0', vars_=['x'], syms=['x']))),
                        ('ambiguous2', (TWO[0], dict(label='b0', pars=['x'], syms=['x'])))):
        key = 'symbols.' + name
        where = ctx.loc(cls, 'translate_symbols')

        def go():
            st = father(*specs)
            a = run_method(ctx, cls, 'translate_symbols', [], setup=st, policy=policy)
            b = run_spec(ctx, 'assembly.find_symbols', cls, [NONE], setup=st, policy=policy)
            require_events(ctx, key, a, b, ('.add_to_dict', "raise('ValueError')"), 'symbols', where)
            ra, rb = raises(a), raises(b)
            (ctx.ok if ra == rb else ctx.bad)(key + '.error', 'symbol defined %s: %s' % (name, 'error' if rb else 'no error'), where, *([] if ra == rb else ['']))
        ctx.guard(key, go)
    # constraints
    where = ctx.loc(cls, 'construct_constraints')

    def cons():
        st = father(*TWO)
        a = run_method(ctx, cls, 'construct_constraints', [S('V'), S('P')], setup=st, policy=policy)
        b = run_spec(ctx, 'assembly.constraints', cls, [S('V'), S('P')], setup=st, policy=policy)
        want = {x.args[0]: x.args[1] for x in b.ret.args[1:]}
        got = struct_entries(a.field(ME, '_con_struct'))
        passed = struct_entries(a.ret.args[0] if a.ret.op == 'tuple' else NONE)
        low, up = [setitems(a, a.field(ME, f)) for f in ('_lb', '_ub')]
        shut = a.field(ME, '_constraint_shutdown')
        shut = {x.args[0]: x.args[1] for x in shut.args[1:] if x.op == 'kv'} if shut.op == 'dict' else None
        for nm, v in want.items():
            for table, k, what in ((got, 0, 'expression'), (passed, 0, 'expression handed to the solver')):
                kk = 'constraints.%s.%s' % (short(nm), what)
                if table is None:
                    ctx.unknown(kk, 'structure not resolved', where)
                elif nm in table:
                    ctx.equal(kk, table[nm], v.args[k], what, where)
                else:
                    ctx.bad(kk, 'constraint %s is not part of the problem' % short(nm), where, 'missing')
            for table, k, what in ((low, 1, 'lower bound'), (up, 2, 'upper bound')):
                kk = 'constraints.%s.%s' % (short(nm), what)
                if nm in table:
                    ctx.equal(kk, table[nm], v.args[k], what, where)
                elif any(x.op not in ('str', 'concat') for x in table) or not table:
                    ctx.unknown(kk, 'bounds not resolved', where)
                else:
                    ctx.bad(kk, '%s of %s is not set' % (what, short(nm)), where, 'missing')
            kk = 'constraints.%s.shutdown' % short(nm)
            if v.args[3] is not FALSE:
                s = v.args[3]
                if shut is None:
                    ctx.unknown(kk, 'shutdown conditions not resolved', where)
                elif nm not in shut:
                    ctx.bad(kk, 'shutdown condition of %s is dropped' % short(nm), where, 'missing')
                else:
                    x = tm.substitute(shut[nm], {y: TRUE for y in tm.subterms(shut[nm]) if y.op in ('truth', 'isnone') and y.args[0] is s})
                    ctx.equal(kk, x, s, 'shutdown condition', where)
    ctx.guard('constraints', cons)
    # structures
    for m, f, kind in (('construct_variables', '_var_struct', 'vars_'), ('construct_parameters', '_par_struct', 'pars')):
        where = ctx.loc(cls, m)

        def structure():
            a = run_method(ctx, cls, m, [], setup=father(*TWO), policy=policy)
            t = a.field(ME, f)
            d = struct_entries(t)
            for sp in TWO:
                kk = '%s.%s' % (m, sp['label'])
                if d is None or tstr(sp['label']) not in d:
                    (ctx.unknown if d is None else ctx.bad)(kk, 'entries of %s missing' % sp['label'], where, *([] if d is None else ['missing']))
                    continue
                e = struct_entries(d[tstr(sp['label'])])
                for n in sp[kind]:
                    want = attr(S('%s_%s_%s' % ('var' if kind == 'vars_' else 'par', sp['label'], n)), 'shape')
                    if e is None:
                        ctx.unknown(kk + '.' + n, 'entries not resolved', where)
                    elif tstr(n) not in e:
                        ctx.bad(kk + '.' + n, '%s of %s is not part of the problem' % (n, sp['label']), where, 'missing')
                    else:
                        ctx.equal(kk + '.' + n, e[tstr(n)], want, 'shape of %s of %s' % (n, sp['label']), where)
            (ctx.ok if a.ret is T('struct_symMX', t) else ctx.unknown)(m + '.ret', 'symbols of the structure', where)
        ctx.guard(m, structure)
    for nm, args in (('list', lambda I: [I.new_list([child(I, 'c0'), child(I, 'd0')])]), ('one', lambda I: [child(I, 'c0')]), ('again', lambda I: [child(I, 'a0x')])):
        where = ctx.loc(cls, 'add')

        def add():
            def st(I, s):
                father(*TWO)(I, s)
                if nm == 'again':
                    I.st[('f', O('object_a0x'), 'label')] = tstr('a0')

            def ar(I):
                r = args(I)
                if nm == 'again':
                    I.st[('f', O('object_a0x'), 'label')] = tstr('a0')
                return r
            a = run_method(ctx, cls, 'add', ar, setup=st, policy=policy)
            b = run_spec(ctx, 'assembly.join', cls, ar, setup=st, policy=policy)
            require_dict(ctx, 'add.' + nm, a.field(ME, 'children'), b.field(ME, 'children'), 'objects of the problem', where)
        ctx.guard('add.' + nm, add)
    compare_method(ctx, 'define_objective', 'OptiChild', 'define_objective', 'assembly.add_cost', [S('expr')], observe=(), fields=('_objective',), policy=policy, what='terms of the objective add up')
    where = ctx.loc(cls, 'init_parameters')

    def first():
        a = run_method(ctx, cls, 'init_parameters', [], setup=father(*TWO, given={'a0': {'a0': ['p']}}), policy=policy)
        b = run_spec(ctx, 'assembly.parameter_values', cls, [ZERO], setup=father(*TWO, given={'a0': {'a0': ['p']}}), policy=policy)
        same_entries(ctx, 'first', a.field(ME, '_par_result'), b.field(ME, '_par_result'), 'parameter before the first update', where)
        require_events(ctx, 'first', a, b, ('.set_parameters',), 'parameters at time zero', where)
    ctx.guard('first', first)
    compare_method(ctx, 'objective', cls, 'construct_objective', 'assembly.objective', [S('V'), S('P')], setup=father(*TWO), policy=policy, what='total objective')
    # values
    where = ctx.loc(cls, 'init_variables')

    def init():
        a = run_method(ctx, cls, 'init_variables', [], setup=father(*TWO), policy=policy)
        b = run_spec(ctx, 'assembly.initial_values', cls, [], setup=father(*TWO), policy=policy)
        same_entries(ctx, 'initial', a.field(ME, '_var_result'), b.field(ME, '_var_result'), 'initial value', where)
        ctx.equal('initial.dual', a.field(ME, '_dual_var_result'), b.field(ME, '_dual_var_result'), 'initial multipliers', where)
    ctx.guard('initial', init)
    where = ctx.loc(cls, 'set_parameters')
    for name, given in (('own', {'a0': {'a0': ['p']}, 'b0': {'b0': ['p', 'q']}}), ('other', {'a0': {'a0': ['p'], 'b0': ['q']}, 'b0': {'b0': ['p']}}),
                        ('late', {'a0': {'b0': ['p']}, 'b0': {'a0': ['p2'], 'b0': ['q']}}), ('none', {}), ('twice', {'a0': {'b0': ['q']}, 'b0': {'b0': ['q']}})):
        key = 'parameters.' + name

        def par():
            st = father(*TWO, given=given)
            a = run_method(ctx, cls, 'set_parameters', [S('time')], setup=st, policy=policy)
            b = run_spec(ctx, 'assembly.parameter_values', cls, [S('time')], setup=st, policy=policy)
            if b.ret.op == 'raises':
                (ctx.ok if a.ret.op == 'raises' else ctx.bad)(key, 'a parameter set twice is an error', where, *([] if a.ret.op == 'raises' else ['']))
                return
            same_entries(ctx, key, a.ret, b.ret, 'parameter', where)
            same_entries(ctx, key + '.kept', a.field(ME, '_par_result'), b.field(ME, '_par_result'), 'parameter', where)
            require_events(ctx, key, a, b, ('.set_parameters',), 'parameters asked at the present time', where)
        ctx.guard(key, par)
    # bounds
    where = ctx.loc(cls, 'update_bounds')

    def bounds():
        tab = lambda pre: (lambda I: I.new_dict([(tstr(n), S(pre + n)) for n in ('c_0_a', 'c_1_a', 'c_0_b')]))
        st = father(*TWO, fields={'_lb': tab('lb_'), '_ub': tab('ub_'), '_constraint_shutdown':
                                  lambda I: I.new_dict([(tstr('c_1_a'), S('cond1')), (tstr('c_0_b'), S('cond2'))])})
        a = run_method(ctx, cls, 'update_bounds', [S('time')], setup=st, policy=policy)
        b = run_spec(ctx, 'assembly.bounds', cls, [S('time')], setup=st, policy=policy)
        if a.ret.op not in ('tuple', 'list', 'vec') or len(a.ret.args) != 2:
            return ctx.unknown('bounds', 'result not resolved', where)
        for k, what in ((0, 'lower bound'), (1, 'upper bound')):
            require_dict(ctx, 'bounds.' + what, predicate(a.ret.args[k]), predicate(b.ret.args[k]), what, where)
        for f in ('_lb', '_ub'):
            require_dict(ctx, 'bounds' + f, predicate(a.field(ME, f)), predicate(b.field(ME, f)), 'declared bound is kept for later updates', where)
    ctx.guard('bounds', bounds)
    # shifts
    where = ctx.loc(cls, 'transform_primal_splines')
    for name, arg in (('default', None), ('first', T('list', ZERO)), ('second', T('list', ONE)), ('both', T('list', ZERO, ONE)), ('number', ONE)):
        key = 'shift.' + name

        def shift():
            args = [S('transform')] + ([arg] if arg is not None else [])
            sargs = [S('transform')] + ([arg if arg.op == 'list' else T('list', arg)] if arg is not None else [])
            st = father(*TWO)
            a = run_method(ctx, cls, 'transform_primal_splines', args, setup=st, policy=policy)
            b = run_spec(ctx, 'assembly.shifted', cls, sargs, setup=st, policy=policy)
            same_sets(ctx, key, a, b, where)
        ctx.guard(key, shift)


    access(ctx)


def named(*specs):
    """two symbols of two objects occur in an expression"""
    def f(I, s):
        father(*specs)(I, s)
        cs = [O('object_' + sp['label']) for sp in specs]
        syms = [S('sx'), S('sp'), S('sz')]
        I.ret_models['ext:symvar'] = lambda I, t, args: T('list', *syms)
        I.ret_models['obj:name'] = lambda I, t, args: tstr('name_' + t.args[1].args[0]) if t.args[1] in syms else t
        I.st[('f', s, 'symbol_dict')] = I.new_dict([(tstr('name_sx'), I.new_list([cs[0], tstr('x')])), (tstr('name_sp'), I.new_list([cs[1], tstr('p')])),
                                                    (tstr('name_sz'), I.new_list([cs[1], tstr('z')]))])
    return f


def access(ctx):
    cls = 'OptiFather'
    V, P = S('V'), S('P')
    full = lambda q: 'inline' if '.OptiFather.' in q or q.startswith('spec.') else STD(q)
    # a symbol that is both a variable and a parameter of its object is the variable; others stay symbols
    for key, pars in (('parameter', ['p', 'q']), ('both', ['p', 'q', 'y'])):
        specs = (TWO[0], dict(label='b0', vars_=['y'], pars=pars))
        compare_method(ctx, 'resolve.' + key, cls, '_substitute_symbols', 'assembly.resolved', [S('expr'), V, P], setup=named(*specs), policy=full,
                       what='symbols replaced by the entries of their owners')
    where = ctx.loc(cls, 'construct_problem')
    steps = ('compose_dictionary', 'translate_symbols', 'construct_variables', 'construct_parameters', 'construct_substitutes', 'construct_constraints',
             'construct_objective', 'create_nlp', 'init_variables', 'init_parameters')

    def build():
        a = run_method(ctx, cls, 'construct_problem', [S('options'), S('name')], events=steps)
        b = run_spec(ctx, 'assembly.problem', cls, [S('options'), S('name')], events=steps)
        require_events(ctx, 'problem', a, b, ('.construct_substitutes', '.construct_constraints', '.construct_objective', 'create_nlp',
                                              '.compose_dictionary', '.translate_symbols', '.init_variables', '.init_parameters'), 'assembly', where, forbid_extra=False)
        for x, y in (('compose_dictionary', 'construct_constraints'), ('translate_symbols', 'construct_constraints'), ('translate_symbols', 'construct_objective'),
                     ('construct_variables', 'init_variables'), ('construct_constraints', 'init_variables'), ('construct_parameters', 'init_parameters')):
            require_order(ctx, 'problem', a, x, y, where)
        ctx.equal('problem.ret', a.ret, b.ret, 'solver and build time', where)
    ctx.guard('problem', build)
    oc = O('object_a0')
    for m, spec in (('get_variables', 'result'), ('get_parameters', 'given')):
        for nm in (('x', 'spl_seg0') if spec == 'result' else ('p', 'spl_p')):
            for kw in ({}, {'symbolic': TRUE}, {'spline': FALSE}, {'symbolic': TRUE, 'spline': FALSE}, {'symbolic': FALSE}, {'spline': TRUE}):
                key = '%s.%s.%s' % (m, nm, '-'.join('%s%d' % (k, v is TRUE) for k, v in sorted(kw.items())))
                sp = dict(TWO[0])
                if spec == 'given':
                    sp['pars'] = ['p', 'spl_p']

                def st(I, s):
                    father(sp, TWO[1])(I, s)
                    if spec == 'given':
                        I.st[('f', oc, '_splines_prim')] = I.new_dict([(tstr('spl_p'), I.new_dict([(tstr('basis'), S('basis_p'))]))])
                compare_method(ctx, key, cls, m, 'assembly.' + spec, [oc, tstr(nm)], dict(kw), setup=st, policy=policy, what='value of %s' % nm)
        for args in ([], [oc]):
            compare_method(ctx, '%s.%d' % (m, len(args)), cls, m, 'assembly.' + spec, args, setup=father(*TWO), policy=policy, what='stored values')
    for m, spec, f in (('set_variables', 'store_result', '_var_result'), ('set_dual_variables', 'store_dual', '_dual_var_result')):
        for args in ([S('value')], [S('value'), oc], [S('value'), oc, tstr('x')]):
            compare_method(ctx, '%s.%d' % (m, len(args)), cls, m, 'assembly.' + spec, args, observe=(), fields=(f,), events=('setitem',), setup=father(*TWO),
                           policy=policy, what='stored result')
    where = ctx.loc('OptiChild', 'reset')

    def reset():
        a = run_method(ctx, 'OptiChild', 'reset', [], setup=lambda I, s: child_state(I, s), policy=policy)
        for f in ('_variables', '_parameters', '_symbols', '_substitutes', '_constraints', 'symbol_dict', '_splines_prim', '_splines_dual', '_values'):
            ctx.equal('reset.' + f, a.field(ME, f), T('dict', NONE), 'a rebuilt problem starts without the old %s' % f, where)
        b = run_spec(ctx, 'assembly.fresh', 'OptiChild', [])
        for f in ('_objective', '_constraint_cnt'):
            ctx.equal('reset.' + f, a.field(ME, f), b.field(ME, f), 'a rebuilt problem starts with a fresh %s' % f, where)
    ctx.guard('reset', reset)
    m, node = ctx.prog.func('omgtools.basics.optilayer', 'create_nlp')
    where = 'omgtools/basics/optilayer.py:%d create_nlp' % node.lineno

    def nlp():
        def opts(I):
            return [S('var'), S('par'), S('obj'), S('con'), I.new_dict([
                (tstr('codegen'), I.new_dict([(tstr('build'), NONE), (tstr('flags'), S('flags'))])), (tstr('verbose'), ZERO), (tstr('solver'), tstr('ipopt')),
                (tstr('solver_options'), I.new_dict([(tstr('ipopt'), I.new_dict([(tstr('ipopt.tol'), S('tol'))])), (tstr('other'), I.new_dict([(tstr('o'), S('o'))]))]))])]
        a = run_func(ctx, 'omgtools.basics.optilayer', 'create_nlp', opts)
        b = run_spec(ctx, 'assembly.nlp', None, opts)
        r = a.ret.args[0] if a.ret.op in ('tuple', 'list', 'vec') else a.ret
        if r.op != 'nlpsol' or len(r.args) != 4:
            return ctx.unknown('nlp', 'solver not resolved: %s' % short(r, 100), where)
        ctx.equal('nlp.solver', r.args[1], b.ret.args[1], 'chosen solver', where)
        require_dict(ctx, 'nlp.parts', r.args[2], b.ret.args[2], 'problem handed to the solver', where)
        require_dict(ctx, 'nlp.options', r.args[3], b.ret.args[3], 'solver options', where)
    ctx.guard('nlp', nlp)


def child_state(I, s):
    for n in ('_variables', '_parameters', '_symbols', '_substitutes', '_constraints', 'symbol_dict', '_splines_prim', '_splines_dual', '_values'):
        I.st[('f', s, n)] = I.new_dict([(tstr('old'), S('old'))])
    I.st[('f', s, '_objective')] = S('old_objective')
    I.st[('f', s, '_constraint_cnt')] = S('old_count')


def same_sets(ctx, key, a, b, where):
    sets = lambda r: [e for e in r.events if e.name == 'setitem']
    for e in a.events + b.events:
        if e.name == 'setitem':
            e.recv = attr(ME, '_var_result')
    require_events(ctx, key, a, b, ('setitem',), 'shifted spline', where)


def predicate(t):
    """the evaluated shutdown condition is one truth value per condition"""
    m = {}
    for x in tm.subterms(t):
        if x.op in ('truth', 'call') or x.op == 'fcall':
            sub = tm.subterms(x)
            for c in ('cond1', 'cond2'):
                if S(c) in sub and S('time') in sub:
                    m[x] = T('sym', 'is_' + c, 'notnone')
    return tm.substitute(t, m) if m else t


def raises(r):
    return r.ret.op == 'raises' or any(e.name.startswith('raise') and e.pc is TRUE for e in r.events)


def struct_entries(t):
    """name -> expression / shape / structure of a casadi struct"""
    if t.op == 'tuple' and t.args:
        t = t.args[0]
    if t.op not in ('struct', 'struct_MX', 'struct_symMX') or len(t.args) != 1:
        return None
    lst = t.args[0]
    if lst.op not in ('list', 'vec', 'tuple'):
        return None
    out = {}
    for x in lst.args:
        kw = [y for y in x.args[1:] if y.op == 'kwarg'] if x.op == 'entry' else []
        if len(kw) != 1:
            return None
        out[x.args[0]] = kw[0].args[1]
    return out


def setitems(run, base):
    """entries written to a structure after it was made"""
    b, d = entries_of(base)
    if not d:
        for e in run.events:
            if e.name == 'setitem' and e.recv is not None and entries_of(e.recv)[0] is b and e.pc is TRUE:
                d[e.args[0]] = e.args[1]
    return d
