"""The modelling layer: what a declaration records, and how the declarations of all objects are put together."""
import copy
import numpy as np
from casadi import MX, inf, Function, symvar, substitute, nlpsol
from casadi.tools import struct, entry, struct_symMX, struct_MX
from omgtools.basics.optilayer import create_nlp
from omgtools.basics.spline import BSpline


# ---- declarations

def declare(self, dictionary, name, rows, cols, value):
    x = MX.sym(name + '_' + self.label, rows, cols)
    dictionary[name] = x
    self._values[name] = np.zeros((rows, cols)) if value is None else value
    return x


def variable(self, name, size0, size1, value=None):
    return declare(self, self._variables, name, size0, size1, value)


def parameter(self, name, size0, size1, value=None):
    return declare(self, self._parameters, name, size0, size1, value)


def symbol(self, name, size0, size1, value=None):
    return declare(self, self._symbols, name, size0, size1, value)


def spline(self, dictionary, name, size0, basis, value):
    x = declare(self, dictionary, name, len(basis), size0, value)
    self._splines_prim[name] = {'basis': basis}
    return [BSpline(basis, x[:, k]) for k in range(size0)]


def spline_variable(self, name, size0, size1, value=None, basis=None):
    return spline(self, self._variables, name, size0, self.basis if basis is None else basis, value)


def spline_parameter(self, name, size0, size1, value=None, basis=None):
    return spline(self, self._parameters, name, size0, self.basis if basis is None else basis, value)


def spline_symbol(self, name, size0, size1, value=None, basis=None):
    return spline(self, self._symbols, name, size0, self.basis if basis is None else basis, value)


def many(self, dictionary, name, size0, size1, value, basis):
    return [spline(self, dictionary, name + str(k), size0, self.basis if basis is None else basis, value) for k in range(size1)]


def many_variables(self, name, size0, size1, value=None, basis=None):
    return many(self, self._variables, name, size0, size1, value, basis)


def many_parameters(self, name, size0, size1, value=None, basis=None):
    return many(self, self._parameters, name, size0, size1, value, basis)


# ---- assembly

def find_symbols(self, names):
    """(object that declares it, symbol) of every symbol; an unknown or ambiguous symbol is an error"""
    for label, child in self.children.items():
        for name, symb in child._symbols.items():
            owners = [c for c in self.children.values() if name in c._variables or name in c._parameters]
            if len(owners) != 1:
                raise ValueError('symbol')
            self.add_to_dict(symb, owners[0], name)


def initial_values(self):
    x = self._var_struct(0.)
    for label, child in self.children.items():
        for name in child._variables.keys():
            x[label, name] = child._values[name]
    self._var_result = x
    self._dual_var_result = self._con_struct(0.)


def parameter_values(self, time):
    p = self._par_struct(0.)
    self._par_result = p
    given = {}
    for label, child in self.children.items():
        for owner, values in child.set_parameters(time).items():
            if owner not in given:
                given[owner] = {}
            for name in values.keys():
                if name in given[owner]:
                    raise ValueError('twice')
            for name in values.keys():
                given[owner][name] = values[name]
    for label, child in self.children.items():
        for name in child._parameters.keys():
            if child in given and name in given[child]:
                p[label, name] = given[child][name]
            else:
                p[label, name] = child._values[name]
    self._par_result = p
    return p


def bounds(self, time):
    lb, ub = copy.deepcopy(self._lb), copy.deepcopy(self._ub)
    for name, shutdown in self._constraint_shutdown.items():
        if eval('lambda t: %s' % shutdown)(time):
            lb[name], ub[name] = -inf, inf
    return lb, ub


def replaced(self, expr, variables, parameters):
    return self._substitute_symbols(expr, variables, parameters)


def constraints(self, variables, parameters):
    """(expression, lower bound, upper bound, shutdown condition) of every declared constraint of every object"""
    out = {}
    for child in self.children.values():
        for name, c in child._constraints.items():
            out[name + '_' + child.label] = (self._substitute_symbols(c[0], variables, parameters), c[1], c[2], c[3])
    return out


def objective(self, variables, parameters):
    total = 0.
    for child in self.children.values():
        total = total + self._substitute_symbols(child._objective, variables, parameters)
    return total


def shifted(self, fun, seg_shift=None):
    """the splines of the given segments (default the first one) are transformed, all others keep their value"""
    if seg_shift is None:
        seg_shift = [0]
    for label, child in self.children.items():
        for name, spl in child._splines_prim.items():
            if name in child._variables and 'seg' in name and int(name[name.index('seg')+3]) in seg_shift:
                if spl['init'] is not None:
                    self._var_result[label, name] = fun(self._var_result[label, name], spl['basis'], spl['init'])
                else:
                    self._var_result[label, name] = fun(self._var_result[label, name], spl['basis'])


def constraint(self, expr, lb, ub, shutdown=False, name=None, skip=[]):
    """what a declared constraint records: one row per coefficient of a spline"""
    if isinstance(expr, (float, int)):
        return None
    if isinstance(expr, BSpline):
        c = expr.coeffs
        if skip:
            first, last = skip
            c = c[first:-last] if last else c[first:]
            if first == 0:
                c = expr.coeffs[:-last]
        n = c.shape[0]
        return (c, lb*np.ones(n), ub*np.ones(n), shutdown)
    return (expr, lb, ub, shutdown)


def resolved(self, expr, variables, parameters):
    """every symbol is replaced by the entry of the object that declares it"""
    if isinstance(expr, (int, float)):
        return expr
    for sym in symvar(expr):
        child, name = self.symbol_dict[sym.name()]
        if name in child._variables:
            expr = substitute(expr, sym, variables[child.label, name])
        elif name in child._parameters:
            expr = substitute(expr, sym, parameters[child.label, name])
    return expr


def problem(self, options, name=''):
    self.compose_dictionary()
    self.translate_symbols()
    x = self.construct_variables()
    p = self.construct_parameters()
    self.construct_substitutes(x, p)
    g = self.construct_constraints(x, p)[0]
    f = self.construct_objective(x, p)
    solver, t = create_nlp(x, p, f, g, options, name)
    self.init_variables()
    self.init_parameters()
    return solver, t


def result(self, child=None, name=None, symbolic=False, spline=True):
    return quantity(self, '_var_result', '_variables', child, name, symbolic, spline)


def given(self, child=None, name=None, symbolic=False, spline=True):
    return quantity(self, '_par_result', '_parameters', child, name, symbolic, spline)


def quantity(self, values, symbols, child, name, symbolic, spline):
    """a spline quantity is returned as one spline per column of its coefficients"""
    table = getattr(self, values)
    if child is None:
        return table
    if name is None:
        return table.prefix(child.label)
    c = getattr(child, symbols)[name] if symbolic else np.array(table[child.label, name])
    if spline and name in child._splines_prim:
        return [BSpline(child._splines_prim[name]['basis'], c[:, k]) for k in range(c.shape[1])]
    return c


def store_result(self, value, child=None, name=None):
    if child is None:
        self._var_result = self._var_struct(value)
    elif name is None:
        self._var_result[child.label] = value
    else:
        self._var_result[child.label, name] = value


def store_dual(self, value, child=None, name=None):
    if child is None:
        self._dual_var_result = self._con_struct(value)
    elif name is None:
        self._dual_var_result[child.label] = value
    else:
        self._dual_var_result[child.label, name] = value


def fresh(self):
    self._objective = 0.
    self._constraint_cnt = 0


def symbols_of(self):
    for child in self.children.values():
        for name, owner in child.symbol_dict.items():
            self.symbol_dict[name] = owner


def nlp(var, par, obj, con, options, name=''):
    opt = {}
    for key, value in options['solver_options'][options['solver']].items():
        opt[key] = value
    opt['expand'] = True
    return nlpsol('solver', options['solver'], {'x': var, 'p': par, 'f': obj, 'g': con}, opt)


def join(self, new):
    for c in new if isinstance(new, list) else [new]:
        self.children[c.label] = c


def add_cost(self, expr):
    self._objective = self._objective + expr
