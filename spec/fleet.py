"""Fleets, their configuration and the constraints that hold them together."""
import numpy as np
from casadi import inf
from omgtools.basics.spline_extra import definite_integral, sample_splines
from spec.signals import planar


def turned(configuration, orientation):
    """positions in the fleet, one dict per vehicle"""
    out = []
    c, s = np.cos(orientation), np.sin(orientation)
    for p in configuration:
        if isinstance(p, dict):
            out.append(p)
        elif len(p) == 2:
            out.append({0: c*p[0] + s*p[1], 1: -s*p[0] + c*p[1]})
        else:
            out.append({k: p[k] for k in range(len(p))})
    return out


def conditions(self, states, inputs=None):
    for k in range(len(self.vehicles)):
        if inputs is None:
            self.vehicles[k].set_initial_conditions(states[k], None)
        else:
            self.vehicles[k].set_initial_conditions(states[k], inputs[k])


def targets(self, conditions):
    for k in range(len(self.vehicles)):
        self.vehicles[k].set_terminal_conditions(conditions[k])


def states(self, states):
    for k in range(len(self.vehicles)):
        self.vehicles[k].overrule_state(states[k])


def inputs(self, inputs):
    for k in range(len(self.vehicles)):
        self.vehicles[k].overrule_input(inputs[k])


def centre(self, splines, rel_pos):
    return [splines[k] + rel_pos[k] for k in range(len(splines))]


def centre_wheeled(self, splines, rel):
    """the centre is the position plus the turned relative position"""
    T = self.define_symbol('T')
    t = self.define_symbol('t')
    pos0 = self.define_parameter('pos0', 2)
    v, q = splines
    if self.options['substitution']:
        x, y = self.x, self.y
    else:
        x = self.integrate_once(v*(1 - q**2), pos0[0], t, T)
        y = self.integrate_once(v*(2*q), pos0[1], t, T)
    c = self.define_spline_variable('formation_center', self.n_dim)
    eps = 1.e-2
    self.define_constraint((x - c[0])*(1 + q**2) + rel[0]*(1 - q**2) - rel[1]*(2*q), -eps, eps)
    self.define_constraint((y - c[1])*(1 + q**2) + rel[0]*(2*q) + rel[1]*(1 - q**2), -eps, eps)
    for d in range(1, self.degree + 1):
        self.define_constraint(c[0].derivative(d)(1.), 0., 0.)
        self.define_constraint(c[1].derivative(d)(1.), 0., 0.)
    return c


def centra(self):
    out = {}
    for v in self.vehicles:
        par = v.define_parameter('rel_pos_c', 2)
        spl = v.define_spline_symbol('splines_seg0', v.n_spl)
        out[v] = v.get_fleet_center(spl, par)
    return out


def rest(self):
    """the centre seen by every vehicle is at rest at the end"""
    c = centra(self)
    for v in self.vehicles:
        for s in c[v]:
            for d in range(1, s.basis.degree + 1):
                self.define_constraint(s.derivative(d)(1.), 0., 0.)


def soft(self, couples):
    t, T = self.define_symbol('t'), self.define_symbol('T')
    for v, n in couples:
        a, b = self.centres[v], self.centres[n]
        for k in range(2):
            eps = self.slack[v, n, k]
            self.define_objective(self.options['soft_formation_weight']*definite_integral(eps, t/T, 1.))
            self.define_constraint(a[k] - b[k] - eps, -inf, 0.)
            self.define_constraint(b[k] - a[k] - eps, -inf, 0.)
            m = self.options['max_formation_deviation']
            if m != inf:
                self.define_constraint(eps, -abs(m), abs(m))


def parameters(self):
    return {v: {'rel_pos_c': v.rel_pos_c} for v in self.vehicles}


def met(self):
    """all neighbours are at their relative positions"""
    res = 0
    for v in self.vehicles:
        for n in self.fleet.get_neighbors(v):
            d = []
            for k in range(2):
                res = res + np.linalg.norm(v.trajectories['splines'][k, 0] - n.trajectories['splines'][k, 0]
                                           - (self.fleet.configuration[v][k] - self.fleet.configuration[n][k]))**2
    return np.sqrt(res) <= 5.e-2


def penalty(self, eps):
    t, T = self.define_symbol('t'), self.define_symbol('T')
    return self.options['soft_formation_weight']*definite_integral(eps, t/T, 1.)


def centre_signal(self, splines, time):
    """position of the vehicle plus its relative position, turned over theta = 2 atan(q)"""
    v, q = splines[0], splines[1]
    x, y = planar(self, v, q, time)
    xs, ys = sample_splines([x, y], time)
    r = self.rel_pos_c
    turned = [r[0]*(1 - q**2) - r[1]*2*q, r[0]*2*q + r[1]*(1 - q**2)]
    den = sample_splines([(1 + q**2)], time)[0]
    xc = xs + sample_splines([turned[0]], time)[0]/den
    yc = ys + sample_splines([turned[1]], time)[0]/den
    return np.c_[xc, yc].T
