"""What obstacles do: prediction over the horizon given to the optimiser, simulation of their motion."""
from casadi import vertcat, cos, sin
import numpy as np
from omgtools.basics.spline import BSpline, BSplineBasis


# ---- prediction: p(t) = x + v t + a t^2/2, referred to the start of the horizon

def quadratic(self, durations):
    """x, v, a are measured self.t after the start of the first piece; returns the piece after sum(durations[:-1])"""
    x = self.define_parameter('x', self.n_dim)
    v = self.define_parameter('v', self.n_dim)
    a = self.define_parameter('a', self.n_dim)
    t = self.define_symbol('t')
    self.t = t
    if durations is None:
        T = self.define_symbol('T')
        self.T = T
        start = 0
    else:
        if not isinstance(durations, list):
            durations = [durations]
        T = durations[-1]
        start = sum(durations[:-1])
    out = []
    for k in range(self.n_dim):
        p0 = x[k] - t*v[k] + a[k]*t**2/2
        s0 = v[k] - a[k]*t
        p = p0 + s0*start + a[k]*start**2/2
        s = s0 + a[k]*start
        out.append([p, p + s*T/2, p + s*T + a[k]*T**2/2])
    return out


def given_spline(self):
    basis = BSplineBasis(self.options['spline_params']['knots'], self.options['spline_params']['degree'])
    c = self.define_parameter('traj_coeffs', len(basis), self.n_dim)
    self.pos_spline = [BSpline(basis, c[:, k]) for k in range(self.n_dim)]


def shape_parameters(self):
    points, _ = self.shape.get_checkpoints()
    self.checkpoints = self.define_parameter('checkpoints', len(points)*self.n_dim)
    self.rad = self.define_parameter('rad', len(points))


def parameters(self, current_time):
    p = {self: {}}
    if self.options['spline_traj']:
        p[self]['traj_coeffs'] = self.options['spline_params']['coeffs']
    else:
        p[self]['x'] = self.signals['position'][:, -1]
        p[self]['v'] = self.signals['velocity'][:, -1]
        p[self]['a'] = self.signals['acceleration'][:, -1]
    points, radii = self.shape.get_checkpoints()
    p[self]['checkpoints'] = np.reshape(points, (len(points)*self.n_dim,))
    p[self]['rad'] = radii
    return p


def parameters_2d(self, current_time):
    p = parameters(self, current_time)
    p[self]['theta'] = self.signals['orientation'][:, -1]
    return p


def still(self):
    """orientation of a 2D obstacle that does not rotate"""
    self.cos = cos(self.signals['orientation'][:, -1][0])
    self.sin = sin(self.signals['orientation'][:, -1][0])
    self.gon_weight = 1


# quarter turn of the rational quadratic circle: control values at 0, 45, 90, ... degrees
R = np.sqrt(2.)/2.
COS = [1., R, 0., -R, -1., -R, 0., R]
SIN = [0., R, 1., R, 0., -R, -1., -R]
WEIGHT = [1., R, 1., R, 1., R, 1., R]


def rotating(self, CW, SW, omega):
    """numerators of cos and sin of theta(t) = theta0 + omega*t"""
    theta0 = self.define_parameter('theta', 1) - self.t*omega
    self.cos = CW*cos(theta0) - SW*sin(theta0)
    self.sin = CW*sin(theta0) + SW*cos(theta0)


def quarter_knots(self, omega):
    """double knots every quarter turn, in units of the horizon"""
    period = 2.*np.pi/abs(omega)
    T = self.options['horizon_time']
    n = int(np.ceil(4*T/period))
    return np.r_[np.zeros(3), np.hstack([0.25*k*np.ones(2) for k in range(1, n+1)]), 0.25*n]*(period/T)


# ---- simulation

def dynamics(self, state, input):
    return self.simulation_model['A'].dot(state) + self.simulation_model['B'].dot(input)


def simulated_rate(self, state, time):
    jump = self.state_incr_interp(time)
    u = self.input_interp(time)
    return self.ode(state, u) + np.r_[jump[self.n_dim:], np.zeros(self.n_dim)]


def set_state(self, d):
    for key in ['position', 'velocity', 'acceleration']:
        if key in d:
            self.signals[key] = np.c_[d[key]]
        else:
            self.signals[key] = np.zeros((self.n_dim, 1))


def set_state_2d(self, d):
    set_state(self, d)
    for key in ['orientation', 'angular_velocity']:
        if key in d:
            self.signals[key] = np.c_[d[key]]
        else:
            self.signals[key] = np.zeros((1, 1))
