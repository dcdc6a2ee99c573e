"""Reference semantics of the vehicles (never executed: evaluated by the same value numbering as the
code under analysis).  Written from the vehicle models: dimensionless time tau = t/T, so that
d/dt = (1/T) d/dtau and an n-th order limit is scaled with T**n."""
from casadi import inf, SX, MX
import numpy as np
from omgtools.basics.spline_extra import running_integral, evalspline, sample_splines, definite_integral, concat_splines
from omgtools.basics.spline import BSplineBasis
from omgtools.basics.shape import Circle, Rectangle, Square, Ring
from omgtools.problems.point2point import FreeTPoint2point, FixedTPoint2point


def le(self, a, b):
    self.define_constraint(a - b, -inf, 0.)


def within(self, lo, v, hi):
    le(self, lo, v)
    le(self, v, hi)


def eqc(self, a, b):
    self.define_constraint(a - b, 0., 0.)


def horizon(self, T):
    return self.define_symbol('T') if T is None else T


def D(s, n=1):
    return s.derivative(n)


# ---------------------------------------------------------------- kinematic limits

def limits_holonomic(self, splines, T):
    x, y = splines
    if self.options['syslimit'] == 'norm_2':
        le(self, D(x)**2 + D(y)**2, (T*self.vmax)**2)
        le(self, D(x, 2)**2 + D(y, 2)**2, (T**2*self.amax)**2)
    elif self.options['syslimit'] == 'norm_inf':
        within(self, T*self.vxmin, D(x), T*self.vxmax)
        within(self, T*self.vymin, D(y), T*self.vymax)
        within(self, T**2*self.axmin, D(x, 2), T**2*self.axmax)
        within(self, T**2*self.aymin, D(y, 2), T**2*self.aymax)
    else:
        raise ValueError('syslimit')


def limits_holonomic1d(self, splines, T=None):
    T = horizon(self, T)
    x = splines[0]
    within(self, T*self.vmin, D(x), T*self.vmax)
    within(self, T**2*self.amin, D(x, 2), T**2*self.amax)


def limits_translation(self, axes, T):
    if self.options['syslimit'] == 'norm_2':
        le(self, sum([D(a)**2 for a in axes]), (T*self.vmax)**2)
        le(self, sum([D(a, 2)**2 for a in axes]), (T**2*self.amax)**2)
    elif self.options['syslimit'] == 'norm_inf':
        for a in axes:
            within(self, T*self.vmin, D(a), T*self.vmax)
            within(self, T**2*self.amin, D(a, 2), T**2*self.amax)
    else:
        raise ValueError('syslimit')


def limits_holonomic3d(self, splines, T=None):
    x, y, z = splines
    limits_translation(self, [x, y, z], horizon(self, T))


def turn_rate(self, q, T, lo, hi):
    # theta = 2 atan(q)  =>  dtheta/dt = 2 q' / (T (1+q^2))
    within(self, (1 + q**2)*T*lo, 2*D(q), (1 + q**2)*T*hi)


def limits_holonomicorient(self, splines, T=None):
    T = horizon(self, T)
    x, y, q = splines
    limits_translation(self, [x, y], T)
    turn_rate(self, q, T, self.wmin, self.wmax)


def limits_dubins(self, splines, T=None):
    T = horizon(self, T)
    v, q = splines
    le(self, v*(1 + q**2), self.vmax)      # v_til = V/(1+q^2)
    le(self, 0, v)                         # only forward
    turn_rate(self, q, T, self.wmin, self.wmax)
    substitution_planar(self, v, q, T, 3, 1e-3)


def substitution_planar(self, v, q, T, degree, eps):
    """position splines used instead of the exact (high degree) integral must stay tied to it"""
    if self.options['substitution']:
        dx, dy = planar_rates(v, q)
        if self.options['exact_substitution']:
            sx = self.define_spline_variable('dx', 1, 1, basis=dx.basis)[0]
            sy = self.define_spline_variable('dy', 1, 1, basis=dy.basis)[0]
            eqc(self, sx, dx)
            eqc(self, sy, dy)
        else:
            basis = BSplineBasis(np.r_[np.zeros(degree), np.linspace(0., 1., 10+1), np.ones(degree)], degree)
            sx = self.define_spline_variable('dx', 1, 1, basis=basis)[0]
            sy = self.define_spline_variable('dy', 1, 1, basis=basis)[0]
            for s, r, p0 in [(sx, dx, self.pos0[0]), (sy, dy, self.pos0[1])]:
                err = integral(s, p0, self.t, T) - integral(r, p0, self.t, T)
                self.define_constraint(err, -eps, eps)


def planar_rates(v, q):
    return v*(1 - q**2), v*(2*q)


def integral(rate, x0, t, T=1.):
    """x(tau) = x0 + T * int_{t/T}^{tau} rate"""
    I = T*running_integral(rate)
    if isinstance(t, (SX, MX)):
        return I - evalspline(I, t/T) + x0
    return I - I(t/T) + x0


def steering(self, v, q, T, L):
    """tan(delta) = L*dq*2/(T v (1+q^2)^2);   L > 0: front steering, L < 0: rear steering"""
    n = 2*L*D(q)
    d = v*(1 + q**2)**2
    le(self, n, d*np.tan(self.dmax)*T)
    le(self, d*np.tan(self.dmin)*T, n)
    # ddelta/dt = (n' d - n d') T / (T^2 d^2 + n^2)
    rate = 2*L*D(q, 2)*d - n*(D(v)*(1 + q**2)**2 + v*(4*q + 4*q**3)*D(q))
    le(self, rate, (T**2*d**2 + n**2)*self.ddmax)
    le(self, (T**2*d**2 + n**2)*self.ddmin, rate)
    le(self, 0, v)


def limits_car(self, splines, T, L):
    v, q = splines
    le(self, v*(1 + q**2), self.vmax)
    le(self, D(v)*(1 + q**2) + 2*v*q*D(q), T*self.amax)
    steering(self, v, q, T, L)


def limits_bicycle(self, splines, T=None):
    T = horizon(self, T)
    limits_car(self, splines, T, self.length)
    substitution_planar(self, splines[0], splines[1], T, 2, 1e-2)


def limits_agv(self, splines, T=None):
    limits_car(self, splines, horizon(self, T), -self.length)


def limits_trailer(self, splines, T=None):
    T = horizon(self, T)
    q, (v, qv) = splines[0], splines[1:]
    slip = 2*D(q)*self.l_hitch - T*v*(2*qv*(1 - q**2) - (1 - qv**2)*2*q)
    within(self, -T*1e-3, slip, T*1e-3)
    within(self, np.tan(self.tmin/2.), qv - q, np.tan(self.tmax/2.))


def limits_quadrotor(self, splines, T=None):
    T = horizon(self, T)
    x, y = splines
    ax, ay = D(x, 2), D(y, 2) + self.g*T**2
    thrust2 = ax**2 + ay**2
    within(self, T**4*self.u1min**2, thrust2, T**4*self.u1max**2)
    turn = D(x, 3)*ay - ax*D(y, 3)
    within(self, thrust2*T*self.u2min, turn, thrust2*T*self.u2max)


def limits_quadrotor3d(self, splines, T=None):
    T = horizon(self, T)
    f, qp, qt = splines
    within(self, self.u1min, f*(1 + qp**2)*(1 + qt**2), self.u1max)
    turn_rate(self, qp, T, self.u2min, self.u2max)
    turn_rate(self, qt, T, self.u3min, self.u3max)
    within(self, np.tan(0.5*self.phimin), qp, np.tan(0.5*self.phimax))
    within(self, np.tan(0.5*self.thetamin), qt, np.tan(0.5*self.thetamax))
    if self.options['substitution']:
        rates = quad_rates(self, f, qp, qt)
        names = ['ddx', 'ddy', 'ddz']
        if self.options['exact_substitution']:
            for k in range(3):
                s = self.define_spline_variable(names[k], 1, 1, basis=rates[k].basis)[0]
                eqc(self, s, rates[k])
        else:
            basis = BSplineBasis(np.r_[np.zeros(4), np.linspace(0., 1., 10+1), np.ones(4)], 4)
            for k in range(3):
                s = self.define_spline_variable(names[k], 1, 1, basis=basis)[0]
                a, _ = integral2(s, self.dpos0[k], self.pos0[k], self.t, T)
                b, _ = integral2(rates[k], self.dpos0[k], self.pos0[k], self.t, T)
                self.define_constraint(a - b, -1e-3, 1e-3)


def quad_rates(self, f, qp, qt):
    return f*(1 - qp**2)*(2*qt), -f*(1 + qt**2)*(2*qp), f*(1 - qp**2)*(1 - qt**2) - self.g


def integral2(acc, v0, x0, t, T=1.):
    v = integral(acc, v0, t, T)
    return integral(v, x0, t, T), v


def limits_simplequadrotor3d(self, splines, T=None):
    x, y, z = splines
    T = self.T
    ax, ay, az = D(x, 2), D(y, 2), D(z, 2) + self.g*T**2
    jx, jy, jz = D(x, 3), D(y, 3), D(z, 3)
    within(self, T**4*self.u1min**2, ax**2 + ay**2 + az**2, T**4*self.u1max**2)
    within(self, az**2*T*self.u2min, -jy*az + jz*ay, az**2*T*self.u2max)
    within(self, az**2*T*self.u3min, jx*az - jz*ax, az**2*T*self.u3max)
    within(self, az*self.phimin, -ay, az*self.phimax)
    within(self, az*self.thetamin, ax, az*self.thetamax)


def limits_tool(self, splines, T, skip=[]):
    x, y, z = splines
    if self.options['vel_limit'] == 'machining':
        if self.vxmax != 0.:
            le(self, D(x)**2 + D(y)**2, (T*self.vxmax)**2)
        else:
            le(self, D(z)**2, (T*self.vzmax)**2)
    elif self.options['vel_limit'] == 'axes':
        within(self, T*self.vxmin, D(x), T*self.vxmax)
        within(self, T*self.vymin, D(y), T*self.vymax)
        within(self, T*self.vzmin, D(z), T*self.vzmax)
    else:
        raise ValueError('vel_limit')
    within(self, T**2*self.axmin, D(x, 2), T**2*self.axmax)
    within(self, T**2*self.aymin, D(y, 2), T**2*self.aymax)
    within(self, T**2*self.azmin, D(z, 2), T**2*self.azmax)
    within(self, T**3*self.jxmin, D(x, 3), T**3*self.jxmax)
    within(self, T**3*self.jymin, D(y, 3), T**3*self.jymax)
    within(self, T**3*self.jzmin, D(z, 3), T**3*self.jzmax)


# ---------------------------------------------------------------- boundary conditions
# initial: list of (spline, value at the current time); terminal: [positions, derivatives] at tau = 1

def initial_holonomic(self, splines, T):
    s0 = self.define_parameter('state0', 2)
    u0 = self.define_parameter('input0', 2)
    x, y = splines
    return [(x, s0[0]), (y, s0[1]), (D(x), T*u0[0]), (D(y), T*u0[1])]


def terminal_position(self, splines, par, order):
    p = self.define_parameter(par, len(splines))
    rest = []
    for d in range(1, order + 1):
        for s in splines:
            rest.append((D(s, d), 0.))
    return [[(s, p[k]) for k, s in enumerate(splines)], rest]


def terminal_holonomic(self, splines, T=None):
    x, y = splines
    return terminal_position(self, [x, y], 'poseT', self.degree)


def initial_holonomic1d(self, splines, T=None):
    T = horizon(self, T)
    s0 = self.define_parameter('state0')
    u0 = self.define_parameter('input0')
    x = splines[0]
    return [(x, s0[0]), (D(x), T*u0[0])]


def terminal_holonomic1d(self, splines, T=None):
    p = self.define_parameter('poseT')
    rest = []
    for d in range(1, self.degree + 1):
        rest.append((D(splines[0], d), 0.))
    return [[(splines[0], p[0])], rest]


def initial_holonomic3d(self, splines, T=None):
    T = horizon(self, T)
    s0 = self.define_parameter('state0', 3)
    u0 = self.define_parameter('input0', 3)
    x, y, z = splines
    return [(x, s0[0]), (y, s0[1]), (z, s0[2]), (D(x), T*u0[0]), (D(y), T*u0[1]), (D(z), T*u0[2])]


def terminal_holonomic3d(self, splines, T=None):
    x, y, z = splines
    return terminal_position(self, [x, y, z], 'poseT', self.degree)


def initial_holonomicorient(self, splines, T=None):
    T = horizon(self, T)
    p0 = self.define_parameter('pos0', 2)
    q0 = self.define_parameter('tg_ha0', 1)
    v0 = self.define_parameter('vel0', 2)
    dq0 = self.define_parameter('dtg_ha0', 1)
    x, y, q = splines
    return [(x, p0[0]), (y, p0[1]), (q, q0), (D(x), T*v0[0]), (D(y), T*v0[1]), (D(q), T*dq0)]


def terminal_holonomicorient(self, splines, T=None):
    p = self.define_parameter('posT', 2)
    qT = self.define_parameter('tg_haT', 1)
    x, y, q = splines
    rest = []
    for d in range(1, self.degree + 1):
        rest += [(D(x, d), 0.), (D(y, d), 0.), (D(q, d), 0.)]
    return [[(x, p[0]), (y, p[1]), (q, qT)], rest]


def initial_dubins(self, splines, T=None):
    T = horizon(self, T)
    v0 = self.define_parameter('v_til0', 1)
    q0 = self.define_parameter('tg_ha0', 1)
    dq0 = self.define_parameter('dtg_ha0', 1)
    v, q = splines
    return [(v, v0), (q, q0), (D(q), T*dq0)]


def planar_position(self, v, q, T):
    if self.options['substitution']:
        return self.x, self.y
    dx, dy = planar_rates(v, q)
    return integral(dx, self.pos0[0], self.t, T), integral(dy, self.pos0[1], self.t, T)


def terminal_dubins(self, splines, T=None):
    T = horizon(self, T)
    p = self.define_parameter('posT', 2)
    qT = self.define_parameter('tg_haT', 1)
    v, q = splines
    x, y = planar_position(self, v, q, T)
    return [[(x, p[0]), (y, p[1]), (q, qT)], [(v, 0.), (D(q), 0.)]]


def initial_car(self, splines, T, L):
    v, q = splines
    v0 = self.define_parameter('v_til0', 1)
    q0 = self.define_parameter('tg_ha0', 1)
    dq0 = self.define_parameter('dtg_ha0', 1)
    hop = self.define_parameter('hop0', 1)
    td = self.define_parameter('tdelta0', 1)
    # standstill: tan(delta) = 2 L q'' / (v' (1+q^2)^2 T)
    tau = self.t/T
    eqc(self, hop*2.*L*evalspline(D(q, 2), tau), hop*td*evalspline(D(v), tau)*(1. + q0**2)**2*T)
    return [(v, v0), (q, q0), (D(q), T*dq0)]


def initial_bicycle(self, splines, T=None):
    return initial_car(self, splines, horizon(self, T), self.length)


def initial_agv(self, splines, T=None):
    return initial_car(self, splines, horizon(self, T), -self.length)


def terminal_car(self, splines, T, x, y):
    v, q = splines
    p = self.define_parameter('posT', 2)
    vT = self.define_parameter('v_tilT', 1)
    dvT = self.define_parameter('dv_tilT', 1)
    qT = self.define_parameter('tg_haT', 1)
    dqT = self.define_parameter('dtg_haT', 1)
    ddqT = self.define_parameter('ddtg_haT', 1)
    return [[(x, p[0]), (y, p[1]), (q, qT)], [(v, vT), (D(q), T*dqT), (D(v), dvT), (D(q, 2), T**2*ddqT)]]


def terminal_bicycle(self, splines, T=None):
    T = horizon(self, T)
    x, y = planar_position(self, splines[0], splines[1], T)
    return terminal_car(self, splines, T, x, y)


def planar_position_agv(self, v, q, T):
    dx, dy = planar_rates(v, q)
    ix, iy = T*running_integral(dx), T*running_integral(dy)
    return ix - evalspline(ix, self.t/T) + self.pos0[0], iy - evalspline(iy, self.t/T) + self.pos0[1]


def terminal_agv(self, splines, T=None):
    T = horizon(self, T)
    x, y = planar_position_agv(self, splines[0], splines[1], T)
    return terminal_car(self, splines, T, x, y)


def initial_quadrotor(self, splines, T=None):
    T = horizon(self, T)
    s0 = self.define_parameter('spl0', 2)
    ds0 = self.define_parameter('dspl0', 2)
    dds0 = self.define_parameter('ddspl0', 2)
    out = []
    for k in range(2):
        out += [(splines[k], s0[k]), (D(splines[k]), T*ds0[k]), (D(splines[k], 2), T**2*dds0[k])]
    return out


def terminal_quadrotor(self, splines, T=None):
    x, y = splines
    return terminal_position(self, [x, y], 'poseT', self.degree)


def initial_quadrotor3d(self, splines, T=None):
    f, qp, qt = splines
    f0 = self.define_parameter('f_til0', 1)
    p0 = self.define_parameter('q_phi0', 1)
    t0 = self.define_parameter('q_theta0', 1)
    return [(f, f0), (qp, p0), (qt, t0)]


def quad_position(self, f, qp, qt, T):
    if self.options['substitution']:
        return [self.x, self.y, self.z], [self.dx, self.dy, self.dz]
    r = quad_rates(self, f, qp, qt)
    x, dx = integral2(r[0], self.dpos0[0], self.pos0[0], self.t, T)
    y, dy = integral2(r[1], self.dpos0[1], self.pos0[1], self.t, T)
    z, dz = integral2(r[2], self.dpos0[2], self.pos0[2], self.t, T)
    return [x, y, z], [dx, dy, dz]


def terminal_quadrotor3d(self, splines, T=None):
    T = horizon(self, T)
    p = self.define_parameter('posT', 3)
    pT = self.define_parameter('q_phiT', 1)
    tT = self.define_parameter('q_thetaT', 1)
    f, qp, qt = splines
    pos, vel = quad_position(self, f, qp, qt, T)
    return [[(pos[k], p[k]) for k in range(3)],
            [(qp, pT), (qt, tT), (f, self.g), (vel[0], 0.), (vel[1], 0.), (vel[2], 0.)]]


def initial_simplequadrotor3d(self, splines, T=None):
    s0 = self.define_parameter('spl0', 3)
    ds0 = self.define_parameter('dspl0', 3)
    dds0 = self.define_parameter('ddspl0', 3)
    out = []
    for k in range(3):
        out += [(splines[k], s0[k]), (D(splines[k]), self.T*ds0[k]), (D(splines[k], 2), self.T**2*dds0[k])]
    return out


def terminal_simplequadrotor3d(self, splines, T=None):
    x, y, z = splines
    return terminal_position(self, [x, y, z], 'positionT', self.degree)


def initial_tool(self, splines, T):
    x, y, z = splines
    s0 = self.define_parameter('state0', 3)
    u0 = self.define_parameter('input0', 3)
    d0 = self.define_parameter('dinput0', 3)
    out = []
    for k, s in enumerate([x, y, z]):
        out += [(s, s0[k]), (D(s), T*u0[k]), (D(s, 2), T**2*d0[k])]
    return out


def terminal_tool(self, splines, T=None):
    x, y, z = splines
    return terminal_position(self, [x, y, z], 'poseT', self.degree - 1)


def initial_trailer(self, splines, T=None):
    T = horizon(self, T)
    q0 = self.define_parameter('tg_ha_tr0', 1)
    dq0 = self.define_parameter('dtg_ha_tr0', 1)
    return [(splines[0], q0), (D(splines[0]), T*dq0)] + initial_dubins(self.lead_veh, splines[1:], T)


def terminal_trailer(self, splines, T=None):
    lead = self.lead_veh.get_terminal_constraints(splines[1:])
    own = []
    if hasattr(self, 'theta_trT'):
        own = [(splines[0], self.define_parameter('tg_ha_trT', 1))]
    return [own + lead[0], lead[1]]


# values of the parameters, from the predicted state/input and the requested goal

def params_state(self, t):
    return {'state0': self.prediction['state'], 'input0': self.prediction['input'], 'poseT': self.poseT}


params_holonomic = params_state
params_holonomic1d = params_state
params_holonomic3d = params_state


def params_tool(self, t):
    return {'state0': self.prediction['state'], 'input0': self.prediction['input'],
            'dinput0': self.prediction['dinput'], 'poseT': self.poseT}


def half(angle):
    return np.tan(angle/2.)


def params_holonomicorient(self, t):
    s, u = self.prediction['state'], self.prediction['input']
    return {'pos0': s[:2], 'tg_ha0': half(s[2]), 'vel0': u[:2], 'dtg_ha0': u[2]*(1 + half(s[2])**2)/2.,
            'posT': self.poseT[:2], 'tg_haT': half(self.poseT[2])}


def params_dubins(self, t):
    s, u = self.prediction['state'], self.prediction['input']
    q = half(s[2])
    return {'tg_ha0': q, 'v_til0': u[0]/(1 + q**2), 'dtg_ha0': u[1]*(1 + q**2)/2., 'pos0': s[:2],
            'posT': self.poseT[:2], 'tg_haT': half(self.poseT[2])}


def params_car(self, L):
    s, u = self.prediction['state'], self.prediction['input']
    q = half(s[2])
    v = u[0]/(1 + q**2)
    p = {'tg_ha0': q, 'pos0': s[:2], 'posT': self.poseT[:2], 'tg_haT': half(self.poseT[2]),
         'v_tilT': 0., 'dv_tilT': 0., 'dtg_haT': 0., 'ddtg_haT': 0.}
    if v <= 1e-4:
        p['hop0'] = 1.
        p['v_til0'] = 0.
        p['dtg_ha0'] = 0.
        p['tdelta0'] = np.tan(s[3])
    else:
        p['hop0'] = 0.
        p['v_til0'] = v
        p['dtg_ha0'] = np.tan(s[3])*v*(1 + q**2)**2/(2*L)
    return p


def params_bicycle(self, t):
    return params_car(self, self.length)


def params_agv(self, t):
    return params_car(self, -self.length)


def params_quadrotor(self, t):
    return {'spl0': self.prediction['state'][:2], 'dspl0': self.prediction['dspl'],
            'ddspl0': self.prediction['ddspl'], 'poseT': self.poseT}


def params_quadrotor3d(self, t):
    s, u = self.prediction['state'], self.prediction['input']
    qp, qt = half(s[6]), half(s[7])
    return {'q_phi0': qp, 'q_theta0': qt, 'f_til0': u[0]/((1 + qp**2)*(1 + qt**2)),
            'dq_phi0': u[1]*(1 + qp**2)/2., 'dq_theta0': u[2]*(1 + qt**2)/2.,
            'pos0': s[:3], 'dpos0': s[3:6], 'posT': self.poseT[:3],
            'q_phiT': half(self.poseT[3]), 'q_thetaT': half(self.poseT[4])}


def params_simplequadrotor3d(self, t):
    s, u = self.prediction['state'], self.prediction['input']
    f, phi, theta = u[0], s[6], s[7]
    return {'spl0': s[:3], 'dspl0': s[3:6],
            'ddspl0': [f*np.cos(phi)*np.sin(theta), -f*np.sin(phi), f*np.cos(phi)*np.cos(theta) - self.g],
            'positionT': self.positionT}


def params_trailer(self, t):
    s, u = self.prediction['state'], self.prediction['input']
    q = half(s[2])
    # dtheta_tr = V/l sin(theta_veh - theta_tr)
    p = {'tg_ha_tr0': q, 'dtg_ha_tr0': u[0]/self.l_hitch*np.sin(s[5] - s[2])*(1 + q**2)/2.}
    if hasattr(self, 'theta_trT'):
        p['tg_ha_trT'] = half(self.theta_trT)
    self.lead_veh.update_prediction({'input': u, 'state': s[3:, ]})
    p.update(self.lead_veh.set_parameters(t)[self.lead_veh])
    return p


# what the user requests is what the problem uses

def start_state(self, state, input, default):
    self.prediction['state'] = state
    self.prediction['input'] = default if input is None else input


def start_holonomic(self, state, input=None):
    start_state(self, state, input, np.zeros(2))
    self.prediction['dinput'] = np.zeros(2)


def start_holonomic1d(self, state, input=None):
    start_state(self, state, input, 0.)


def start_holonomic3d(self, state, input=None):
    start_state(self, state, input, np.zeros(3))


start_holonomicorient = start_holonomic3d


def start_dubins(self, state, input=None):
    start_state(self, state, input, np.zeros(2))
    self.pose0 = state


def start_bicycle(self, state, input=None):
    start_state(self, state, input, np.zeros(2))
    self.pose0 = state[:3]
    self.delta0 = state[3]


start_agv = start_bicycle


def start_quadrotor(self, state, input=None):
    self.prediction['state'] = np.r_[state[:2], np.zeros(3)].T
    self.prediction['dspl'] = np.zeros(2)
    self.prediction['ddspl'] = np.zeros(2)


def start_quadrotor3d(self, state, input=None):
    start_state(self, state, input, np.array([self.g, 0., 0.]))


start_simplequadrotor3d = start_quadrotor3d


def start_tool(self, state, input=None, dinput=None, ddinput=None):
    start_state(self, state, input, np.zeros(3))
    self.prediction['dinput'] = np.zeros(3) if dinput is None else dinput


def goal_pose(self, pose):
    self.poseT = pose


def goal_quadrotor3d(self, position, roll=0, pitch=0):
    self.poseT = np.r_[position, roll, pitch, 0.].T


def goal_position(self, position):
    self.positionT = position


def goal_trailer(self, theta):
    self.theta_trT = theta
