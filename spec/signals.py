"""Reference semantics: state, input and pose signals of a spline trajectory, and the system dynamics
(never executed; evaluated by the value numbering of the checker)."""
import numpy as np
from casadi import SX, MX
from omgtools.basics.spline_extra import running_integral, sample_splines, evalspline


def rows(splines, time):
    return np.c_[sample_splines(splines, time)]


def one(spline, time):
    return sample_splines([spline], time)[0]


def D(s, n=1):
    return s.derivative(n)


# flat outputs are the state, their rates the input

def signals_holonomic(self, splines, time):
    x, y = splines[0], splines[1]
    u = rows([D(x), D(y)], time)
    return {'state': rows([x, y], time), 'input': u, 'v_tot': np.sqrt(u[0, :]**2 + u[1, :]**2),
            'dinput': rows([D(x, 2), D(y, 2)], time)}


def signals_holonomic1d(self, splines, time):
    x = splines[0]
    return {'state': np.c_[sample_splines(x, time)].T, 'input': np.c_[sample_splines(D(x), time)].T,
            'a': np.c_[sample_splines(D(x, 2), time)].T}


def signals_holonomic3d(self, splines, time):
    x, y, z = splines[0], splines[1], splines[2]
    u = rows([D(x), D(y), D(z)], time)
    return {'state': rows([x, y, z], time), 'input': u,
            'v_tot': np.sqrt(u[0, :]**2 + u[1, :]**2 + u[2, :]**2), 'a': rows([D(x, 2), D(y, 2), D(z, 2)], time)}


def signals_tool(self, splines, time):
    x, y, z = splines
    u = rows([D(x), D(y), D(z)], time)
    return {'state': rows([x, y, z], time), 'input': u,
            'v_tot': np.sqrt(u[0, :]**2 + u[1, :]**2 + u[2, :]**2),
            'dinput': rows([D(x, 2), D(y, 2), D(z, 2)], time), 'ddinput': rows([D(x, 3), D(y, 3), D(z, 3)], time)}


def heading(q):
    return 2*np.arctan2(q, 1)


def turn(q, dq):
    return 2*np.array(dq)/(1. + np.array(q)**2)


def signals_holonomicorient(self, splines, time):
    x, y, q = splines[0], splines[1], splines[2]
    qs, dqs = sample_splines([q], time), sample_splines([D(q)], time)
    v = rows([D(x), D(y)], time)
    u = np.r_[v, turn(qs, dqs)]
    return {'state': np.r_[rows([x, y], time), heading(qs)], 'input': u,
            'v_tot': np.sqrt(u[0, :]**2 + u[1, :]**2), 'a': rows([D(x, 2), D(y, 2)], time)}


def from_start(rate, x0, t0):
    """position along the trajectory that passes x0 at t0"""
    I = running_integral(rate)
    if isinstance(t0, (SX, MX)):
        return I - evalspline(I, t0) + x0
    return I - I(t0) + x0


def planar(self, v, q, time):
    dx, dy = v*(1 - q**2), v*(2*q)
    if not hasattr(self, 'signals'):
        x0, y0 = self.pose0[0], self.pose0[1]
    else:
        x0, y0 = self.signals['state'][0, -1], self.signals['state'][1, -1]
    return from_start(dx, x0, time[0]), from_start(dy, y0, time[0])


def signals_dubins(self, splines, time):
    v, q = splines[0], splines[1]
    x, y = planar(self, v, q, time)
    xs, ys, vs, qs, dqs = sample_splines([x, y, v, q, D(q)], time)
    den = sample_splines([(1 + q**2)], time)[0]
    return {'state': np.c_[xs, ys, heading(qs).T].T, 'input': np.c_[vs*den, turn(qs, dqs).T].T}


def steering_rate(self, v, q, dv, dq, ddq, L):
    a = v*(1 + q**2)**2
    da = dv*(1 + q**2)**2 + v*(4*q + 4*q**3)*dq
    return (2*L*ddq*a - 2*L*dq*da)/(a**2 + (2*L*dq)**2)


def input_car(self, splines, time, L):
    """without the standstill corrections: V = v (1+q^2), tan(delta) = 2 L q'/(v (1+q^2)^2)"""
    v, q = splines[0], splines[1]
    x, y = planar(self, v, q, time)
    s = [np.array(sample_splines([w], time)) for w in [v, q, D(v), D(q), D(q, 2)]]
    v, q, dv, dq, ddq = s
    return [v*(1 + q**2), np.arctan2(2*L*dq, v*(1 + q**2)**2), steering_rate(self, v, q, dv, dq, ddq, L), np.arctan2(q, 1), x, y]


def input_bicycle(self, splines, time):
    return input_car(self, splines, time, self.length)


def input_agv(self, splines, time):
    """rear steering; no symbolic times"""
    c = input_car(self, splines, time, -self.length)
    v, q = splines[0], splines[1]
    Ix, Iy = running_integral(v*(1 - q**2)), running_integral(v*(2*q))
    if not hasattr(self, 'signals'):
        x0, y0 = self.pose0[0], self.pose0[1]
    else:
        x0, y0 = self.signals['state'][0, -1], self.signals['state'][1, -1]
    return c[:4] + [Ix - Ix(time[0]) + x0, Iy - Iy(time[0]) + y0]


def signals_quadrotor(self, splines, time):
    x, y = splines[0], splines[1]
    xs, ys = sample_splines([x, y], time)
    dx, dy = sample_splines([D(x), D(y)], time)
    ax, ay = sample_splines([D(x, 2), D(y, 2)], time)
    jx, jy = sample_splines([D(x, 3), D(y, 3)], time)
    az = ay + self.g
    return {'state': np.c_[xs, ys, dx, dy, np.arctan2(ax, az)].T,
            'input': np.c_[np.sqrt(ax**2 + az**2), (jx*az - ax*jy)/(az**2 + ax**2)].T,
            'dspl': np.c_[dx, dy].T, 'ddspl': np.c_[ax, ay].T}


def signals_quadrotor3d(self, splines, time):
    f, p, q = splines
    acc = [f*(1 - p**2)*(2*q), -f*(1 + q**2)*(2*p), f*(1 - p**2)*(1 - q**2) - self.g]
    pos, vel = [], []
    for k in range(3):
        v = from_start(acc[k], self.prediction['state'][3 + k], time[0])
        vel.append(v)
        pos.append(from_start(v, self.prediction['state'][k], time[0]))
    xs, ys, zs, dx, dy, dz = sample_splines(pos + vel, time)
    fs, ps, qs, dps, dqs = sample_splines([f, p, q, D(p), D(q)], time)
    den = sample_splines([(1 + p**2)*(1 + q**2)], time)[0]
    return {'state': np.c_[xs, ys, zs, dx, dy, dz, heading(ps), heading(qs)].T,
            'input': np.c_[fs*den, turn(ps, dps).T, turn(qs, dqs).T].T}


def signals_simplequadrotor3d(self, splines, time):
    x, y, z = splines[0], splines[1], splines[2]
    xs, ys, zs = sample_splines([x, y, z], time)
    dx, dy, dz = sample_splines([D(x), D(y), D(z)], time)
    ax, ay, az = sample_splines([D(x, 2), D(y, 2), D(z, 2)], time)
    jx, jy, jz = sample_splines([D(x, 3), D(y, 3), D(z, 3)], time)
    g = az + self.g
    r2 = ax**2 + g**2
    phi, theta = np.arctan2(-ay, np.sqrt(r2)), np.arctan2(ax, g)
    # phi = atan2(-ay, r):  dphi = (-jy r^2 + ay (ax jx + g jz))/(r (ay^2 + r^2))
    u2 = (-jy*r2 + ay*(ax*jx + jz*g))/((r2 + ay**2)*np.sqrt(r2))
    u3 = (g*jx - ax*jz)/r2
    return {'state': np.c_[xs, ys, zs, dx, dy, dz, phi, theta].T,
            'input': np.c_[np.sqrt(ax**2 + ay**2 + g**2), u2, u3].T,
            'dspl': np.c_[dx, dy, dz].T, 'ddspl': np.c_[ax, ay, az].T}


def signals_trailer(self, splines, time):
    q = np.array(sample_splines([splines[0]], time))
    theta = 2*np.arctan2(q, 1)
    lead = self.lead_veh.splines2signals(splines[1:], time)
    x = lead['state'][0, :] - self.l_hitch*np.cos(theta)
    y = lead['state'][1, :] - self.l_hitch*np.sin(theta)
    return {'state': np.r_[x, y, theta, lead['state']], 'input': lead['input']}


# ------------------------------------------------------------------- dynamics

def ode_integrator(self, state, input):
    return input


def ode_unicycle(self, state, input):
    V, w = input[0], input[1]
    return np.r_[V*np.cos(state[2]), V*np.sin(state[2]), w].T


def ode_bicycle(self, state, input):
    V, w = input[0], input[1]
    return np.r_[V*np.cos(state[2]), V*np.sin(state[2]), V*np.tan(state[3])/self.length, w].T


def ode_agv(self, state, input):
    V, w = input[0], input[1]
    return np.r_[V*np.cos(state[2]), V*np.sin(state[2]), -V*np.tan(state[3])/self.length, w].T


def ode_quadrotor(self, state, input):
    u, w = input[0], input[1]
    return np.r_[state[2:4], u*np.sin(state[4]), u*np.cos(state[4]) - self.g, w].T


def ode_quadrotor3d(self, state, input):
    phi, theta = state[6], state[7]
    f = input[0]
    return np.r_[state[3:6], f*np.cos(phi)*np.sin(theta), -f*np.sin(phi), f*np.cos(phi)*np.cos(theta) - self.g,
                 input[1], input[2]].T


def ode_trailer(self, state, input):
    _, _, th, x, y, th_l = state
    V, _ = input
    dth = V*np.sin(th_l - th)/self.l_hitch
    lead = self.lead_veh.ode([x, y, th_l], input)
    return np.r_[np.r_[lead[0] + self.l_hitch*np.sin(th)*dth, lead[1] - self.l_hitch*np.cos(th)*dth, dth].T, lead]


# ------------------------------------------------------------------- pose

def pose_planar(self, state):
    return np.r_[state, 0.]


def pose_line(self, state):
    return np.r_[state, np.zeros(2)]


def pose_space(self, state):
    return np.r_[state, np.zeros(3)]


def pose_state(self, state):
    return state


def pose_first3(self, state):
    return state[:3]


def pose_quadrotor(self, state):
    return np.r_[state[0], state[1], -state[4]]


def pose_quadrotor3d(self, state):
    return np.r_[state[0], state[1], state[2], state[6], state[7], 0.]


def pose_trailer(self, state):
    return np.r_[state[:3], self.lead_veh.state2pose(state[3:])]
