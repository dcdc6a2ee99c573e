"""Reference semantics: separating hyperplanes, room limits and obstacle motion (never executed)."""
from casadi import inf, cos, sin, vertcat, SX, MX
import numpy as np
from omgtools.basics.spline_extra import definite_integral, get_interval_T, running_integral, evalspline
from omgtools.basics.spline import BSplineBasis, BSpline
from omgtools.basics.shape import Circle, Rectangle, Square, Ring


def le(self, a, b):
    self.define_constraint(a - b, -inf, 0.)


def margin(self, s, k, t, horizon_time):
    """safety margin actually demanded: the requested one, softened by a penalised slack"""
    d = self.options['safety_distance']
    if d > 0.:
        eps = self.define_spline_variable('eps_'+str(s)+str(k))[0]
        self.define_objective(self.options['safety_weight']*definite_integral(eps, t/horizon_time, 1.))
        le(self, eps, d)
        le(self, 0, eps)
        return d - eps
    return d


def body(c, position, q, offset):
    """checkpoint in the world frame times (1+q^2); q = tan(heading/2)"""
    cs, sn = 1 - q**2, 2*q
    return [position[0]*(1 + q**2) + (c[0] + offset)*cs - c[1]*sn, position[1]*(1 + q**2) + (c[0] + offset)*sn + c[1]*cs]


def vehicle_2d_sep(self, hyperplanes, room, positions, horizon_time, tg_ha=0, offset=0):
    q = tg_ha
    t = self.define_symbol('t')
    positions = [positions] if not isinstance(positions[0], list) else positions
    for s, shape in enumerate(self.shapes):
        position = positions[s]
        chcks, rad = shape.get_checkpoints()
        if shape in hyperplanes:
            for k, h in enumerate(hyperplanes[shape]):
                a, b = h['a'], h['b']
                sl = 1 if 'slack' not in h else h['slack']
                m = margin(self, s, k, t, horizon_time)
                for l, c in enumerate(chcks):
                    p = body(c, position, q, offset)
                    le(self, a[0]*p[0] + a[1]*p[1] + (sl*rad[l] + m)*(1 + q**2), b*(1 + q**2))


def vehicle_2d_room(self, hyperplanes, room, positions, horizon_time, tg_ha=0, offset=0):
    q = tg_ha
    positions = [positions] if not isinstance(positions[0], list) else positions
    for s, shape in enumerate(self.shapes):
        position = positions[s]
        chcks, rad = shape.get_checkpoints()
        if self.options['room_constraints']:
            aligned = (isinstance(room['shape'], (Rectangle, Square)) and room['shape'].orientation == 0.0 and
                       (isinstance(shape, Circle) or (isinstance(shape, (Rectangle, Square)) and shape.orientation == 0)) and
                       isinstance(q, (int, float)) and q == 0.)
            if aligned:
                lims = room['shape'].get_canvas_limits()
                for c in chcks:
                    for k in range(self.n_dim):
                        lim = lims[k] + room['position'][k]
                        le(self, lim[0] + rad[0], c[k] + position[k])
                        le(self, c[k] + position[k] + rad[0], lim[1])
            else:
                planes = room['shape'].get_hyperplanes(position=room['position'])
                for l, c in enumerate(chcks):
                    for h in planes.values():
                        p = body(c, position, q, offset)
                        le(self, h['a'][0]*p[0] + h['a'][1]*p[1] + rad[l]*(1 + q**2), h['b']*(1 + q**2))


def vehicle_3d(self, hyperplanes, room, positions, horizon_time):
    t = self.define_symbol('t')
    positions = [positions] if not isinstance(positions[0], list) else positions
    for s, shape in enumerate(self.shapes):
        position = positions[s]
        chcks, rad = shape.get_checkpoints()
        if shape in hyperplanes:
            for k, h in enumerate(hyperplanes[shape]):
                a, b = h['a'], h['b']
                m = margin(self, s, k, t, horizon_time)
                for l, c in enumerate(chcks):
                    le(self, a[0]*(c[0] + position[0]) + a[1]*(c[1] + position[1]) + a[2]*(c[2] + position[2]) + rad[l] + m, b)


def room_box(self, room, positions, inflate):
    positions = [positions] if not isinstance(positions[0], list) else positions
    for s, shape in enumerate(self.shapes):
        position = positions[s]
        chcks, rad = shape.get_checkpoints()
        if self.options['room_constraints']:
            lims = room['shape'].get_canvas_limits()
            for l, c in enumerate(chcks):
                for k in range(3):
                    lim = lims[k] + room['position'][k]
                    r = rad[l] if inflate else 0
                    le(self, lim[0] + r, c[k] + position[k])
                    le(self, c[k] + position[k] + r, lim[1])


def room_3d(self, hyperplanes, room, positions, horizon_time):
    room_box(self, room, positions, True)


def room_3d_points(self, hyperplanes, room, positions, horizon_time):
    room_box(self, room, positions, False)


# ---- the obstacle lies on the other side of the same plane

def obstacle_2d(self, hyperplanes):
    w = self.gon_weight
    for h in hyperplanes:
        a, b = h['a'], h['b']
        for l in range(self.checkpoints.shape[0]//self.n_dim):
            cx, cy = self.checkpoints[l*self.n_dim + 0], self.checkpoints[l*self.n_dim + 1]
            x = self.pos_spline[0]*w + cx*self.cos - cy*self.sin
            y = self.pos_spline[1]*w + cx*self.sin + cy*self.cos
            le(self, w*(b + self.rad[l]), a[0]*x + a[1]*y)


def obstacle_3d(self, hyperplanes):
    for h in hyperplanes:
        a, b = h['a'], h['b']
        for l in range(self.checkpoints.shape[0]//self.n_dim):
            c = [self.checkpoints[l*self.shape.n_dim + k] for k in range(self.n_dim)]
            le(self, b + self.rad[l], sum([a[k]*(c[k] + self.pos_spline[k]) for k in range(self.n_dim)]))


# ---- predicted motion of an obstacle over the horizon (constant acceleration, exact for a quadratic spline)

def quadratic(self, k, p, v, a, T):
    return BSpline(self.basis, vertcat(p[k], p[k] + 0.5*v[k]*T, p[k] + v[k]*T + 0.5*a[k]*T**2))


def parameters(self, current_time):
    chcks, rad = self.shape.get_checkpoints()
    d = {'checkpoints': np.reshape(chcks, (len(chcks)*self.n_dim, )), 'rad': rad}
    if not self.options['spline_traj']:
        d['x'] = self.signals['position'][:, -1]
        d['v'] = self.signals['velocity'][:, -1]
        d['a'] = self.signals['acceleration'][:, -1]
    else:
        d['traj_coeffs'] = self.options['spline_params']['coeffs']
    return d


def parameters_2d(self, current_time):
    d = parameters(self, current_time)
    d['theta'] = self.signals['orientation'][:, -1]
    return d


# ---- position fed to the collision constraints, per vehicle

def planar_rates(v, q):
    return v*(1 - q**2), v*(2*q)


def integral(self, rate, x0, t, T=1.):
    I = T*running_integral(rate)
    if isinstance(t, (SX, MX)):
        return I - evalspline(I, t/T) + x0
    return I - I(t/T) + x0


def horizon(self, T):
    return self.define_symbol('T') if T is None else T


def feed_planar(self, hyperplanes, room, splines, horizon_time):
    self.define_collision_constraints_2d(hyperplanes, room, [splines[0], splines[1]], horizon_time)


def feed_space(self, hyperplanes, room, splines, horizon_time=None):
    self.define_collision_constraints_3d(hyperplanes, room, [splines[0], splines[1], splines[2]], horizon_time)


def feed_simplequadrotor3d(self, hyperplanes, room, splines, horizon_time=None):
    self.define_collision_constraints_3d(hyperplanes, room, [splines[0], splines[1], splines[2]], horizon(self, horizon_time))


def feed_holonomicorient(self, hyperplanes, room, splines, horizon_time=None):
    self.define_collision_constraints_2d(hyperplanes, room, [splines[0], splines[1]], horizon_time, tg_ha=splines[2])


def feed_heading(self, hyperplanes, room, x, y, T, q):
    if isinstance(self.shapes[0], Circle):
        self.define_collision_constraints_2d(hyperplanes, room, [x, y], T)
    else:
        self.define_collision_constraints_2d(hyperplanes, room, [x, y], T, tg_ha=q)


def feed_dubins(self, hyperplanes, room, splines, horizon_time=None):
    T = horizon(self, horizon_time)
    v, q = splines[0], splines[1]
    if self.options['substitution']:
        x, y = self.x, self.y
    else:
        dx, dy = planar_rates(v, q)
        x, y = integral(self, dx, self.pos0[0], self.t, T), integral(self, dy, self.pos0[1], self.t, T)
    feed_heading(self, hyperplanes, room, x, y, T, q)


feed_bicycle = feed_dubins


def feed_agv(self, hyperplanes, room, splines, horizon_time=None):
    T = horizon(self, horizon_time)
    v, q = splines[0], splines[1]
    dx, dy = planar_rates(v, q)
    Ix, Iy = T*running_integral(dx), T*running_integral(dy)
    feed_heading(self, hyperplanes, room, Ix - evalspline(Ix, self.t/T) + self.pos0[0],
                 Iy - evalspline(Iy, self.t/T) + self.pos0[1], T, q)


def feed_quadrotor3d(self, hyperplanes, room, splines, horizon_time=None):
    T = horizon(self, horizon_time)
    f, p, q = splines
    if self.options['substitution']:
        pos = [self.x, self.y, self.z]
    else:
        acc = [f*(1 - p**2)*(2*q), -f*(1 + q**2)*(2*p), f*(1 - p**2)*(1 - q**2) - self.g]
        pos = [integral(self, integral(self, acc[k], self.dpos0[k], self.t, T), self.pos0[k], self.t, T) for k in range(3)]
    self.define_collision_constraints_3d(hyperplanes, room, pos, T)


def feed_trailer(self, hyperplanes, room, splines, horizon_time=None):
    x, y = self.lead_veh.get_pos_splines(splines[1:])
    self.define_collision_constraints_2d(hyperplanes, room, [x, y], horizon_time, tg_ha=splines[0], offset=-self.l_hitch)
    self.lead_veh.define_collision_constraints(hyperplanes, room, splines[1:], horizon_time)


# ---- one separating plane per segment, vehicle shape and avoided obstacle

def environment(self, vehicle, splines, horizon_times):
    knots = np.r_[np.zeros(1), vehicle.knots[vehicle.degree:-vehicle.degree], np.ones(1)]
    basis = BSplineBasis(knots, 1)
    for idx in range(vehicle.n_seg):
        room = self.room[idx]
        obstacles = room['obstacles'] if 'obstacles' in room else self.obstacles
        planes_v, planes_o = {}, {}
        for k, shape in enumerate(vehicle.shapes):
            planes_v[shape] = []
            for l, o in enumerate(obstacles):
                o.init(horizon_times=horizon_times[:idx+1])
                if o.options['avoid']:
                    if o not in planes_o:
                        planes_o[o] = []
                    name = '_'+vehicle.label+'_'+'seg'+str(idx)+'_'+str(k)+str(l)
                    a = self.define_spline_variable('a'+name, o.n_dim, basis=basis)
                    b = self.define_spline_variable('b'+name, 1, basis=basis)[0]
                    le(self, sum([a[p]*a[p] for p in range(o.n_dim)]), 1)
                    if self.n_dim == 3 and o.n_dim == 2:
                        planes_v[shape].append({'a': [a[0], a[1], BSpline(basis, np.zeros(len(basis)))], 'b': b})
                    else:
                        planes_v[shape].append({'a': a, 'b': b})
                    planes_o[o].append({'a': a, 'b': b})
                    o.define_collision_constraints(planes_o[o])
        vehicle.define_collision_constraints(planes_v, room, splines[idx], horizon_times[idx])


def intervehicle(self, vehicles, horizon_times):
    for idx in range(vehicles[0].n_seg):
        planes = {}
        for v in vehicles:
            planes[v] = {}
            for sh in v.shapes:
                planes[v][sh] = []
        for i in range(len(vehicles)):
            for j in range(i + 1, len(vehicles)):
                v1, v2 = vehicles[i], vehicles[j]
                if v1 != v2:
                    if v1.n_dim != v2.n_dim:
                        raise ValueError('dimension')
                    basis = BSplineBasis(np.r_[np.zeros(1), np.union1d(v1.knots[v1.degree:-v1.degree],
                                                                       v2.knots[v2.degree:-v2.degree]), np.ones(1)], 1)
                    for k1, s1 in enumerate(v1.shapes):
                        for k2, s2 in enumerate(v2.shapes):
                            name = '_'+v1.label+'_'+'seg'+str(idx)+'_'+str(k1)+'_'+v2.label+'_'+str(k2)
                            a = self.define_spline_variable('a'+name, self.n_dim, basis=basis)
                            b = self.define_spline_variable('b'+name, 1, basis=basis)[0]
                            le(self, sum([a[p]*a[p] for p in range(self.n_dim)]), 1)
                            planes[v1][s1].append({'a': a, 'b': b})
                            planes[v2][s2].append({'a': [-c for c in a], 'b': -b})
        for v in vehicles:
            v.define_collision_constraints(planes[v], self.room[idx], v.splines[idx], horizon_times[idx])
