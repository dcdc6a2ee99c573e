"""Where a solve starts from."""
import numpy as np
from omgtools.basics.spline_extra import shift_spline, shiftoverknot_T
from omgtools.basics.geometry import compute_rectangle_overlap_center


def line(a, b, n):
    return [a + (b - a)*k/(n - 1) for k in range(n)]


def columns(*cols):
    return np.array([[c[k] for c in cols] for k in range(len(cols[0]))])


def half(x):
    return np.tan(x/2)


def straight(self, n):
    s, g = self.prediction['state'], self.poseT
    return [columns(*[line(s[k], g[k], n) for k in range(self.n_spl)])]


def straight_spline(self, n):
    return [columns(line(self.prediction["state"][0], self.poseT[0], n))]


def straight_simple(self, n):
    s, g = self.prediction['state'], self.positionT
    return [columns(*[line(s[k], g[k], n) for k in range(self.n_spl)])]


def through(self, n, goals):
    pts = [self.prediction['state']] + goals + [self.poseT]
    return [columns(*[line(pts[l][k], pts[l + 1][k], n) for k in range(2)]) for l in range(len(pts) - 1)]


def oriented(self, n):
    s, g = self.prediction['state'], self.poseT
    return [columns(line(s[0], g[0], n), line(s[1], g[1], n), line(half(s[2]), half(g[2]), n))]


def wheeled(self, n):
    s, g = self.prediction['state'], self.poseT
    return [columns([0]*n, line(half(s[2]), half(g[2]), n))]


def padded(self, n):
    s, g, d = self.prediction['state'], self.poseT, self.degree
    return [columns(*[[s[k]]*d + line(s[k], g[k], n - 2*d) + [g[k]]*d for k in range(2)])]


def tilted(self, n):
    s, g = self.prediction['state'], self.poseT
    return [columns([0]*n, line(half(s[6]), half(g[3]), n), line(half(s[7]), half(g[4]), n))]


def trailing(self, n):
    s = self.prediction['state']
    l = self.lead_veh
    ls, lg = l.prediction['state'], l.poseT
    a = half(s[2])
    b = half(self.theta_trT) if hasattr(self, 'theta_trT') else a
    return [columns(line(a, b, n), [0]*n, line(half(ls[2]), half(lg[2]), n))]


def over_knot(self, basis):
    return shiftoverknot_T(basis)


# problems ------------------------------------------------------------------

def restart(self, father=None):
    if father is None:
        father = self.father
    self.father.init_variables()
    self.father.init_parameters()
    for v in self.vehicles:
        guess = v.get_init_spline_value()
        for k in range(v.n_seg):
            father.set_variables(guess[k], v, 'splines_seg' + str(k))


def restart_frames(self, father=None):
    if father is None:
        father = self.father
    self.father.init_variables()
    self.father.init_parameters()
    for v in self.vehicles:
        goals = []
        for k in range(self.n_frames - 1):
            a, b = self.environment.room[k], self.environment.room[k + 1]
            goals.append(compute_rectangle_overlap_center(a['shape'], a['position'], b['shape'], b['position']))
        guess = v.get_init_spline_value(subgoals=goals)
        for k in range(self.n_frames):
            father.set_variables(guess[k], v, 'splines_seg' + str(k))


def reset_own(self):
    for v in self.vehicles:
        guess = v.get_init_spline_value()
        for k in range(v.n_seg):
            self.father.set_variables(guess[k].tolist(), child=v, name='splines_seg' + str(k))


def reset_given(self, guess):
    for v in self.vehicles:
        for k in range(v.n_seg):
            self.father.set_variables(guess[k].tolist(), child=v, name='splines_seg' + str(k))


def frames_step(self, current_time, update_time):
    if current_time > 0:
        T = 0
        for k in range(self.n_frames):
            T = T + self.father.get_variables(self, 'T' + str(k))[0][0]
        if T < 2*update_time:
            shift = T - update_time
            target = T
        else:
            shift = update_time
            target = T - update_time
        self.father.transform_primal_splines(lambda coeffs, basis: shift_spline(coeffs, shift/target, basis), seg_shift=[0])
        T0 = self.father.get_variables(self, 'T0')[0][0]
        self.father.set_variables(T0 - shift, self, 'T0')


def segments_step(self, current_time, update_time):
    own = [self.father.get_variables(self, 'T' + str(k))[0][0] for k in range(self.n_segments)]
    for k in range(self.n_segments):
        self.father.set_variables(self.motion_time_guess[k] if hasattr(self, 'motion_time_guess') else own[k], self, 'T' + str(k))
