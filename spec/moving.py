"""Simulated obstacles."""
import numpy as np


def rate(self, state, time):
    """state without the imposed jumps: A x + B u, a jump of the speed moves the position, one of the acceleration the speed"""
    n = self.n_dim
    j = self.state_incr_interp(time)
    A, B = self.simulation_model['A'], self.simulation_model['B']
    return A.dot(state) + B.dot(self.input_interp(time)) + np.r_[j[n:], np.zeros(n)]


def start(self, time0):
    """integrated state at the begin: what is measured, without the jumps imposed so far"""
    x = np.r_[self.signals['position'][:, -1], self.signals['velocity'][:, -1], self.signals['acceleration'][:, -1]]
    if time0 == 0:
        return x
    return x - self.state_incr_interp(time0)


def angle(theta, omega, n, dt):
    return [theta + k*dt*omega for k in range(n + 1)]


def circles_overlap(p, r, q, s):
    return np.sqrt((q[0] - p[0])**2 + (q[1] - p[1])**2) < r + s


def circle_beyond(p, r, lims):
    x0, x1, y0, y1 = lims
    return p[0] - r < x0 or p[0] + r > x1 or p[1] - r < y0 or p[1] + r > y1 or p[0] + r < x0 or p[0] - r > x1 or p[1] + r < y0 or p[1] - r > y1


def polygon_beyond(points, p, lims):
    x0, x1, y0, y1 = lims
    for a, b in points:
        if a + p[0] < x0 or a + p[0] > x1 or b + p[1] < y0 or b + p[1] > y1:
            return True
    return False


def default_model(n):
    """position, speed and acceleration of a point with constant acceleration"""
    return np.kron(np.array([[0., 1., 0.], [0., 0., 1.], [0., 0., 0.]]), np.eye(n))
