"""Shapes and geometric tests, stated from their geometry."""
from numpy import cos, sin, sqrt, arctan2
import numpy as np


def turn(th, p):
    return [p[0]*cos(th) - p[1]*sin(th), p[0]*sin(th) + p[1]*cos(th)]


def turn_back(th, p):
    return [p[0]*cos(th) + p[1]*sin(th), -p[0]*sin(th) + p[1]*cos(th)]


def roll_pitch_yaw(o, p):
    """roll about x, then pitch about y, then yaw about z"""
    x, y, z = p
    y, z = y*cos(o[0]) - z*sin(o[0]), y*sin(o[0]) + z*cos(o[0])
    x, z = x*cos(o[1]) + z*sin(o[1]), -x*sin(o[1]) + z*cos(o[1])
    x, y = x*cos(o[2]) - y*sin(o[2]), x*sin(o[2]) + y*cos(o[2])
    return [x, y, z]


def rectangle(w, h, th):
    return [turn(th, [sx*w/2, sy*h/2]) for sx in (1, -1) for sy in (1, -1)]


def beam(w, h, th):
    return [turn(th, [sx*w/2, 0]) for sx in (1, -1)]


def cuboid(w, d, h, o):
    return [roll_pitch_yaw(o, [sx*w/2, sy*d/2, sz*h/2]) for sx in (1, -1) for sy in (1, -1) for sz in (1, -1)]


def plate(w, h, o):
    return [roll_pitch_yaw(o, [sx*w/2, sy*h/2, 0]) for sx in (1, -1) for sy in (1, -1)]


def regular(n, r, th):
    """n vertices on the circle of radius r, a side on top"""
    return [turn(th, [r*sin((2*k + 1)*np.pi/n), r*cos((2*k + 1)*np.pi/n)]) for k in range(n)]


def prisma(n, r, h, o):
    return [roll_pitch_yaw(o, [r*sin((2*k + 1)*np.pi/n), r*cos((2*k + 1)*np.pi/n), s*h/2]) for k in range(n) for s in (1, -1)]


# ---- half planes

def sides(vertices, pos):
    """unit outward normal a and offset b of every side of a convex polygon given clockwise"""
    out = []
    for k in range(len(vertices)):
        p, q = vertices[k], vertices[(k + 1) % len(vertices)]
        d = [q[0] - p[0], q[1] - p[1]]
        n = sqrt(d[0]**2 + d[1]**2)
        a = [-d[1]/n, d[0]/n]
        out.append([a[0], a[1], a[0]*(p[0] + pos[0]) + a[1]*(p[1] + pos[1])])
    return out


def rectangle_sides(w, h, th, pos):
    out = []
    for n, e in (([1, 0], w/2), ([-1, 0], w/2), ([0, 1], h/2), ([0, -1], h/2)):
        a = turn(th, n)
        out.append([a[0], a[1], e + a[0]*pos[0] + a[1]*pos[1]])
    return out


def inside_rectangle(point, w, h, th, pos, margin):
    p = turn_back(th, [point[0] - pos[0], point[1] - pos[1]])
    return p[0] <= w/2 + margin and -p[0] <= w/2 + margin and p[1] <= h/2 + margin and -p[1] <= h/2 + margin


def inside_polygon(point, vertices, pos, margin):
    for a0, a1, b in sides(vertices, pos):
        if a0*point[0] + a1*point[1] > b + margin:
            return False
    return True


# ---- tests on axis-parallel rectangles and segments

def point_distance(p, q):
    return sqrt(sum([(q[k] - p[k])**2 for k in range(len(p))]))


def between(lo, x, hi):
    return lo <= x and x <= hi


def point_in_limits(p, limits, distance):
    x0, y0, x1, y1 = limits
    return between(x0 + distance, p[0], x1 - distance) and between(y0 + distance, p[1], y1 - distance)


def point_in_limits_xy(p, limits, distance):
    x0, y0, x1, y1 = limits
    return [between(x0 + distance, p[0], x1 - distance), between(y0 + distance, p[1], y1 - distance)]


def moving_point_in_limits(p, v, limits, horizon):
    """seen at equal distances of at most half a second, begin and end included"""
    x0, y0, x1, y1 = limits
    n = int(round(horizon/0.5) + 1)
    for k in range(n + 1):
        t = k*horizon/n
        if between(x0, p[0] + t*v[0], x1) and between(y0, p[1] + t*v[1], y1):
            return True
    return False


def overlap(w1, h1, p1, w2, h2, p2):
    return abs(p1[0] - p2[0]) <= (w1 + w2)/2 and abs(p1[1] - p2[1]) <= (h1 + h2)/2


def overlap_center(w1, h1, p1, w2, h2, p2):
    def mid(a, p, b, q):
        return (max(p - a/2, q - b/2) + min(p + a/2, q + b/2))/2
    return [mid(w1, p1[0], w2, p2[0]), mid(h1, p1[1], h2, p2[1])]


def side(p, q, r):
    """positive when r lies left of the line p-q"""
    return (q[0] - p[0])*(r[1] - p[1]) - (q[1] - p[1])*(r[0] - p[0])


def segments_cross(a, b, c, d):
    """each segment has its end points on both sides of the other"""
    return (side(a, c, d) > 0) != (side(b, c, d) > 0) and (side(a, b, c) > 0) != (side(a, b, d) > 0)


def lines_cross(a, b, c, d):
    """a + s (b - a) on the line c-d; None for parallel lines"""
    den = (b[0] - a[0])*(d[1] - c[1]) - (b[1] - a[1])*(d[0] - c[0])
    if den == 0:
        return None
    s = ((c[0] - a[0])*(d[1] - c[1]) - (c[1] - a[1])*(d[0] - c[0]))/den
    return [a[0] + s*(b[0] - a[0]), a[1] + s*(b[1] - a[1])]


def line_distance(p, a, b):
    return abs(side(a, b, p))/sqrt((b[0] - a[0])**2 + (b[1] - a[1])**2)


def rectangle_distance(p, w, h, pos):
    """signed by the side that is nearest: negative towards the left and lower side"""
    left, right = abs(p[0] - pos[0] + w/2), abs(p[0] - pos[0] - w/2)
    low, high = abs(p[1] - pos[1] + h/2), abs(p[1] - pos[1] - h/2)
    return [-left if left < right else right, low if low < high else -high]


def touches(center, r, vertices, pos):
    """a side of the polygon has a point in the circle (sides longer by 1e-6 in x and in y)"""
    eps = 1e-6
    n = len(vertices)
    v = [[x + pos[0], y + pos[1]] for x, y in vertices]
    hit = False
    for k in range(n):
        hit = hit or point_distance(center, v[k]) <= r
    for k in range(n):
        a, b = v[k], v[(k + 1) % n]
        d = [b[0] - a[0], b[1] - a[1]]
        s = ((center[0] - a[0])*d[0] + (center[1] - a[1])*d[1])/(d[0]**2 + d[1]**2)
        f = [a[0] + s*d[0], a[1] + s*d[1]]
        hit = hit or (min(a[0], b[0]) - eps <= f[0] and f[0] <= max(a[0], b[0]) + eps and min(a[1], b[1]) - eps <= f[1] and
                      f[1] <= max(a[1], b[1]) + eps and point_distance(center, f) <= r)
    return hit
