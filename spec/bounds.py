"""Reference semantics: the limits a vehicle uses are the ones the user gave, else the documented default
(never executed)."""
import numpy as np


def pick(self, bounds, name, default):
    return bounds[name] if name in bounds else default


def setup(self, options):
    self.set_default_options()
    self.set_options(options or {})


def bounds_holonomic(self, bounds, options):
    setup(self, options)
    bounds = bounds or {}
    if ((not 'syslimit' in self.options) or (self.options['syslimit'] == 'norm_inf')):
        self.vxmin = pick(self, bounds, 'vmin', pick(self, bounds, 'vxmin', -0.5))
        self.vymin = pick(self, bounds, 'vmin', pick(self, bounds, 'vymin', -0.5))
        self.vxmax = pick(self, bounds, 'vmax', pick(self, bounds, 'vxmax', 0.5))
        self.vymax = pick(self, bounds, 'vmax', pick(self, bounds, 'vymax', 0.5))
        self.axmin = pick(self, bounds, 'amin', pick(self, bounds, 'axmin', -1.))
        self.aymin = pick(self, bounds, 'amin', pick(self, bounds, 'aymin', -1.))
        self.axmax = pick(self, bounds, 'amax', pick(self, bounds, 'axmax', 1.))
        self.aymax = pick(self, bounds, 'amax', pick(self, bounds, 'aymax', 1.))
    elif self.options['syslimit'] == 'norm_2':
        self.vmax = pick(self, bounds, 'vmax', 0.5)
        self.amax = pick(self, bounds, 'amax', 1.)


def bounds_holonomic1d(self, bounds, options):
    bounds = bounds or {}
    self.vmin = pick(self, bounds, 'vmin', -0.5)
    self.vmax = pick(self, bounds, 'vmax', 0.5)
    self.amin = pick(self, bounds, 'amin', -1.)
    self.amax = pick(self, bounds, 'amax', 1.)


bounds_holonomic3d = bounds_holonomic1d


def bounds_holonomicorient(self, bounds, options):
    bounds_holonomic1d(self, bounds, options)
    bounds = bounds or {}
    self.wmin = pick(self, bounds, 'wmin', -np.pi/6.)
    self.wmax = pick(self, bounds, 'wmax', np.pi/6.)


def bounds_dubins(self, bounds, options):
    bounds = bounds or {}
    self.vmax = pick(self, bounds, 'vmax', 0.5)
    self.wmin = pick(self, bounds, 'wmin', -np.pi/6.)
    self.wmax = pick(self, bounds, 'wmax', np.pi/6.)


def steered(self, bounds, vmax):
    bounds = bounds or {}
    self.vmax = pick(self, bounds, 'vmax', vmax)
    self.amax = pick(self, bounds, 'amax', 1.)
    self.dmin = pick(self, bounds, 'dmin', -np.pi/6.)
    self.dmax = pick(self, bounds, 'dmax', np.pi/6.)
    self.ddmin = pick(self, bounds, 'ddmin', -np.pi/4.)
    self.ddmax = pick(self, bounds, 'ddmax', np.pi/4.)


def bounds_bicycle(self, bounds, options):
    steered(self, bounds, 0.8)


def bounds_agv(self, bounds, options):
    steered(self, bounds, 0.5)


def bounds_quadrotor(self, bounds, options):
    bounds = bounds or {}
    self.u1min = pick(self, bounds, 'u1min', 2.)
    self.u1max = pick(self, bounds, 'u1max', 15.)
    self.u2min = pick(self, bounds, 'u2min', -8.)
    self.u2max = pick(self, bounds, 'u2max', 8.)
    self.g = 9.81


def bounds_quadrotor3d(self, bounds, options):
    bounds = bounds or {}
    self.u1min = pick(self, bounds, 'u1min', 2.)
    self.u1max = pick(self, bounds, 'u1max', 15.)
    self.u2min = pick(self, bounds, 'u2min', -2.)
    self.u2max = pick(self, bounds, 'u2max', 2.)
    self.u3min = pick(self, bounds, 'u3min', -2.)
    self.u3max = pick(self, bounds, 'u3max', 2.)
    self.phimin = pick(self, bounds, 'phimin', -np.pi/6)
    self.phimax = pick(self, bounds, 'phimax', np.pi/6)
    self.thetamin = pick(self, bounds, 'thetamin', -np.pi/6)
    self.thetamax = pick(self, bounds, 'thetamax', np.pi/6)
    self.g = 9.81


bounds_simplequadrotor3d = bounds_quadrotor3d


def bounds_tool(self, bounds, options):
    bounds = bounds or {}
    self.vxmin = pick(self, bounds, 'vmin', pick(self, bounds, 'vxmin', -0.5))
    self.vymin = pick(self, bounds, 'vmin', pick(self, bounds, 'vymin', -0.5))
    self.vzmin = pick(self, bounds, 'vzmin', -0.5)
    self.vxmax = pick(self, bounds, 'vmax', pick(self, bounds, 'vxmax', 0.5))
    self.vymax = pick(self, bounds, 'vmax', pick(self, bounds, 'vymax', 0.5))
    self.vzmax = pick(self, bounds, 'vzmax', 0.5)
    self.axmin = pick(self, bounds, 'amin', pick(self, bounds, 'axmin', -1.))
    self.aymin = pick(self, bounds, 'amin', pick(self, bounds, 'aymin', -1.))
    self.azmin = pick(self, bounds, 'amin', pick(self, bounds, 'azmin', -1.))
    self.axmax = pick(self, bounds, 'amax', pick(self, bounds, 'axmax', 1.))
    self.aymax = pick(self, bounds, 'amax', pick(self, bounds, 'aymax', 1.))
    self.azmax = pick(self, bounds, 'amax', pick(self, bounds, 'azmax', 1.))
    self.jxmin = pick(self, bounds, 'jmin', pick(self, bounds, 'jxmin', -2.))
    self.jymin = pick(self, bounds, 'jmin', pick(self, bounds, 'jymin', -2.))
    self.jzmin = pick(self, bounds, 'jmin', pick(self, bounds, 'jzmin', -2.))
    self.jxmax = pick(self, bounds, 'jmax', pick(self, bounds, 'jxmax', 2.))
    self.jymax = pick(self, bounds, 'jmax', pick(self, bounds, 'jymax', 2.))
    self.jzmax = pick(self, bounds, 'jmax', pick(self, bounds, 'jzmax', 2.))


def bounds_trailer(self, bounds, options):
    bounds = bounds or {}
    self.tmax = pick(self, bounds, 'tmax', np.pi/4.)
    self.tmin = pick(self, bounds, 'tmin', -np.pi/4.)
