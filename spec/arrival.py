"""When a vehicle has arrived. Specification; read by the analyser, never executed."""
import numpy as np


def near(a, b, tol):
    return np.linalg.norm(a - b) <= tol


def still(a, tol):
    return np.linalg.norm(a) <= tol


def whole_state(self):
    tol = self.options['stop_tol']
    return near(self.signals['state'][:, -1], self.poseT, tol) and still(self.signals['input'][:, -1], tol)


def steered(self):
    tol = self.options['stop_tol']
    return near(self.signals['state'][:3, -1], self.poseT, tol) and still(self.signals['input'][:, -1], tol)


def quadrotor(self):
    tol = self.options['stop_tol']
    return near(self.signals['pose'][:2, -1], self.poseT, tol) and still(self.signals['dspl'][:, -1], tol)


def simplequadrotor3d(self):
    tol = self.options['stop_tol']
    return near(self.signals['pose'][:3, -1], self.positionT, tol) and still(self.signals['dspl'][:, -1], tol)


def quadrotor3d(self):
    """at rest the thrust balances gravity"""
    tol = self.options['stop_tol']
    return near(self.signals['pose'][:3, -1], self.poseT[:3], tol) and np.linalg.norm(self.signals['input'][:, -1]) - self.g <= tol


def trailer(self):
    tol = self.options['stop_tol']
    if hasattr(self, 'theta_trT'):
        if not near(self.signals['state'][2, -1], self.theta_trT, tol):
            return False
    return self.lead_veh.check_terminal_conditions()


def meeting(self, current_time, update_time):
    """all agents keep the agreed relative positions"""
    res = 0.
    for veh in self.vehicles:
        mine = sorted(self.fleet.configuration[veh].keys())
        rel = self.fleet.get_rel_config(veh)
        for nghb in self.fleet.get_neighbors(veh):
            theirs = sorted(self.fleet.configuration[nghb].keys())
            for k in range(len(mine)):
                i, j = mine[k], theirs[k]
                r = rel[nghb]
                r = r if isinstance(r, float) else r[k]
                res += np.linalg.norm(veh.trajectories['splines'][i, 0] - nghb.trajectories['splines'][j, 0] - r)**2
    return np.sqrt(res) <= 5.e-2


def leading(self):
    return {'state': self.signals['state'][3:, ], 'input': self.signals['input'], 'pose': self.signals['pose'][3:, ]}


def tolerance_default():
    return 1.e-3


def tolerance_small():
    return 1.e-2


def tolerance_flying():
    return 5.e-1
