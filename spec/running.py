"""The simulation loop around the control updates, and the objective reported at its end."""
import numpy as np
from omgtools.basics.spline_extra import definite_integral


def remaining(self):
    return float(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)


def result(self, what):
    vehicles = self.problem.vehicles
    if len(vehicles) == 1:
        return tuple([getattr(vehicles[0], w) for w in what])
    r = []
    for w in what:
        d = {}
        for v in vehicles:
            d[str(v)] = getattr(v, w)
        r.append(d)
    return tuple(r)


def simulation(self):
    self.deployer.reset()
    stop = False
    while not stop:
        stop = self.update()
        left = remaining(self)
        if stop or self.update_time - left > self.sample_time:
            self.update_timing(max(0, left - self.sample_time))
        else:
            self.update_timing()
    self.problem.final()
    return result(self, ['traj_storage', 'signals'])


def step(self, update_time, motion_time):
    stop = self.update()
    if stop:
        self.update_timing(remaining(self))
        self.problem.final()
    else:
        self.update_timing(update_time)
    vehicles = self.problem.vehicles
    trajectories, signals = result(self, ['traj_storage', 'signals'])
    if len(vehicles) == 1:
        state = vehicles[0].signals['state'][:, -1]
    else:
        state = {}
        for v in vehicles:
            state[str(v)] = v.signals['state'][:, -1]
    return state, self.current_time, motion_time, stop, trajectories, signals


def fixed_motion_time(self):
    return self.problem.options['horizon_time']


def free_motion_time(self):
    return self.problem.father.get_variables(self.problem, 'T')[0][0]


def fixed_step(self, update_time):
    return step(self, update_time, fixed_motion_time(self))


def free_step(self, update_time):
    return step(self, update_time, free_motion_time(self))


def once(self, simulate=True, **kwargs):
    stop = kwargs.get('hard_stop')
    self.deployer.reset()
    self.deployer.update(self.current_time, None, update_time=np.inf)
    if not simulate:
        return None
    if stop:
        self.hard_stop(self.current_time, stop['time'], stop['perturbation'])
    else:
        self.problem.simulate(self.current_time, np.inf, self.sample_time)
    self.problem.final()
    self.update_timing(self.problem.vehicles[0].signals['time'][:, -1] - self.current_time)
    return result(self, ['trajectories'])[0]


def hard_stop(self, current_time, stop_time, perturbation):
    self.problem.simulate(current_time, stop_time, self.sample_time)
    for k, v in enumerate(self.problem.vehicles):
        v.overrule_state(v.signals['state'][:, -1] + np.array(perturbation[k]))
        v.overrule_input(np.zeros(len(v.prediction['input'])))


def sleep(self, sleep_time):
    self.problem.sleep(self.current_time, sleep_time, self.sample_time)
    self.update_timing(sleep_time)


def deployed(self, current_time):
    return result(self, ['trajectories'])[0]


# ---- objective

def slack(self, v, k):
    return self.father.get_variables(self, 'g%d' % k if v == 0 else 'g%d_veh%d' % (k, v))[0]


def partial(self, current_time, update_time):
    T = self.options['horizon_time']
    t0 = (np.round(current_time - self.start_time, 6) % self.knot_time)/T
    t1 = t0 + update_time/T
    total = 0.
    for v in range(len(self.vehicles)):
        for k in range(self.term_con_len[v]):
            total = total + T*definite_integral(slack(self, v, k), t0, t1)
    self.objective = self.objective + total


def objective(self):
    if self.objective == 0:
        total = 0.
        for v in range(len(self.vehicles)):
            for k in range(self.term_con_len[v]):
                total = total + self.options['horizon_time']*slack(self, v, k).integral()
        return total
    return self.objective


def fixed_counted(self, current_time, simulation_time, sample_time):
    T = self.options['horizon_time']
    if self.init_time is None:
        passed = np.round(current_time - self.start_time, 6) % self.knot_time
    else:
        passed = self.init_time
    if T - passed < simulation_time:
        simulation_time = T - passed
    self.compute_partial_objective(current_time, simulation_time)


def free_counted(self, current_time, simulation_time, sample_time):
    T = self.father.get_variables(self, 'T')[0][0]
    passed = 0. if self.init_time is None else self.init_time
    if T < sample_time:
        return
    if T < simulation_time:
        simulation_time = T
    if T - passed < simulation_time:
        simulation_time = T - passed
    self.compute_partial_objective(current_time + simulation_time - self.start_time)


# ---- standing still

def problem_sleep(self, current_time, sleep_time, sample_time):
    for v in self.vehicles:
        rest = self.father.get_variables(v, 'splines_seg0')
        last = self.father.get_variables(v, 'splines_seg0', spline=False)[-1, :]
        for k in range(len(rest)):
            rest[k].coeffs = last[k]*np.ones(len(rest[k].basis))
        v.store(current_time, sample_time, [rest], sleep_time)
    for v in self.vehicles:
        v.simulate(sleep_time, sample_time)
    self.environment.simulate(sleep_time, sample_time)
