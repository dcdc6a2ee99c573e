"""One control update: predict, solve, store; then simulate, check, advance the clock."""
import numpy as np
from omgtools.basics.spline_extra import shift_spline


def solve(self, current_time, update_time):
    now = current_time - self.start_time
    self.init_step(now, update_time)
    x0 = self.father.get_variables()
    p = self.father.set_parameters(now)
    lb, ub = self.father.update_bounds(now)
    result = self.problem(x0=x0, p=p, lbg=lb, ubg=ub)
    self.father.set_variables(result['x'])
    self.father.set_dual_variables(result['lam_g'])
    status = self.problem.stats()['return_status']
    if status == 'Maximum_CpuTime_Exceeded' and now != 0:
        self.reset_init_guess()


def predict(self, current_time, predict_time, sample_time, states=None, inputs=None, dinputs=None, delay=0,
            enforce_states=False, enforce_inputs=False):
    for k, vehicle in enumerate(self.vehicles):
        vehicle.predict(current_time, predict_time, sample_time, None if states is None else states[k],
                        None if inputs is None else inputs[k], None if dinputs is None else dinputs[k], delay,
                        enforce_states or current_time == self.start_time, enforce_inputs)


def deploy(self, current_time, states=None, inputs=None, dinputs=None, update_time=None, enforce_states=False, enforce_inputs=False):
    now = float(current_time)
    step = update_time or self.update_time
    vehicle = self.problem.vehicles[0]
    if hasattr(vehicle, 'signals'):
        left = float(vehicle.signals['time'][:, -1] - self.current_time)
        if round(step - left, 4) >= self.sample_time:
            step = left
    elif hasattr(vehicle, 'trajectories'):
        left = float(vehicle.trajectories['time'][:, -1] - self.current_time)
        if round(step - left, 4) >= self.sample_time:
            step = left
    if self.iteration0:
        self.iteration0 = False
        self.problem.initialize(now)
        delay = 0
    else:
        delay = int(np.round((now - self.current_time - step)/self.sample_time, 6))
    if hasattr(vehicle, 'trajectories'):
        left = int(np.round(float(vehicle.trajectories['time'][:, -1] - self.current_time)/self.sample_time, 6))
        if delay + int(np.round(step/self.sample_time, 6)) > left:
            delay = 0
    self.problem.predict(now, step, self.sample_time, states, inputs, dinputs, delay, enforce_states, enforce_inputs)
    self.problem.solve(now, step)
    self.problem.store(now, step, self.sample_time)
    self.current_time = now


def simulator_update(self):
    self.deployer.update(self.current_time)
    self.problem.simulate(self.current_time, self.update_time, self.sample_time)
    return self.problem.stop_criterium(self.current_time, self.update_time)


def update_timing(self, update_time=None):
    step = update_time or self.update_time
    n = int(np.round(step/self.sample_time, 6))
    last = self.time[-1]
    self.time = np.r_[self.time, np.linspace(last + self.sample_time, last + n*self.sample_time, n)]
    self.current_time = self.current_time + step


def problem_simulate(self, current_time, simulation_time, sample_time):
    for v in self.vehicles:
        v.simulate(simulation_time, sample_time)
    self.environment.simulate(simulation_time, sample_time)


# ---- fixed horizon: the plan is anchored at the last passed knot

def fixed_offset(self, current_time):
    if self.init_time is None:
        return np.round(current_time - self.start_time, 6) % self.knot_time
    return self.init_time


def fixed_parameters(self, current_time):
    p = {self: {}}
    p[self]['T'] = self.options['horizon_time']
    if self.init_time is None:
        p[self]['t'] = np.round(current_time, 6) % self.knot_time
    else:
        p[self]['t'] = self.init_time
    return p


def fixed_knot_time(self, vehicles):
    self.knot_time = (int(self.options['horizon_time']*1000.)/vehicles[0].knot_intervals)/1000.


def fixed_init_step(self, current_time, update_time):
    if not hasattr(self, 'current_time_prev'):
        before = 0
    else:
        before = self.current_time_prev
    k0 = int(np.round(before/self.knot_time, 6))
    k1 = int(np.round(current_time/self.knot_time, 6))
    if k0 < k1:
        self.father.transform_primal_splines(lambda coeffs, basis, T: T.dot(coeffs))
    self.current_time_prev = current_time


def fixed_store(self, current_time, update_time, sample_time):
    T = self.options['horizon_time']
    t0 = fixed_offset(self, current_time)
    n = int(round((T - t0)/sample_time, 6))
    for v in self.vehicles:
        segments = [self.father.get_variables(v, 'splines_seg'+str(k)) for k in range(v.n_seg)]
        v.store(current_time, sample_time, segments, T, np.linspace(t0, t0 + n*sample_time, n + 1))


def fixed_simulate(self, current_time, simulation_time, sample_time):
    left = self.options['horizon_time'] - fixed_offset(self, current_time)
    if left < simulation_time:
        simulation_time = left
    for v in self.vehicles:
        v.simulate(simulation_time, sample_time)
    self.environment.simulate(simulation_time, sample_time)


# ---- free end time: every plan starts at its beginning

def free_parameters(self, current_time):
    p = {self: {}}
    p[self]['t'] = 0 if self.init_time is None else self.init_time
    return p


def free_store(self, current_time, update_time, sample_time):
    T = self.father.get_variables(self, 'T')[0][0]
    t0 = 0. if self.init_time is None else self.init_time
    if T < sample_time:
        return
    n = int(round((T - t0)/sample_time, 6))
    for v in self.vehicles:
        segments = [self.father.get_variables(v, 'splines_seg'+str(k)) for k in range(v.n_seg)]
        v.store(current_time, sample_time, segments, T, np.linspace(t0, t0 + n*sample_time, n + 1))


def free_simulate(self, current_time, simulation_time, sample_time):
    T = self.father.get_variables(self, 'T')[0][0]
    t0 = 0. if self.init_time is None else self.init_time
    if T < sample_time:
        return
    if T < simulation_time:
        simulation_time = T
    if T - t0 < simulation_time:
        simulation_time = T - t0
    for v in self.vehicles:
        v.simulate(simulation_time, sample_time)
    self.environment.simulate(simulation_time, sample_time)


def free_stop(self, current_time, update_time):
    T = self.father.get_variables(self, 'T')[0][0]
    if T < update_time:
        return True
    stop = True
    for v in self.vehicles:
        stop = stop*v.check_terminal_conditions()
    return stop


def free_init_step(self, current_time, update_time):
    if current_time > 0:
        T = self.father.get_variables(self, 'T')[0][0]
        if T < 2*update_time:
            update_time = T - update_time
            target_time = T
        else:
            target_time = T - update_time
        self.father.transform_primal_splines(lambda coeffs, basis: shift_spline(coeffs, update_time/target_time, basis))
        self.father.set_variables(target_time, self, 'T')


def stop(self, current_time, update_time):
    stop = True
    for v in self.vehicles:
        stop = stop*v.check_terminal_conditions()
    return stop


def initialize(self, current_time):
    self.start_time = current_time


def redeploy(self):
    self.iteration0 = True
    self.problem.reinitialize()


# ---- several frames (segments), each with its own free duration

def durations(self):
    return [self.father.get_variables(self, 'T'+str(k))[0][0] for k in range(self.n_frames)]


def frames_store(self, current_time, update_time, sample_time):
    times = durations(self)
    T = sum(times)
    t0 = 0. if self.init_time is None else self.init_time
    if T < sample_time:
        return
    n = int(round((T - t0)/sample_time, 6))
    for v in self.vehicles:
        segments = [self.father.get_variables(v, 'splines_seg'+str(k)) for k in range(v.n_seg)]
        v.store(current_time, sample_time, segments, times, np.linspace(t0, t0 + n*sample_time, n + 1))


def frames_simulate(self, current_time, simulation_time, sample_time):
    T = sum(durations(self))
    t0 = 0. if self.init_time is None else self.init_time
    if T < sample_time:
        return
    if T < simulation_time:
        simulation_time = T
    if T - t0 < simulation_time:
        simulation_time = T - t0
    for v in self.vehicles:
        v.simulate(simulation_time, sample_time)
    self.environment.simulate(simulation_time, sample_time)


def frames_stop(self, current_time, update_time):
    if sum(durations(self)) < update_time:
        return True
    stop = True
    for v in self.vehicles:
        stop = stop*v.check_terminal_conditions()
    return stop


def segment_durations(self):
    return [self.father.get_variables(self, 'T'+str(k))[0][0] for k in range(self.n_segments)]


def gcode_store(self, current_time, update_time, sample_time):
    times = segment_durations(self)
    T = sum(times)
    t0 = 0. if self.init_time is None else self.init_time
    if T < sample_time:
        return
    n = int(round((T - t0)/sample_time, 6))
    v = self.vehicles[0]
    segments = [self.father.get_variables(v, 'splines_seg'+str(k)) for k in range(v.n_seg)]
    v.store(current_time, sample_time, segments, times, np.linspace(t0, t0 + n*sample_time, n + 1), continuity=self.continuity)


def gcode_stop(self, current_time, update_time):
    if sum(segment_durations(self)) < update_time:
        return True
    stop = True
    stop = stop*self.vehicles[0].check_terminal_conditions()
    return stop


# ---- distributed problems: every agent


def all_initialize(self, current_time):
    for p in self.problems:
        p.initialize(current_time)


def all_store(self, current_time, update_time, sample_time):
    for p in self.problems:
        p.store(current_time, update_time, sample_time)


def all_predict(self, current_time, predict_time, sample_time, states=None, inputs=None, dinputs=None, delay=0,
                enforce_states=False, enforce_inputs=False):
    for k, p in enumerate(self.problems):
        p.predict(current_time, predict_time, sample_time, None if states is None else states[k], None if inputs is None else inputs[k],
                  None if dinputs is None else dinputs[k], delay, enforce_states, enforce_inputs)


def all_simulate(self, current_time, simulation_time, sample_time):
    for p in self.problems:
        p.simulate(current_time, simulation_time, sample_time)
    T = self.problems[0].options['horizon_time']
    self.environment.simulate(T if T < simulation_time else simulation_time, sample_time)


def all_stop(self, current_time, update_time):
    stop = True
    for p in self.problems:
        stop = stop*p.stop_criterium(current_time, update_time)
    return stop
