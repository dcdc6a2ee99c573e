"""Prediction, simulation and storage of a vehicle's motion, sample by sample."""
import numpy as np
from scipy.interpolate import interp1d
from scipy.integrate import odeint
from omgtools.basics.spline_extra import concat_splines, sample_splines


def samples(duration, sample_time):
    return int(np.round(duration/sample_time, 6))


def predict(self, current_time, predict_time, sample_time, state0=None, input0=None, dinput0=None, delay=0,
            enforce_states=False, enforce_inputs=False):
    if enforce_states:
        if enforce_inputs:
            if state0 is not None and input0 is not None and dinput0 is not None:
                self.set_initial_conditions(state0, input=input0, dinput=dinput0)
            elif state0 is not None and input0 is not None:
                self.set_initial_conditions(state0, input=input0)
            elif hasattr(self, 'signals'):
                self.set_initial_conditions(self.signals['state'][:, -1], self.signals['input'][:, -1], self.signals['dinput'][:, -1])
        elif state0 is not None:
            self.set_initial_conditions(state0)
        elif hasattr(self, 'signals'):
            self.set_initial_conditions(self.signals['state'][:, -1])
        return
    n = samples(predict_time, sample_time)
    for key in self.trajectories:
        if self.options['ideal_prediction'] or key not in ['state', 'input', 'pose']:
            self.prediction[key] = self.trajectories[key][:, delay+n]
    if not self.options['ideal_prediction']:
        if state0 is None:
            state0 = self.signals['state'][:, -n-1]
        state = self.integrate_ode(state0, self.trajectories['input'][:, delay:], predict_time, sample_time)[:, -1]
        self.prediction['state'] = state
        self.prediction['pose'] = self._state2pose(state)
        self.prediction['input'] = self.trajectories['input'][:, delay+n]


def simulate(self, simulation_time, sample_time):
    n = samples(simulation_time, sample_time)
    if self.to_simulate:
        if not hasattr(self, 'signals'):
            self.signals = {}
            for key in self.trajectories:
                self.signals[key] = np.c_[self.trajectories[key][:, 0]]
        for key in self.trajectories:
            if self.options['ideal_update'] or key not in ['state', 'input', 'pose']:
                self.signals[key] = np.c_[self.signals[key], self.trajectories[key][:, 1:n+1]]
        if not self.options['ideal_update']:
            u = self.trajectories['input']
            if self.options['input_disturbance']:
                u = self.add_disturbance(u)
            if self.options['1storder_delay']:
                u = self.integrate_ode(self.signals['input'][:, -1], u, simulation_time, sample_time, self._ode_1storder)
            x = self.integrate_ode(self.signals['state'][:, -1], u, simulation_time, sample_time)
            self.signals['input'] = np.c_[self.signals['input'], u[:, 1:n+1]]
            self.signals['state'] = np.c_[self.signals['state'], x[:, 1:n+1]]
            self.signals['pose'] = np.c_[self.signals['pose'], self._state2pose(x[:, 1:n+1])]
    if not hasattr(self, 'traj_storage'):
        self.traj_storage = {}
        self.traj_storage_kn = {}
        self.pred_storage = {}
    self._add_to_memory(self.traj_storage, self.trajectories, n)
    self._add_to_memory(self.traj_storage_kn, self.trajectories_kn, n)
    self._add_to_memory(self.pred_storage, self.prediction, n)


def integrate_ode(self, state0, input, integration_time, sample_time, ode=None):
    if ode is None:
        ode = self._ode
    n = samples(integration_time, sample_time)
    steps = input.shape[1] - 1
    u = interp1d(np.linspace(0., steps*sample_time, input.shape[1]), input, kind='linear', bounds_error=False, fill_value=input[:, -1])
    return odeint(ode, state0, np.linspace(0., n*sample_time, n + 1), args=(u,)).T


def rate(self, state, time, input_interp):
    return self.ode(state, input_interp(time))


def lagged_rate(self, state, time, input_interp):
    return (input_interp(time) - state)/self.options['time_constant']


def overrule_state(self, state):
    state = np.array(state)
    self.signals['state'][:, -1] = state
    self.signals['pose'][:, -1] = self._state2pose(state)
    self.prediction['state'] = state
    self.prediction['pose'] = self._state2pose(state)


def overrule_input(self, input, dinput=None):
    input = np.array(input)
    self.signals['input'][:, -1] = input
    self.prediction['input'] = input
    if dinput is not None:
        self.signals['dinput'][:, -1] = dinput
        self.prediction['dinput'] = dinput


def store(self, current_time, sample_time, segments, durations, axis=None):
    if not isinstance(durations, list):
        durations = [durations]
    plan = concat_splines(segments, durations, n_insert=None)
    if axis is None:
        n = int(np.round(sum(durations)/sample_time, 6))
        axis = np.linspace(0., n*sample_time, n + 1)
    self.result_splines = plan
    self.trajectories = self.splines2signals(plan, axis)
    self.trajectories['time'] = axis - axis[0] + current_time
    self.trajectories['pose'] = self._state2pose(self.trajectories['state'])
    self.trajectories['splines'] = np.c_[sample_splines(plan, axis)]


def remember(self, memory, dictionary, repeat=1):
    for key in dictionary.keys():
        if key not in memory:
            memory[key] = []
        memory[key].extend([dictionary[key] for k in range(repeat)])
