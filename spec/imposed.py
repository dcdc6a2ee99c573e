"""Boundary and connection conditions as imposed by the problems."""
from casadi import inf
from omgtools.basics.spline_extra import definite_integral, evalspline


def fixed_terminal(self):
    total = 0.
    for v, vehicle in enumerate(self.vehicles):
        goal, rates = vehicle.get_terminal_constraints(vehicle.splines[0])
        for k, con in enumerate(goal):
            g = self.define_spline_variable('g%d_%d' % (v, k), 1, basis=con[0].basis)[0]
            total = total + definite_integral(g, self.t0, 1.)
            self.define_constraint(con[0] - con[1] - g, -inf, 0.)
            self.define_constraint(con[1] - con[0] - g, -inf, 0.)
            if self.options['hard_term_con']:
                self.define_constraint(con[0](1.) - con[1], 0., 0.)
        if not self.options['no_term_con_der']:
            for con in rates:
                self.define_constraint(con[0](1.) - con[1], 0., 0.)
    self.define_objective(total)


def free_terminal(self):
    for vehicle in self.vehicles:
        goal, rates = vehicle.get_terminal_constraints(vehicle.splines[0])
        for con in goal:
            self.define_constraint(con[0](1.) - con[1], 0., 0.)
        if not self.options['no_term_con_der']:
            for con in rates:
                self.define_constraint(con[0](1.) - con[1], 0., 0.)


def last_terminal(self):
    for vehicle in self.vehicles:
        goal, rates = vehicle.get_terminal_constraints(vehicle.splines[-1], horizon_time=self.motion_times[-1])
        for con in goal:
            self.define_constraint(con[0](1.) - con[1], 0., 0.)
        if not self.options['no_term_con_der']:
            for con in rates:
                self.define_constraint(con[0](1.) - con[1], 0., 0.)


def gcode_terminal(self):
    for vehicle in self.vehicles:
        goal, rates = vehicle.get_terminal_constraints(vehicle.splines[-1])
        for con in goal:
            self.define_constraint(con[0](1.) - con[1], 0., 0.)
        if not self.options['no_term_con_der']:
            for con in rates:
                self.define_constraint(con[0](1.) - con[1], 0., 0.)


def freeend_terminal(self):
    """the free conditions are decision variables, the others are the goal; rest at the end in any case"""
    total = 0.
    for v, vehicle in enumerate(self.vehicles):
        goal, rates = vehicle.get_terminal_constraints(vehicle.splines[0])
        free = [0, 1] if self.free_ind is None else self.free_ind[vehicle]
        end = self.define_variable('conT' + str(v), len(free))
        for k, con in enumerate(goal):
            if k in free:
                value = end[free.index(k)]
            else:
                value = con[1]
            g = self.define_spline_variable('g%d_%d' % (v, k), 1, basis=con[0].basis)[0]
            total = total + definite_integral(g, self.t0, 1.)
            self.define_constraint(con[0] - value - g, -inf, 0.)
            self.define_constraint(value - con[0] - g, -inf, 0.)
        for con in rates:
            self.define_constraint(con[0](1.) - con[1], 0., 0.)
    self.define_objective(total)


def initial(self):
    for vehicle in self.vehicles:
        for con in vehicle.get_initial_constraints(vehicle.splines[0], self.T):
            self.define_constraint(evalspline(con[0], self.t0) - con[1], 0., 0.)


def first_initial(self):
    for vehicle in self.vehicles:
        for con in vehicle.get_initial_constraints(vehicle.splines[0], self.motion_times[0]):
            self.define_constraint(evalspline(con[0], self.t/self.motion_times[0]) - con[1], 0., 0.)


def connection(self):
    """real-time derivatives agree where one segment ends and the next begins"""
    for vehicle in self.vehicles:
        for j in range(len(vehicle.splines) - 1):
            for p, q in zip(vehicle.splines[j], vehicle.splines[j+1]):
                for d in range(p.basis.degree):
                    self.define_constraint(evalspline(p.derivative(d), 1)*self.motion_times[j+1]**d
                                           - evalspline(q.derivative(d), 0)*self.motion_times[j]**d, 0., 0.)


# ---- what a problem asks of its vehicles and environment

def model_point(self):
    self.T, self.t = self.define_parameter('T'), self.define_parameter('t')
    self.t0 = self.t/self.T
    for vehicle in self.vehicles:
        splines = vehicle.define_splines(n_seg=1)
        vehicle.define_trajectory_constraints(splines[0], self.T)
        self.environment.define_collision_constraints(vehicle, splines, self.T)
    if len(self.vehicles) > 1 and self.options['inter_vehicle_avoidance']:
        self.environment.define_intervehicle_collision_constraints(self.vehicles, self.T)


def model_fixed(self):
    model_point(self)
    self.define_init_constraints()
    self.define_terminal_constraints()


def model_free(self):
    model_point(self)
    T = self.define_variable('T', value=10)
    self.t0 = self.define_parameter('t')/T
    self.define_objective(T)
    self.define_constraint(-T, -inf, 0.)
    self.define_init_constraints()
    self.define_terminal_constraints()


def model_frames(self):
    self.t = self.define_parameter('t')
    T = [self.define_variable('T'+str(k), value=10) for k in range(self.n_frames)]
    for x in T:
        self.define_constraint(-x, -inf, 0.)
    for vehicle in self.vehicles:
        splines = vehicle.define_splines(n_seg=self.n_frames)
        for k in range(self.n_frames):
            vehicle.define_trajectory_constraints(splines[k], T[k])
        self.environment.define_collision_constraints(vehicle, splines, T)
    if len(self.vehicles) > 1 and self.options['inter_vehicle_avoidance']:
        self.environment.define_intervehicle_collision_constraints(self.vehicles, T)
    self.define_init_constraints()
    self.define_terminal_constraints()
    self.define_connection_constraints()


def model_gcode(self):
    """the limits hold on every segment; at the outer ends (at rest) the higher derivatives stay free"""
    self.t = self.define_parameter('t')
    T = [self.define_variable('T'+str(k), value=10) for k in range(self.n_segments)]
    for x in T:
        self.define_constraint(-x, -inf, 0.)
    tool = self.vehicles[0]
    splines = tool.define_splines(n_seg=self.n_segments)
    for k in range(self.n_segments):
        tool.define_trajectory_constraints(splines[k], T[k])
        tool.define_collision_constraints(self.environment.room[k], splines[k], T[k])
    self.define_init_constraints()
    self.define_terminal_constraints()
    self.define_connection_constraints()
