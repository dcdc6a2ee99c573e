from meta import P, V, PR, B, E, X

MORE = [
    P('C06', 'Moving obstacles are predicted as they are known to move',
      'The obstacle motion used in the collision constraints starts at the last measured position, velocity, acceleration and orientation of the '
      'obstacle and is the constant-acceleration (or user-given spline) extrapolation of it over the horizon, continuous over consecutive segments. '
      'A rotating obstacle turns with its measured angular velocity, a still one keeps its orientation.',
      ['inputs', 'configurations'], 'all measured states, horizon times, numbers of segments, shapes and turning rates',
      'examples contain slow obstacles, for which a wrong extrapolation is hardly visible',
      [E + 'obstacle.py', E + 'environment.py'],
      [('prediction', 'ObstaclexD.init, Obstacle2D.init'), ('measured values', 'set_parameters, set_state'),
       ('segment durations', 'Environment.define_collision_constraints')]),
    P('C07', 'Each control update predicts, solves, stores and simulates consistently',
      'In every control update the state at which the new plan becomes active is predicted first, then the optimisation is solved with the '
      'parameters, bounds and initial guess of the present time relative to the start of the deployment, and only then the plan is stored and applied. '
      'The optimiser, the stored plan and the simulation use the same anchor of the plan in time (the last passed knot for a fixed horizon, the '
      'beginning for a free end time). Measured states, inputs and delays reach the vehicle they belong to, for single vehicles, several vehicles, '
      'several frames and distributed agents alike. The run stops only when every vehicle arrived (or the remaining time is below one update), and the '
      'clock advances by the simulated time.',
      ['inputs', 'histories', 'configurations'], 'all times, update and sample times, delays, measured states, numbers of vehicles, agents and segments',
      'an anchor that is off by one knot, or a start time counted twice, only degrades motions in runs the tests do not make (start time, delays, two vehicles)',
      [PR + f for f in ('problem.py', 'point2point.py', 'multiframeproblem.py', 'gcodeproblem.py', 'distributedproblem.py')] + [X + 'deployer.py', X + 'simulator.py'],
      [('solve and predict', 'Problem.solve, Problem.predict'), ('deployment', 'Deployer.update, Deployer.reset'), ('simulation', 'Simulator.update, run, update_timing'),
       ('time anchor', 'set_parameters, store, simulate, stop_criterium of the point-to-point, multi-frame and G-code problems'),
       ('agents', 'DistributedProblem.predict, store, simulate, stop_criterium')]),
    P('C08', 'Prediction, simulation and storage follow the plan sample by sample',
      'The state a new plan starts from is the state the vehicle will have when that plan becomes active: the sample of the stored plan (or of the '
      'integrated vehicle dynamics, from the last or the measured state) that lies the predict time ahead, with matching input and pose. Simulation '
      'applies exactly the samples of the plan belonging to the simulated time and continues from the last sample; disturbances and the first-order '
      'input lag enter the dynamics as configured. A stored plan consists of the signals of the solved splines at the requested sample times, '
      'with consecutive segments shifted by the durations of the earlier ones. The history kept for the user contains every sample.',
      ['inputs', 'configurations', 'histories'],
      'all times and sample counts, combinations of prediction and update options, given states/inputs, histories of signals',
      'examples use one sample time; wrong offsets by one sample or one update only show as a slight loss of accuracy',
      [V + 'vehicle.py'],
      [('prediction', 'Vehicle.predict'), ('simulation', 'Vehicle.simulate, integrate_ode, _ode, _ode_1storder'), ('storage', 'Vehicle.store, _add_to_memory'),
       ('overruled samples', 'overrule_state, overrule_input')]),
    P('C10', 'A vehicle counts as arrived exactly when it is at its goal and at rest',
      'The arrival test of every vehicle is true exactly when its last simulated pose lies within the stop tolerance of the goal pose and its last '
      'input (or spline velocity; for a flying vehicle the thrust beyond hovering) within the same tolerance of rest. A trailer has arrived when its '
      'own goal heading, if it has one, and its leading vehicle, judged by the present motion, have arrived. A rendez-vous ends exactly when all '
      'agents keep the agreed relative positions.',
      ['inputs', 'histories'], 'all signals, goals, tolerances, fleet configurations and numbers of agents',
      'tests run until the test itself says the vehicle arrived: a test that stops too early looks like a faster motion',
      [V + f for f in ('holonomic.py', 'holonomic1d.py', 'holonomic3d.py', 'holonomicorient.py', 'dubins.py', 'bicycle.py', 'agv.py', 'quadrotor.py',
                       'quadrotor3d.py', 'quadrotor3d_simple.py', 'tool.py', 'trailer.py')] + [PR + 'rendezvous.py'],
      [('arrival tests', 'check_terminal_conditions of every vehicle'), ('tolerances', 'set_default_options'), ('rendez-vous', 'RendezVous.stop_criterium')]),
    P('C12', 'Spline operations are exact',
      'Evaluating, differentiating and integrating a spline gives the exact values; the sum, difference, product, power and scaling of splines, their '
      're-expression after moving the start of the domain, inserting knots, restricting to an interval, extrapolating over an interval or shifting '
      'over one knot, and the concatenation of splines describe the same function as the operands over the knots they report, for every clamped knot '
      'vector (repeated internal knots included) and all coefficients. Concatenation keeps jumps and kinks and joins what is continuous, for every '
      'spline and junction separately.',
      ['inputs'], 'all coefficients, knot distances and interval bounds (degrees 1-3, up to three intervals, multiplicities)',
      'every guarantee is imposed on spline coefficients: an inexact operation silently weakens constraints between samples',
      [B + 'spline.py', B + 'spline_extra.py'],
      [('evaluation', 'evalspline, BSplineBasis.eval_basis, BSpline.__call__'), ('calculus', 'BSpline.derivative, integral, running_integral, definite_integral'),
       ('algebra', 'BSpline.__add__, __sub__, __neg__, __mul__, __pow__, scale, insert_knots; Basis._combine, transform, greville'),
       ('re-expression', 'shiftfirstknot_T, shift_knot1_fwd/bwd, knot_insertion_T, get_interval_T, crop_spline, extrapolate, shift_over_knot, shift_spline'),
       ('concatenation', 'concat_splines')]),
    P('C13', 'The solver gets exactly the problem the objects declared',
      'Every variable, parameter, constraint and objective term that an object of a problem declares is part of the optimisation problem handed to '
      'the solver, exactly once, with its own bounds, shape and initial value; symbols are resolved to the one object that owns them (ambiguous or '
      'missing owners and doubly set parameters are errors); the values passed at every update are those the objects give for that time; a constraint '
      'is disabled exactly while its shutdown condition holds; results are returned to the object and name they belong to; spline shifting touches the '
      'selected segments only; a rebuilt problem does not inherit declarations.',
      ['inputs', 'configurations', 'histories'], 'all declarations, names, bounds, shutdown conditions, parameter values and times',
      'a dropped or swapped entry leaves a solvable problem: motions still appear, only without the guarantee',
      [B + 'optilayer.py'],
      [('declarations', 'OptiChild.define_*'), ('assembly', 'OptiFather.construct_*, translate_symbols, _substitute_symbols, create_nlp'),
       ('values', 'set_parameters, init_variables, update_bounds'), ('access', 'get_variables, get_parameters, set_variables'),
       ('shift', 'transform_primal_splines')]),
    P('C14', 'Simulated obstacles move as configured and bounce only off what they hit',
      'The samples an obstacle gets are those of its own simulation model from its last (or measured) state, with the jumps of position, velocity and '
      'acceleration that the user imposed added from their times on, exactly once; a value imposed at time zero is the initial state. A rotating '
      'obstacle turns with its angular velocity. Overlap of circles and rectangles and leaving a room are decided for the true sizes and positions. '
      'An obstacle that bounces keeps its position and reverses one component of its velocity (or all, for a motion along an axis) exactly when it '
      'overlaps another obstacle or leaves the room, and keeps its velocity otherwise; every obstacle is simulated exactly once per update.',
      ['inputs', 'histories', 'configurations'],
      'all states, models, imposed values, sizes and positions (five sample counts, four sets of imposed trajectories, eight directions, four causes)',
      'examples impose one or two velocity jumps on round obstacles; an unhandled combination just gives another, plausible motion',
      [E + 'obstacle.py', E + 'environment.py'],
      [('motion', 'ObstaclexD.simulate, _ode, ode, prepare_simulation, set_state'), ('rotation', 'Obstacle2D.simulate, set_state, prepare_simulation'),
       ('overlap', 'Obstacle2D.overlaps_with, is_outside_of'), ('bouncing', 'Environment.simulate')]),
    P('C27', 'Shapes and geometric tests tell the truth',
      'The vertices, half planes, checkpoints with radii and limits of every shape describe the rotated shape of the given sizes, in two and three '
      'dimensions; points in a polygon or rectangle, overlapping rectangles and their overlap, circles touching polygons, intersections of lines and '
      'segments and the distances between points, segments and rectangles are decided as in plane geometry.',
      ['inputs'], 'all sizes, positions and orientations (polygons with three to five vertices)',
      'tests use a few shapes around the origin and axis-aligned rooms; signs and half sizes only matter for other shapes or positions',
      [B + 'shape.py', B + 'geometry.py'],
      [('shapes', 'shape.py: rotate, get_vertices, get_hyperplanes, get_checkpoints, get_canvas_limits of each shape'),
       ('tests', 'point_in_polyhedron, point_in_rectangle, rectangles_overlap, compute_rectangle_overlap_center, circle_polyhedron_intersection'),
       ('lines', 'intersect_lines, intersect_line_segments, distance_between_points, distance_to_rectangle and the like')]),
    P('C20', 'The global planner finds a way through free cells from start to goal',
      'The grid divides the room into cells of equal size; a cell is occupied exactly when a stationary obstacle, blown up by the vehicle size, overlaps '
      'it; a point belongs to the closest cell and, if that one is occupied, to its closest free neighbour; a move leads to a free neighbouring cell, '
      'diagonally only if both cells beside it are free. The path consists of such moves from the start cell to the goal cell, given by the centres of '
      'the cells; the planner reports that there is no path exactly when there is none, expands the open cell of lowest cost plus Manhattan distance, '
      'and reaches every cell from the cheapest predecessor handled so far.',
      ['inputs', 'configurations'],
      'all sizes and positions of the grid; every pattern of occupied neighbours; all positions of an obstacle relative to the grid lines; 17 layouts with '
      'three cell shapes',
      'tests plan one path on one map; wrong cells only matter for obstacles of other sizes and positions, wrong costs only for other layouts',
      [PR + 'globalplanner.py'],
      [('grid', 'Grid.__init__, in_bounds, free, block, move_to_gridpoint'), ('moves', 'Grid.is_accessible, get_neighbors'),
       ('obstacles', 'Grid.get_occupied_cells'), ('search', 'AStarPlanner.__init__, get_path, calculate_g_cost, calculate_h_cost, get_lowest_f_cost_node, convert_node_to_waypoint')]),
    P('C25', 'A solve starts from the plan it continues',
      'With a fixed horizon the spline coefficients that start a solve are those of the last plan, moved over one knot exactly when a knot has been '
      'passed since the last solve; with a free end time (one or several segments) the first segment is moved by the time that has passed and the motion '
      'time is shortened by it, or to the rest when the target is almost reached. After a restart or a reset, every vehicle and every segment starts '
      'from the straight way, in the coordinates of the splines of that vehicle, from the predicted state to the target (over the given subgoals).',
      ['inputs', 'histories', 'configurations'], 'all times, states, targets and motion times (one to three segments, one or two vehicles)',
      'a wrong start only costs iterations in the examples; with other scenes or slower solves the plan is lost',
      [PR + 'point2point.py', PR + 'problem.py', PR + 'multiframeproblem.py', V + 'holonomic.py', V + 'dubins.py'],
      [('moving the plan', 'init_step of FixedTPoint2point, FreeTPoint2point, MultiFrameProblem, GCodeProblem; FixedTPoint2point.init_primal_transform'),
       ('restart', 'reinitialize of Point2pointProblem and MultiFrameProblem, Problem.reset_init_guess'), ('guess', 'get_init_spline_value of every vehicle')]),
    P('C19', 'The vehicles of a formation agree on its centre and its shape',
      'For every size of the fleet, the neighbours of a vehicle are those of the chosen interconnection (circular, full); the configuration gives each '
      'vehicle its position relative to the centre, turned over the given orientation, and to each of its neighbours. The centre of the fleet as seen by '
      'a vehicle is its position minus its relative position (turned along with the vehicle where the configuration is). The posed equalities tie the '
      'centres seen by all vehicles together in every coordinate (directly or, for the distributed problems, with those of every neighbour), over the '
      'whole horizon; a soft formation bounds the deviation in both directions by a penalised slack. A rendez-vous requires the final positions of '
      'neighbours to be at their relative positions, and is over exactly when they are.',
      ['inputs', 'configurations'], 'fleets of one to five vehicles (constraints: two to four), all configurations, orientations and trajectories',
      'the examples use one fleet of four vehicles and judge it by eye; a missing equality only shows when vehicles are pulled apart',
      [V + 'fleet.py', V + 'vehicle.py', V + 'dubins.py', PR + 'formation.py', PR + 'formation_central.py', PR + 'rendezvous.py'],
      [('who is whose neighbour', 'Fleet.set_neighbors, get_neighbors, set_configuration, get_rel_config'), ('centre', 'get_fleet_center of Vehicle and Dubins, Dubins.splines2signals'),
       ('agreement', 'construct of FormationPoint2point, FormationPoint2pointCentral and RendezVous'), ('over', 'RendezVous.stop_criterium')]),
    P('C17', 'Every step of distributed ADMM is the step of the method',
      'From the coupling constraints every vehicle learns exactly which of its own variables are shared, which variables of which other vehicles it is '
      'coupled to, who is coupled to it and which parameters are involved. The x-update adds the augmented Lagrangian of all copies of its shared '
      'variables (without the quadratic part in the alternating minimisation variant); the z-update gives the minimiser over the coupling equalities '
      '(and refuses couplings that are no equalities); multipliers, squared primal, dual and combined residuals and the (restarted) acceleration follow '
      'the method. Spline variables are compared over the part of the horizon that is left, moved over the knot when one is passed, and stored back in '
      'full. In a round every vehicle uses what the others computed in the step before, with the time measured from the start.',
      ['inputs', 'histories', 'schedules', 'configurations'], 'fleets of two and three vehicles (couplings: two to four), spline and other shared variables, all values of '
      'variables, multipliers, time, horizon and penalty', 'a wrong sign or a stale copy only slows down convergence in the examples',
      [PR + 'admm.py', PR + 'dualmethod.py', PR + 'distributedproblem.py'],
      [('who shares what', 'DistributedProblem.interprete_constraints'), ('updates', 'construct_upd_x, construct_upd_z, construct_upd_l, construct_upd_res, update_x, update_z, update_l, get_residuals, accelerate of ADMM'),
       ('exchange', 'ADMM.communicate, init_step, init_var_admm, set_parameters'), ('rounds', 'ADMMProblem.dual_update, DualProblem.solve, initialize')]),
    P('C18', 'Every step of dual decomposition is the step of the method',
      'The update of a vehicle minimises its own objective plus the multipliers of the others times its shared variables minus its own multipliers times '
      'its copies, subject to every coupling with its variables and copies substituted; the multipliers move by the step times the difference '
      'between the variables of the neighbours and the copies, and the primal residual is the norm of these differences over all vehicles. Splines are '
      'compared over the part of the horizon that is left and moved over the knot when one is passed; in a round nobody uses values of an earlier step.',
      ['inputs', 'histories', 'schedules', 'configurations'], 'fleets of two and three vehicles, spline and other shared variables, all values of variables, multipliers, time and step',
      'no test runs dual decomposition',
      [PR + 'dualdecomposition.py', PR + 'dualmethod.py'],
      [('update', 'construct_upd_xz, update_xz, construct_upd_l, update_l, get_residuals of DDUpdater'), ('exchange', 'DDUpdater.communicate, init_step, init_var_dd, set_parameters'),
       ('rounds', 'DDProblem.dual_update, DualProblem.solve')]),
    P('C09', 'Options and bounds: what the user gives is used, the rest has its default',
      'Every vehicle, problem and obstacle holds exactly the options and bounds the user gave and for all others the default; a single bound for all directions holds for '
      'each of them; options of the solver and of code generation are merged entry by entry, and a distributed problem passes its options on to the problem of '
      'every vehicle. The dictionaries given stay as they are, no two objects share one, values are compared by value and never by identity, and no option is read '
      'that has no default.',
      ['inputs', 'configurations'], 'every vehicle, problem and obstacle class, any values, different subsets of bounds given, two objects of each class; every comparison and every read of an option in the package',
      'tests set a few options of a few classes and never look at defaults, dictionaries of the caller or a second object',
      [V, PR, E + 'obstacle.py'],
      [('vehicles', '__init__, set_default_options and set_options of every vehicle'), ('problems', 'Problem.set_options, set_default_options of every problem, DistributedProblem.set_options'),
       ('obstacles', 'ObstaclexD.set_default_options, set_options'), ('package', 'comparisons with "is" and reads of self.options')]),
    P('C11', 'Arguments are only read',
      'No public function, method or constructor of the package changes a list, dictionary or array that its caller gave it or that belongs to an object it was given, neither directly, nor '
      'through a function it calls, nor later through what an object kept of it; and no default that is a container is changed and thereby shared '
      'by later calls. What is handed in to be completed (rooms of an environment, updaters of a distributed problem, plots) is named in the check.',
      ['inputs', 'histories'], 'every parameter of every function of the package, every container kept by an object, every default; aliases over assignments, loops, entries and calls to a fixed point',
      'a changed argument shows when the caller uses it again: tests build everything once',
      ['omgtools/'], [('package', 'all functions and constructors under omgtools/')]),
    P('C24', 'Every name, attribute and call of the package resolves',
      'No line of the package ends in an undefined name, a local nothing can have bound, an attribute nothing defines or an argument error: every global '
      'name read is defined or imported, every call of a function, class or method of the package fits its signature (for overridden methods: that of every '
      'class the call can reach), every attribute read of self exists, and errors that are constructed are raised. This holds in the parts '
      'that only unusual input, rare options or the desktop front end reach as well.',
      ['inputs', 'configurations'], 'every function of the package, every call site, every name and every class a call can reach',
      'the tests execute the common paths of a few examples; a misspelt name or a missing argument shows when a line is executed only',
      ['omgtools/'],
      [('package', 'all modules under omgtools/')]),
    P('C21', 'The simulation keeps time and reports the motion made and its objective',
      'A simulation restarts the deployment, then repeats update and advance of the clock until the stop criterion holds, advances only by what was simulated '
      '(the remaining plan, when less than one update is left), closes the problem once, and hands back the stored trajectories and signals of every vehicle as they are after the last update. A single planned '
      'motion is planned over its whole duration, simulated to its end or up to an abrupt stop (state perturbed, inputs zero, each vehicle with its own perturbation), and '
      'the clock advances to its end. Waiting keeps every vehicle at the last point of its plan. A time is looked up at the nearest sample. The objective of a '
      'fixed-horizon motion is the sum over vehicles and terminal errors of their integral over the part of the plan that was carried out (over the whole plan when '
      'nothing was simulated); that of a free-time motion is the time it took.',
      ['inputs', 'histories'], 'one and two vehicles, sequences of one to three updates, both problem types, stopping or going on at any step; all times and signals symbolic',
      'tests run the loop with nominal parameters and look at no value it returns',
      [X + 'simulator.py', X + 'deployer.py', PR + 'point2point.py', PR + 'problem.py'],
      [('loop', 'Simulator.run, step, run_once, hard_stop, sleep, time2index'), ('deployer', 'Deployer.update'),
       ('objective', 'compute_partial_objective, compute_objective, simulate of FixedTPoint2point and FreeTPoint2point'), ('waiting', 'Problem.sleep')]),
]
NOT_APPLICABLE = []
