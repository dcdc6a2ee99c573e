From 1ce0359cbe333d23c9df236777a86fc51e91c400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 01/51] fix: Trailer imposes the initial rate of the trailer
 orientation (pair was merged in a 4-tuple and ignored)

---
 omgtools/vehicles/trailer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/vehicles/trailer.py b/omgtools/vehicles/trailer.py
index fc0648b..885ef9a 100644
--- a/omgtools/vehicles/trailer.py
+++ b/omgtools/vehicles/trailer.py
@@ -73,7 +73,7 @@ class Trailer(Vehicle):
         dtg_ha_tr0 = self.define_parameter('dtg_ha_tr0', 1)
         tg_ha_tr = splines[0]
         dtg_ha_tr = tg_ha_tr.derivative()
-        con_tr = [(tg_ha_tr, tg_ha_tr0, dtg_ha_tr, horizon_time*dtg_ha_tr0)]
+        con_tr = [(tg_ha_tr, tg_ha_tr0), (dtg_ha_tr, horizon_time*dtg_ha_tr0)]
         con_veh = self.lead_veh.get_initial_constraints(splines[1:])
         return con_tr + con_veh  # put in one list
 
-- 
2.43.0


From 2503ef6cdbcc719b5e2d73918977507270ddfbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 02/51] fix: compare option strings by value instead of
 identity

---
 omgtools/gui/svg_reader.py            | 2 +-
 omgtools/problems/schedulerproblem.py | 8 ++++----
 omgtools/vehicles/agv.py              | 4 ++--
 omgtools/vehicles/bicycle.py          | 4 ++--
 omgtools/vehicles/holonomic.py        | 8 ++++----
 omgtools/vehicles/holonomic3d.py      | 4 ++--
 omgtools/vehicles/holonomicorient.py  | 4 ++--
 omgtools/vehicles/tool.py             | 4 ++--
 8 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/omgtools/gui/svg_reader.py b/omgtools/gui/svg_reader.py
index f2a5ea3..cf0d9f1 100644
--- a/omgtools/gui/svg_reader.py
+++ b/omgtools/gui/svg_reader.py
@@ -16,7 +16,7 @@ class SVGReader(object):
         if (self.tree.get('width')[-2:] in ['mm', 'px']):  # units millimeter or pixels
             viewbox = self.tree.get('viewBox').split(' ')
             xmin, ymin, xmax, ymax = viewbox
-            if (self.tree.get('width')[-2:] is 'mm'):
+            if (self.tree.get('width')[-2:] == 'mm'):
                 self.width_px = float(xmax) - float(xmin)
                 self.height_px = float(ymax) - float(ymin)
                 self.meter_to_pixel = self.width_px/float(self.tree.get('width')[:-2])
diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 0225a76..6fae4f4 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -81,12 +81,12 @@ class SchedulerProblem(Problem):
         self._n_frames = self.n_frames  # save original value
         self.frame_type = options['frame_type'] if 'frame_type' in options else 'shift'
         # set frame size for frame_type shift
-        if self.frame_type is 'shift':
+        if self.frame_type == 'shift':
             # by default frame size is set to 1/5 of total environment width
             self.frame_size = options['frame_size'] if 'frame_size' in options else environment.room[0]['shape'].width*0.2
             # by default move limit is set to 1/4 of frame size
             self.move_limit = options['move_limit'] if 'move_limit' in options else self.frame_size*0.25
-        if self.frame_type is 'corridor':
+        if self.frame_type == 'corridor':
             # scale up frame with small steps or not
             self.scale_up_fine = options['scale_up_fine'] if 'scale_up_fine' in options else True
             self.l_shape = options['l_shape'] if 'l_shape' in options else False
@@ -391,10 +391,10 @@ class SchedulerProblem(Problem):
         if not frame.endpoint == self.goal_state[:2]:  # remove orientation info
             start = time.time()
             start_position = frame.endpoint  # start at end of current frame
-            if frame.type is 'shift':
+            if frame.type == 'shift':
                 next_frame = ShiftFrame(self.environment, start_position, self.frame_size, self.move_limit,
                                    self.global_path, self.options)
-            elif frame.type is 'corridor':
+            elif frame.type == 'corridor':
                 next_frame = CorridorFrame(self.environment, start_position, self.global_path,
                                    self.veh_size, self.margin, self.options)
 
diff --git a/omgtools/vehicles/agv.py b/omgtools/vehicles/agv.py
index 4c2efa5..c9aa0e2 100644
--- a/omgtools/vehicles/agv.py
+++ b/omgtools/vehicles/agv.py
@@ -305,7 +305,7 @@ class AGV(Vehicle):
 
     def draw(self, t=-1):
         surfaces = []
-        if self.options['plot_type'] is 'car':
+        if self.options['plot_type'] == 'car':
             car = Rectangle(width=self.length, height=self.length/4.)
             wheel = Rectangle(width=self.length/8., height=self.length/10.)
             surfaces += car.draw(self.signals['pose'][:3, t])[0]  # vehicle
@@ -324,7 +324,7 @@ class AGV(Vehicle):
             surfaces += wheel.draw(np.r_[pos_back_l, orient_back])[0]  # back wheel left
             surfaces += wheel.draw(np.r_[pos_back_r, orient_back])[0]  # back wheel right
 
-        if self.options['plot_type'] is 'agv':
+        if self.options['plot_type'] == 'agv':
             # plot approximation of vehicle
             car = Rectangle(width=self.length, height=self.length/4.)
             wheel = Rectangle(width=self.length/10., height=self.length/14.)
diff --git a/omgtools/vehicles/bicycle.py b/omgtools/vehicles/bicycle.py
index cec332b..009430d 100644
--- a/omgtools/vehicles/bicycle.py
+++ b/omgtools/vehicles/bicycle.py
@@ -376,7 +376,7 @@ class Bicycle(Vehicle):
 
     def draw(self, t=-1):
         surfaces = []
-        if self.options['plot_type'] is 'car':
+        if self.options['plot_type'] == 'car':
             car = Rectangle(width=self.length, height=self.length/4.)
             wheel = Rectangle(self.length/8., self.length/10.)
             surfaces += car.draw(self.signals['pose'][:3, t])[0]  # vehicle
@@ -395,7 +395,7 @@ class Bicycle(Vehicle):
             surfaces += wheel.draw(np.r_[pos_back_l, orient_back])[0]  # back wheel left
             surfaces += wheel.draw(np.r_[pos_back_r, orient_back])[0]  # back wheel right
 
-        if self.options['plot_type'] is 'bicycle':
+        if self.options['plot_type'] == 'bicycle':
             car = Rectangle(width=self.length, height=self.length/4.)
             wheel = Rectangle(self.length/2., self.length/6.)
             surfaces += car.draw(self.signals['pose'][:3, t])[0]  # vehicle
diff --git a/omgtools/vehicles/holonomic.py b/omgtools/vehicles/holonomic.py
index aef5c59..d84bfa1 100644
--- a/omgtools/vehicles/holonomic.py
+++ b/omgtools/vehicles/holonomic.py
@@ -32,7 +32,7 @@ class Holonomic(Vehicle):
             self, n_spl=2, degree=3, shapes=shapes, options=options)
 
         if ((not 'syslimit' in self.options) or  # default choose norm_inf
-                (self.options['syslimit'] is 'norm_inf')):
+                (self.options['syslimit'] == 'norm_inf')):
             # user specified separate velocities for x and y
             self.vxmin = bounds['vxmin'] if 'vxmin' in bounds else -0.5
             self.vymin = bounds['vymin'] if 'vymin' in bounds else -0.5
@@ -51,7 +51,7 @@ class Holonomic(Vehicle):
                 self.axmin = self.aymin = bounds['amin']
             if 'amax' in bounds:
                 self.axmax = self.aymax = bounds['amax']
-        elif self.options['syslimit'] is 'norm_2':
+        elif self.options['syslimit'] == 'norm_2':
             self.vmax = bounds['vmax'] if 'vmax' in bounds else 0.5
             self.amax = bounds['amax'] if 'amax' in bounds else 1.
 
@@ -64,13 +64,13 @@ class Holonomic(Vehicle):
         dx, dy = x.derivative(), y.derivative()
         ddx, ddy = x.derivative(2), y.derivative(2)
         # constrain total velocity
-        if self.options['syslimit'] is 'norm_2':
+        if self.options['syslimit'] == 'norm_2':
             self.define_constraint(
                 (dx**2+dy**2) - (horizon_time**2)*self.vmax**2, -inf, 0.)
             self.define_constraint(
                 (ddx**2+ddy**2) - (horizon_time**4)*self.amax**2, -inf, 0.)
         # constrain local velocity
-        elif self.options['syslimit'] is 'norm_inf':
+        elif self.options['syslimit'] == 'norm_inf':
             self.define_constraint(-dx + horizon_time*self.vxmin, -inf, 0.)
             self.define_constraint(-dy + horizon_time*self.vymin, -inf, 0.)
             self.define_constraint(dx - horizon_time*self.vxmax, -inf, 0.)
diff --git a/omgtools/vehicles/holonomic3d.py b/omgtools/vehicles/holonomic3d.py
index 7ced526..3c76411 100644
--- a/omgtools/vehicles/holonomic3d.py
+++ b/omgtools/vehicles/holonomic3d.py
@@ -47,12 +47,12 @@ class Holonomic3D(Vehicle):
         x, y, z = splines
         dx, dy, dz = x.derivative(), y.derivative(), z.derivative()
         ddx, ddy, ddz = x.derivative(2), y.derivative(2), z.derivative(2)
-        if self.options['syslimit'] is 'norm_2':
+        if self.options['syslimit'] == 'norm_2':
             self.define_constraint(
                 (dx**2+dy**2+dz**2) - (horizon_time**2)*self.vmax**2, -inf, 0.)
             self.define_constraint(
                 (ddx**2+ddy**2+ddz**2) - (horizon_time**4)*self.amax**2, -inf, 0.)
-        elif self.options['syslimit'] is 'norm_inf':
+        elif self.options['syslimit'] == 'norm_inf':
             self.define_constraint(-dx + horizon_time*self.vmin, -inf, 0.)
             self.define_constraint(-dy + horizon_time*self.vmin, -inf, 0.)
             self.define_constraint(-dz + horizon_time*self.vmin, -inf, 0.)
diff --git a/omgtools/vehicles/holonomicorient.py b/omgtools/vehicles/holonomicorient.py
index 90c7ff1..9a8bc0f 100644
--- a/omgtools/vehicles/holonomicorient.py
+++ b/omgtools/vehicles/holonomicorient.py
@@ -52,12 +52,12 @@ class HolonomicOrient(Vehicle):
         x, y, tg_ha = splines
         dx, dy, dtg_ha = x.derivative(), y.derivative(), tg_ha.derivative()
         ddx, ddy = x.derivative(2), y.derivative(2)
-        if self.options['syslimit'] is 'norm_2':
+        if self.options['syslimit'] == 'norm_2':
             self.define_constraint(
                 (dx**2+dy**2) - (horizon_time**2)*self.vmax**2, -inf, 0.)
             self.define_constraint(
                 (ddx**2+ddy**2) - (horizon_time**4)*self.amax**2, -inf, 0.)
-        elif self.options['syslimit'] is 'norm_inf':
+        elif self.options['syslimit'] == 'norm_inf':
             self.define_constraint(-dx + horizon_time*self.vmin, -inf, 0.)
             self.define_constraint(-dy + horizon_time*self.vmin, -inf, 0.)
             self.define_constraint(dx - horizon_time*self.vmax, -inf, 0.)
diff --git a/omgtools/vehicles/tool.py b/omgtools/vehicles/tool.py
index 89da6a3..a7760a0 100644
--- a/omgtools/vehicles/tool.py
+++ b/omgtools/vehicles/tool.py
@@ -87,7 +87,7 @@ class Tool(Vehicle):
         dddx, dddy, dddz = x.derivative(3), y.derivative(3), z.derivative(3)  # jerk
 
         # constrain local velocity
-        if self.options['vel_limit'] is 'machining':
+        if self.options['vel_limit'] == 'machining':
             # the machining process is the limiting factor, so limit the total velocity
             # in x- and y-axis combined
             if self.vxmax != 0.:
@@ -99,7 +99,7 @@ class Tool(Vehicle):
                 self.define_constraint(
                     (dz**2) - (horizon_time**2)*self.vzmax**2, -inf, 0., skip=skip)
 
-        elif self.options['vel_limit'] is 'axes':
+        elif self.options['vel_limit'] == 'axes':
             # the axes themselves are the limiting factor, so limit the x- and y- axis separately
             self.define_constraint(-dx + horizon_time*self.vxmin, -inf, 0., skip=skip)
             self.define_constraint(-dy + horizon_time*self.vymin, -inf, 0., skip=skip)
-- 
2.43.0


From da5de319729ff9a5215e01d375263e5c76964b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 03/51] fix: terminal check compares both pose error and input
 norm with the tolerance (misplaced parenthesis)

---
 omgtools/vehicles/agv.py                | 2 +-
 omgtools/vehicles/bicycle.py            | 2 +-
 omgtools/vehicles/dubins.py             | 2 +-
 omgtools/vehicles/holonomic.py          | 2 +-
 omgtools/vehicles/holonomic1d.py        | 2 +-
 omgtools/vehicles/holonomic3d.py        | 2 +-
 omgtools/vehicles/holonomicorient.py    | 2 +-
 omgtools/vehicles/quadrotor.py          | 2 +-
 omgtools/vehicles/quadrotor3d_simple.py | 2 +-
 omgtools/vehicles/tool.py               | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/omgtools/vehicles/agv.py b/omgtools/vehicles/agv.py
index c9aa0e2..8cacdc9 100644
--- a/omgtools/vehicles/agv.py
+++ b/omgtools/vehicles/agv.py
@@ -193,7 +193,7 @@ class AGV(Vehicle):
         # todo: kicked out state[3] since you cannot impose a steerT for now
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:3, -1] - self.poseT) > tol or
-            np.linalg.norm(self.signals['input'][:, -1])) > tol:
+            np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/bicycle.py b/omgtools/vehicles/bicycle.py
index 009430d..6a6e0ef 100644
--- a/omgtools/vehicles/bicycle.py
+++ b/omgtools/vehicles/bicycle.py
@@ -226,7 +226,7 @@ class Bicycle(Vehicle):
         # todo: kicked out state[3] since you cannot impose a steerT for now
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:3, -1] - self.poseT) > tol or
-            np.linalg.norm(self.signals['input'][:, -1])) > tol:
+            np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/dubins.py b/omgtools/vehicles/dubins.py
index f7aaacc..4c71880 100644
--- a/omgtools/vehicles/dubins.py
+++ b/omgtools/vehicles/dubins.py
@@ -220,7 +220,7 @@ class Dubins(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/holonomic.py b/omgtools/vehicles/holonomic.py
index d84bfa1..5929d0b 100644
--- a/omgtools/vehicles/holonomic.py
+++ b/omgtools/vehicles/holonomic.py
@@ -145,7 +145,7 @@ class Holonomic(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/holonomic1d.py b/omgtools/vehicles/holonomic1d.py
index 66414df..9560557 100644
--- a/omgtools/vehicles/holonomic1d.py
+++ b/omgtools/vehicles/holonomic1d.py
@@ -85,7 +85,7 @@ class Holonomic1D(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/holonomic3d.py b/omgtools/vehicles/holonomic3d.py
index 3c76411..8844b84 100644
--- a/omgtools/vehicles/holonomic3d.py
+++ b/omgtools/vehicles/holonomic3d.py
@@ -116,7 +116,7 @@ class Holonomic3D(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/holonomicorient.py b/omgtools/vehicles/holonomicorient.py
index 9a8bc0f..6822e9b 100644
--- a/omgtools/vehicles/holonomicorient.py
+++ b/omgtools/vehicles/holonomicorient.py
@@ -138,7 +138,7 @@ class HolonomicOrient(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/quadrotor.py b/omgtools/vehicles/quadrotor.py
index 8033357..2504f73 100644
--- a/omgtools/vehicles/quadrotor.py
+++ b/omgtools/vehicles/quadrotor.py
@@ -104,7 +104,7 @@ class Quadrotor(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['pose'][:2, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['dspl'][:, -1])) > tol:
+                np.linalg.norm(self.signals['dspl'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/quadrotor3d_simple.py b/omgtools/vehicles/quadrotor3d_simple.py
index 22e9214..c13e7ad 100644
--- a/omgtools/vehicles/quadrotor3d_simple.py
+++ b/omgtools/vehicles/quadrotor3d_simple.py
@@ -139,7 +139,7 @@ class SimpleQuadrotor3D(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['pose'][:3, -1] - self.positionT) > tol or
-                np.linalg.norm(self.signals['dspl'][:, -1])) > tol:
+                np.linalg.norm(self.signals['dspl'][:, -1]) > tol):
             return False
         else:
             return True
diff --git a/omgtools/vehicles/tool.py b/omgtools/vehicles/tool.py
index a7760a0..5d83809 100644
--- a/omgtools/vehicles/tool.py
+++ b/omgtools/vehicles/tool.py
@@ -163,7 +163,7 @@ class Tool(Vehicle):
     def check_terminal_conditions(self):
         tol = self.options['stop_tol']
         if (np.linalg.norm(self.signals['state'][:, -1] - self.poseT) > tol or
-                np.linalg.norm(self.signals['input'][:, -1])) > tol:
+                np.linalg.norm(self.signals['input'][:, -1]) > tol):
             return False
         else:
             return True
-- 
2.43.0


From 37f3964f3673cdfb7c1346976319bd08e714f7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 04/51] fix: sample counts are rounded like everywhere else
 instead of truncated (0.3/0.1 samples)

---
 omgtools/execution/deployer.py        | 2 +-
 omgtools/problems/schedulerproblem.py | 2 +-
 omgtools/vehicles/vehicle.py          | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/omgtools/execution/deployer.py b/omgtools/execution/deployer.py
index 4d8fd64..8f2ea9a 100644
--- a/omgtools/execution/deployer.py
+++ b/omgtools/execution/deployer.py
@@ -58,7 +58,7 @@ class Deployer:
             self.problem.initialize(current_time)
             delay = 0
         else:
-            delay = int((current_time - self.current_time - update_time)/self.sample_time)
+            delay = int(np.round((current_time - self.current_time - update_time)/self.sample_time, 6))
 
         # if the update time + delay is more than the time which is left, leave out the delay
         if hasattr(self.problem.vehicles[0], 'trajectories'):
diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 6fae4f4..37edcf5 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -225,7 +225,7 @@ class SchedulerProblem(Problem):
         if simulation_time == np.inf:
             # using simulator.run_once()
             simulation_time = sum(self.motion_times)
-        repeat = int(simulation_time/sample_time)
+        repeat = int(np.round(simulation_time/sample_time, 6))
         # copy frames, to avoid problems when removing elements from self.frames
         frames_to_save = self.frames[:]
         for k in range(repeat):
diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 56333cc..98fd1f8 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -393,7 +393,7 @@ class Vehicle(OptiChild, PlotLayer):
             self.traj_storage = {}
             self.traj_storage_kn = {}
             self.pred_storage = {}
-        repeat = int(simulation_time/sample_time)
+        repeat = int(np.round(simulation_time/sample_time, 6))
         self._add_to_memory(self.traj_storage, self.trajectories, repeat)
         self._add_to_memory(self.traj_storage_kn, self.trajectories_kn, repeat)
         self._add_to_memory(self.pred_storage, self.prediction, repeat)
@@ -412,7 +412,7 @@ class Vehicle(OptiChild, PlotLayer):
     def integrate_ode(self, state0, input, integration_time, sample_time, ode=None):
         if ode is None:
             ode = self._ode
-        n_samp = int(integration_time/sample_time)+1
+        n_samp = int(np.round(integration_time/sample_time, 6))+1
         time_axis = np.linspace(0., (n_samp-1)*sample_time, n_samp)
         # make interpolation function which returns the input at a certain time
         time_interp = np.linspace(
-- 
2.43.0


From 2c187565dfb43e25e63c4b663c97c6a8009d89e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 05/51] fix: constraint shutdown conditions raised a NameError
 (exec does not bind local names)

---
 omgtools/basics/optilayer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/basics/optilayer.py b/omgtools/basics/optilayer.py
index 75a23aa..53e7e49 100644
--- a/omgtools/basics/optilayer.py
+++ b/omgtools/basics/optilayer.py
@@ -313,7 +313,7 @@ class OptiFather(object):
     def update_bounds(self, current_time):
         lb, ub = copy.deepcopy(self._lb), copy.deepcopy(self._ub)
         for name, shutdown in self._constraint_shutdown.items():
-            exec('shutdown_fun = lambda t: %s' % shutdown)
+            shutdown_fun = eval('lambda t: %s' % shutdown)
             if shutdown_fun(current_time):
                 lb[name], ub[name] = -inf, +inf
         return lb, ub
-- 
2.43.0


From 0541350bfbc505a64da1fa1ec854c3389548ed68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 06/51] fix: obstacle prediction over several segments keeps
 the acceleration in the start velocity of the next segment

---
 omgtools/environment/obstacle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/environment/obstacle.py b/omgtools/environment/obstacle.py
index c34a5de..d092e90 100644
--- a/omgtools/environment/obstacle.py
+++ b/omgtools/environment/obstacle.py
@@ -102,8 +102,9 @@ class ObstaclexD(OptiChild):
                 for horizon_time in horizon_times:
                     for k in range(self.n_dim):
                         self.pos_spline[k] = BSpline(self.basis, vertcat(pos0[k], 0.5*v0[k]*horizon_time + pos0[k], pos0[k] + v0[k]*horizon_time + 0.5*a0[k]*(horizon_time**2)))
-                    # update start position for next segment
+                    # update start position and velocity for next segment
                     pos0 = [self.pos_spline[k](1) for k in range(self.n_dim)]
+                    v0 = v0 + a0*horizon_time
             else:
                 # horizon_times was None
                 # pos spline over time horizon
-- 
2.43.0


From dbd70ef28fff1c180000144f4ad2d62e8845b788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 07/51] fix: warm start of free end time plans was skipped when
 the deployment starts at a nonzero time (start time subtracted twice)

---
 omgtools/problems/multiframeproblem.py | 2 +-
 omgtools/problems/point2point.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/multiframeproblem.py b/omgtools/problems/multiframeproblem.py
index 1327b4d..2eb7011 100644
--- a/omgtools/problems/multiframeproblem.py
+++ b/omgtools/problems/multiframeproblem.py
@@ -227,7 +227,7 @@ class MultiFrameProblem(Problem):
                                      len(self.update_times))))
 
     def init_step(self, current_time, update_time):
-        if (current_time - self.start_time) > 0:
+        if current_time > 0:  # relative to start_time (see Problem.solve)
             # compute total remaining motion time
             T = 0
             for frame in range(self.n_frames):
diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 2381500..88fb8b9 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -352,7 +352,7 @@ class FreeTPoint2point(Point2pointProblem):
         return Point2pointProblem.stop_criterium(self, current_time, update_time)
 
     def init_step(self, current_time, update_time):
-        if (current_time - self.start_time) > 0:
+        if current_time > 0:  # relative to start_time (see Problem.solve)
             T = self.father.get_variables(self, 'T')[0][0]
             # check if almost arrived, if so lower the update time
             if T < 2*update_time:
-- 
2.43.0


From 80954553c6263d79ff5261bc25e2cef5bb3dc9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 08/51] fix: distributed problems pass measured inputs, delay
 and enforce flags on to each agent's prediction (delay was passed as input)

---
 omgtools/problems/distributedproblem.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/distributedproblem.py b/omgtools/problems/distributedproblem.py
index 88b52e6..57e8905 100644
--- a/omgtools/problems/distributedproblem.py
+++ b/omgtools/problems/distributedproblem.py
@@ -196,8 +196,12 @@ class DistributedProblem(Problem):
     def predict(self, current_time, predict_time, sample_time, states=None, inputs=None, dinputs=None, delay=0, enforce_states=False, enforce_inputs=False):
         if states is None:
             states = [None for k in range(len(self.problems))]
-        for problem, state in zip(self.problems, states):
-            problem.predict(current_time, predict_time, sample_time, state, delay)
+        if inputs is None:
+            inputs = [None for k in range(len(self.problems))]
+        if dinputs is None:
+            dinputs = [None for k in range(len(self.problems))]
+        for problem, state, input, dinput in zip(self.problems, states, inputs, dinputs):
+            problem.predict(current_time, predict_time, sample_time, state, input, dinput, delay, enforce_states, enforce_inputs)
 
     # ========================================================================
     # Simulation related functions
-- 
2.43.0


From 01d785a978a3c508220b44a8ad18510f176b119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 09/51] fix: multi frame problems with several vehicles
 (missing inter_vehicle_avoidance default and horizon times)

---
 omgtools/problems/multiframeproblem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/problems/multiframeproblem.py b/omgtools/problems/multiframeproblem.py
index 2eb7011..4c85cbc 100644
--- a/omgtools/problems/multiframeproblem.py
+++ b/omgtools/problems/multiframeproblem.py
@@ -44,6 +44,7 @@ class MultiFrameProblem(Problem):
 
     def set_default_options(self):
         Problem.set_default_options(self)
+        self.options['inter_vehicle_avoidance'] = False
 
     def set_options(self, options):
         Problem.set_options(self, options)
@@ -72,7 +73,7 @@ class MultiFrameProblem(Problem):
                 vehicle.define_trajectory_constraints(total_splines[frame], self.motion_times[frame])
             self.environment.define_collision_constraints(vehicle, total_splines, self.motion_times)
         if len(self.vehicles) > 1 and self.options['inter_vehicle_avoidance']:
-            self.environment.define_intervehicle_collision_constraints(self.vehicles)
+            self.environment.define_intervehicle_collision_constraints(self.vehicles, self.motion_times)
 
         # constrain spline segments
         self.define_init_constraints()
-- 
2.43.0


From bd94d7761c60dde8eb0344771dd61b1d16e1af38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 10/51] fix: slack splines of the terminal conditions were
 shared between vehicles of a fixed horizon problem

---
 omgtools/problems/point2point.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 88fb8b9..3373a31 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -151,7 +151,7 @@ class FixedTPoint2point(Point2pointProblem):
     def define_terminal_constraints(self):
         objective = 0.
         self.term_con_len = []
-        for vehicle in self.vehicles:
+        for v, vehicle in enumerate(self.vehicles):
             term_con, term_con_der = vehicle.get_terminal_constraints(
                 vehicle.splines[0])
             if ('no_term_con_der' in self.options and self.options['no_term_con_der']):
@@ -160,7 +160,7 @@ class FixedTPoint2point(Point2pointProblem):
             for k, con in enumerate(term_con):
                 spline, condition = con[0], con[1]
                 g = self.define_spline_variable(
-                    'g'+str(k), 1, basis=spline.basis)[0]
+                    self._slack_name(v, k), 1, basis=spline.basis)[0]
                 objective += definite_integral(g, self.t0, 1.)
                 self.define_constraint(spline - condition - g, -inf, 0.)
                 self.define_constraint(-spline + condition - g, -inf, 0.)
@@ -171,6 +171,10 @@ class FixedTPoint2point(Point2pointProblem):
                 self.define_constraint(spline(1.) - condition, 0., 0.)
         self.define_objective(objective)
 
+    def _slack_name(self, v, k):
+        # every vehicle has its own slack splines
+        return 'g'+str(k) if v == 0 else 'g'+str(k)+'_veh'+str(v)
+
     def set_parameters(self, current_time):
         parameters = Point2pointProblem.set_parameters(self, current_time)
         if self.init_time is None:
@@ -251,7 +255,7 @@ class FixedTPoint2point(Point2pointProblem):
         part_objective = 0.
         for v, vehicle in enumerate(self.vehicles):
             for k in range(self.term_con_len[v]):
-                g = self.father.get_variables(self, 'g'+str(k))[0]
+                g = self.father.get_variables(self, self._slack_name(v, k))[0]
                 part_objective += horizon_time*definite_integral(g, t0, t1)
         self.objective += part_objective
 
@@ -260,7 +264,7 @@ class FixedTPoint2point(Point2pointProblem):
             obj = 0.
             for v, vehicle in enumerate(self.vehicles):
                 for k in range(self.term_con_len[v]):
-                    g = self.father.get_variables(self, 'g'+str(k))[0]
+                    g = self.father.get_variables(self, self._slack_name(v, k))[0]
                     obj += self.options['horizon_time']*g.integral()
             return obj
         return self.objective
@@ -409,7 +413,7 @@ class FreeEndPoint2point(FixedTPoint2point):
                 else:
                     spline, condition = con[0], con[1]
                 g = self.define_spline_variable(
-                    'g'+str(k), 1, basis=spline.basis)[0]
+                    self._slack_name(l, k), 1, basis=spline.basis)[0]
                 objective += definite_integral(g, self.t0, 1.)
                 self.define_constraint(spline - condition - g, -inf, 0.)
                 self.define_constraint(-spline + condition - g, -inf, 0.)
-- 
2.43.0


From a627716673aea2a9e3806b91ea31cc1f972eb2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 11/51] fix: slack variables of the safety distance and of the
 soft formation were shared between calls (segments, other vehicles, couples)

---
 omgtools/problems/formation_central.py | 2 +-
 omgtools/vehicles/vehicle.py           | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/omgtools/problems/formation_central.py b/omgtools/problems/formation_central.py
index 459ac9d..6019b84 100644
--- a/omgtools/problems/formation_central.py
+++ b/omgtools/problems/formation_central.py
@@ -69,7 +69,7 @@ class FormationPoint2pointCentral(FixedTPoint2point):
                 for ind_v, ind_n in zip(ind_veh, ind_nghb):
                     if self.options['soft_formation']:
                         weight = self.options['soft_formation_weight']
-                        eps = self.define_spline_variable('eps_form_'+str(ind_v)+str(ind_n), basis=veh.basis)[0]
+                        eps = self.define_spline_variable('eps_form_'+veh.label+'_'+nghb.label+'_'+str(ind_v)+str(ind_n), basis=veh.basis)[0]
                         obj = weight*definite_integral(eps, t/T, 1.)
                         self.define_objective(obj)
                         self.define_constraint(pos_c_veh[ind_v] - pos_c_nghb[ind_n] - eps, -inf, 0.)
diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 98fd1f8..71b537a 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -137,7 +137,7 @@ class Vehicle(OptiChild, PlotLayer):
                     sl = 1 if 'slack' not in hyperplane else hyperplane['slack']
                     if safety_distance > 0.:
                         eps = self.define_spline_variable(
-                            'eps_'+str(s)+str(k))[0]
+                            'eps_'+str(s)+'_'+str(k)+'_'+str(self._constraint_cnt))[0]
                         obj = safety_weight*definite_integral(eps, t/horizon_time, 1.)
                         self.define_objective(obj)
                         self.define_constraint(eps - safety_distance, -inf, 0.)
@@ -209,7 +209,7 @@ class Vehicle(OptiChild, PlotLayer):
                         # Todo: remove?
                         t = self.define_symbol('t')
                         eps = self.define_spline_variable(
-                            'eps_'+str(s)+str(k))[0]
+                            'eps_'+str(s)+'_'+str(k)+'_'+str(self._constraint_cnt))[0]
                         obj = safety_weight*definite_integral(eps, t/horizon_time, 1.)
                         self.define_objective(obj)
                         self.define_constraint(eps - safety_distance, -inf, 0.)
-- 
2.43.0


From 6324d7db3ac38657a1c03b38be8c2236cb145dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 12/51] fix: impose the terminal derivative conditions in
 FreeEndPoint2point

The loop over the derivative conditions reused the spline and condition of
the last position condition, so it imposed that position and not the rest
conditions.
---
 omgtools/problems/point2point.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 3373a31..6272882 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -418,5 +418,6 @@ class FreeEndPoint2point(FixedTPoint2point):
                 self.define_constraint(spline - condition - g, -inf, 0.)
                 self.define_constraint(-spline + condition - g, -inf, 0.)
             for con in term_con_der:
+                spline, condition = con[0], con[1]
                 self.define_constraint(spline(1.) - condition, 0., 0.)
         self.define_objective(objective)
-- 
2.43.0


From 80d9de94942f2c4e1e29a5031a7df33b1260a024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 13/51] fix: default free terminal conditions of
 FreeEndPoint2point

The default read vehicle.splines before the splines were defined
(AttributeError) and counted the two lists of conditions and not the
position conditions.
---
 omgtools/problems/point2point.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/omgtools/problems/point2point.py b/omgtools/problems/point2point.py
index 6272882..d8df2d2 100644
--- a/omgtools/problems/point2point.py
+++ b/omgtools/problems/point2point.py
@@ -388,20 +388,17 @@ class FreeEndPoint2point(FixedTPoint2point):
     # Optimization modelling related functions
     # ========================================================================
 
-    def construct(self):
-        if self.free_ind is None:
-            self.free_ind = {}
-            for vehicle in self.vehicles:
-                term_con = vehicle.get_terminal_constraints(vehicle.splines[0])
-                self.free_ind[vehicle] = list(range(len(term_con)))
-        FixedTPoint2point.construct(self)
-
     def define_terminal_constraints(self):
         objective = 0.
         self.term_con_len = []
+        free_all = self.free_ind is None
+        if free_all:
+            self.free_ind = {}
         for l, vehicle in enumerate(self.vehicles):
             term_con, term_con_der = vehicle.get_terminal_constraints(
                 vehicle.splines[0])
+            if free_all:
+                self.free_ind[vehicle] = list(range(len(term_con)))
             conditions = self.define_variable(
                 'conT'+str(l), len(self.free_ind[vehicle]))
             cnt = 0
-- 
2.43.0


From 18b7533c9cac657c70d7da7017fe33d6653dd5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:57 +0000
Subject: [PATCH 14/51] fix: accept horizon_time in get_terminal_constraints of
 Quadrotor and Tool

MultiFrameProblem passes the motion time of the last segment to every
vehicle; these two raised a TypeError.
---
 omgtools/vehicles/quadrotor.py | 2 +-
 omgtools/vehicles/tool.py      | 2 +-
 omgtools/vehicles/vehicle.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/omgtools/vehicles/quadrotor.py b/omgtools/vehicles/quadrotor.py
index 2504f73..ee1f080 100644
--- a/omgtools/vehicles/quadrotor.py
+++ b/omgtools/vehicles/quadrotor.py
@@ -74,7 +74,7 @@ class Quadrotor(Vehicle):
                 (dx, horizon_time*dspl0[0]), (dy, horizon_time*dspl0[1]),
                 (ddx, (horizon_time**2)*ddspl0[0]), (ddy, (horizon_time**2)*ddspl0[1])]
 
-    def get_terminal_constraints(self, splines):
+    def get_terminal_constraints(self, splines, horizon_time=None):
         position = self.define_parameter('poseT', 2)
         x, y = splines
         term_con = [(x, position[0]), (y, position[1])]
diff --git a/omgtools/vehicles/tool.py b/omgtools/vehicles/tool.py
index 5d83809..42ab325 100644
--- a/omgtools/vehicles/tool.py
+++ b/omgtools/vehicles/tool.py
@@ -136,7 +136,7 @@ class Tool(Vehicle):
                 (dx, horizon_time*input0[0]), (dy, horizon_time*input0[1]), (dz, horizon_time*input0[2]),
                 (ddx, horizon_time**2*dinput0[0]), (ddy, horizon_time**2*dinput0[1]), (ddz, horizon_time**2*dinput0[2])]
 
-    def get_terminal_constraints(self, splines):
+    def get_terminal_constraints(self, splines, horizon_time=None):
         position = self.define_parameter('poseT', 3)
         x, y, z = splines
         term_con = [(x, position[0]), (y, position[1]), (z, position[2])]
diff --git a/omgtools/vehicles/vehicle.py b/omgtools/vehicles/vehicle.py
index 71b537a..e394dee 100644
--- a/omgtools/vehicles/vehicle.py
+++ b/omgtools/vehicles/vehicle.py
@@ -537,7 +537,7 @@ class Vehicle(OptiChild, PlotLayer):
     def get_initial_constraints(self, state, input=None):
         raise NotImplementedError('Please implement this method!')
 
-    def get_terminal_constraints(self, splines):
+    def get_terminal_constraints(self, splines, horizon_time=None):
         raise NotImplementedError('Please implement this method!')
 
     def check_terminal_conditions(self):
-- 
2.43.0


From 86920f64bc95b93ca2b39c6e4ea0862f803182f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:42 +0000
Subject: [PATCH 15/51] fix: let the trailer check its leading vehicle without
 having been drawn

---
 omgtools/vehicles/trailer.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/omgtools/vehicles/trailer.py b/omgtools/vehicles/trailer.py
index 885ef9a..aa85932 100644
--- a/omgtools/vehicles/trailer.py
+++ b/omgtools/vehicles/trailer.py
@@ -127,6 +127,14 @@ class Trailer(Vehicle):
         init_value = np.c_[init_value_tr, init_value_veh]
         return init_value
 
+    def _update_lead_signals(self):
+        # since the leading vehicle is not simulated separately it doesn't get a self.signals attribute
+        signals_veh = {}
+        signals_veh['pose'] = self.signals['pose'][3:, ]
+        signals_veh['state'] = self.signals['state'][3:, ]
+        signals_veh['input'] = self.signals['input']
+        self.lead_veh.update_signals(signals_veh)
+
     def check_terminal_conditions(self):
         # Two options: move vehicle with a trailer, or position/park the trailer somewhere.
         # Move vehicle with trailer: no theta_trT specified
@@ -139,6 +147,7 @@ class Trailer(Vehicle):
                 result = True
         else:  # theta_trT reached or not specified
             result = True
+        self._update_lead_signals()
         result = (self.lead_veh.check_terminal_conditions() and result)  #arrived if lead_veh and trailer checks both True
         return result
 
@@ -227,11 +236,6 @@ class Trailer(Vehicle):
                                                                          np.sin(self.signals['pose'][2, t])])
             lines += [np.array([pt1, pt2]).T]
         # signals are required for drawing
-        # since this vehicle is not simulated separately it doesn't get a self.signals attribute
-        signals_veh = {}
-        signals_veh['pose'] = self.signals['pose'][3:, ]
-        signals_veh['state'] = self.signals['state'][3:, ]
-        signals_veh['input'] = self.signals['input']
-        self.lead_veh.update_signals(signals_veh)
+        self._update_lead_signals()
         surfaces += self.lead_veh.draw(t)[0]
         return surfaces, lines
-- 
2.43.0


From bd9ae3f3b8234157f5f1671b30a1e1c64dc22566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:59 +0000
Subject: [PATCH 16/51] fix: create the default leading vehicle of a trailer
 before it is used

---
 omgtools/vehicles/trailer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/vehicles/trailer.py b/omgtools/vehicles/trailer.py
index aa85932..3b7856d 100644
--- a/omgtools/vehicles/trailer.py
+++ b/omgtools/vehicles/trailer.py
@@ -29,11 +29,12 @@ class Trailer(Vehicle):
 
     def __init__(self, lead_veh=None, shapes=Circle(0.2), l_hitch=0.2, options=None, bounds=None):
         bounds = bounds or {}
+        lead_veh = Dubins(Circle(0.2)) if (lead_veh is None) else lead_veh  # vehicle which pulls the trailer
         Vehicle.__init__(
             self, n_spl=1 + lead_veh.n_spl, degree=3, shapes=shapes, options=options)
         # n_spl contains all splines of lead_veh and trailer
         # being: tg_ha_trailer, v_til_veh, tg_ha_veh
-        self.lead_veh = Dubins(Circle(0.2)) if (lead_veh is None) else lead_veh  # vehicle which pulls the trailer
+        self.lead_veh = lead_veh
         self.l_hitch = l_hitch  # distance between rear axle of trailer and connection point on the car
         self.tmax = bounds['tmax'] if 'tmax' in bounds else np.pi/4.  # limit angle between trailer and vehicle
         self.tmin = bounds['tmin'] if 'tmin' in bounds else -np.pi/4.
-- 
2.43.0


From 046c9da9a9ef86c3ed27515bc8280b345f724b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:15 +0000
Subject: [PATCH 17/51] fix: inverse of the first-knot shift for a basis with a
 single interval

The sum over the upper triangular part ran one column too far, which
raised an IndexError when the basis has no internal knots.
---
 omgtools/basics/spline_extra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index dbf2e1e..71f4b62 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -249,7 +249,7 @@ def shiftfirstknot_T(basis, t_shift, inverse=False):
             Tinv[i, i] = 1./T[i, i]
             for j in range(deg, i, -1):
                 Tinv[i, j] = (-1./T[i, i])*sum([T[i, k]*Tinv[k, j]
-                                                for k in range(i+1, deg+2)])
+                                                for k in range(i+1, deg+1)])
         return T, Tinv
     else:
         return T
-- 
2.43.0


From 1857f489b3988465428e96be7fe0368c28730466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:55 +0000
Subject: [PATCH 18/51] fix: shift over a knot for short and for repeated
 internal knot vectors

---
 omgtools/basics/spline_extra.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index 71f4b62..69d19fc 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -171,24 +171,12 @@ def shiftoverknot_T(basis):
     m = 1  # number of repeating internal knots
     while knots[-deg-2-m] >= knots[-deg-2]:
         m += 1
-    t_shift = knots[deg+1] - knots[0]
-    T = np.diag(np.ones(len(basis)-m), m)
-    _T = np.eye(deg+1)
-    for k in range(deg):
-        _t = np.zeros((deg+1+k+1, deg+1+k))
-        for j in range(deg+1+k+1):
-            if j >= deg+1:
-                _t[j, j-1] = 1.
-            elif j <= k:
-                _t[j, j] = 1.
-            else:
-                _t[j, j-1] = (knots[j+deg-k]-t_shift)/(knots[j+deg-k]-knots[j])
-                _t[j, j] = (t_shift-knots[j])/(knots[j+deg-k]-knots[j])
-        _T = _t.dot(_T)
-    T[:deg, :deg+1] = _T[deg+1:, :]
-    T_extr = extrapolate_T(basis, knots[-1] - knots[-deg-2])
-    T[-(deg+1):, -(deg+1):] = T_extr[-(deg+1):, -(deg+1):]
-    return T
+    t_extra = knots[-1] - knots[-deg-2]
+    knots2 = np.r_[knots[:-deg-1], knots[-deg-1]*np.ones(m),
+                   (knots[-1]+t_extra)*np.ones(deg+1)]
+    T_extr = extrapolate_T(basis, t_extra)
+    T_int, _ = get_interval_T(BSplineBasis(knots2, deg), knots[deg+1], knots2[-1])
+    return T_int.dot(T_extr)
 
 
 def shift_knot1_fwd(cfs, basis, t_shift):
-- 
2.43.0


From f3f3f4df4707da4415c03454df792e6de8da9dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 19/51] fix: count the value at the junction of concatenated
 splines once

---
 omgtools/basics/spline_extra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index 69d19fc..e515eb9 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -370,8 +370,8 @@ def concat_splines(segments, segment_times, n_insert=None):
                 # of union basis, will give 0 outside their domain
                 s_1 = prev_segment[l](grev_bc)
                 s_2 = segments[k][l].scale(segment_times[k], shift = prev_time)(grev_bc)
-                # sum to get total evaluation
-                eval_sc = s_1 + s_2
+                # combine to get total evaluation, the junction belongs to both segments but counts once
+                eval_sc = np.where(np.array(grev_bc) <= prev_segment[l].basis.knots[-1], s_1, s_2)
 
                 # solve system to find new coeffs
                 coeffs_concat = la.solve(eval_bc, eval_sc)
-- 
2.43.0


From aff3e68b797942fb5f202665a5243c17f291334d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 20/51] fix: continuity test of concatenated splines for
 negative and zero values

---
 omgtools/basics/spline_extra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index e515eb9..da82c7b 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -323,7 +323,7 @@ def concat_splines(segments, segment_times, n_insert=None):
                     # this seems due to the finite tolerance of ipopt? and due to the fact that these are floating point numbers
                     val1 = segments[k][l].scale(segment_times[k], shift = prev_time).derivative(d)(prev_time)
                     val2 = prev_segment[l].derivative(d)(prev_time)
-                    if ( abs(val1 - val2)*0.5/(val1 + val2) <= 1e-3):
+                    if ( abs(val1 - val2)*0.5 <= 1e-3*abs(val1 + val2)):
                         # more continuity = insert less knots
                         n_insert -= 1
                     else:
@@ -347,7 +347,7 @@ def concat_splines(segments, segment_times, n_insert=None):
                 # make knot vector for two segments to concatenate
                 end_idx_concat = len(prev_segment[l].basis.knots)-(degree[l]+1)+n_insert
                 knots1 = prev_segment[l].basis.knots[:end_idx_concat]
-                knots2 = s.basis.knots[degree[l]+1:]*segment_times[k] + knots1[-1]  # last term = time shift
+                knots2 = s.basis.knots[degree[l]+1:]*segment_times[k] + prev_segment[l].basis.knots[-1]  # last term = time shift
                 knots_concat = np.r_[knots1, knots2]
 
                 # make union basis for two segments to concatenate
-- 
2.43.0


From 12c467c7cc4acce555665b9aa9af35863aa20b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 21/51] fix: decide the continuity of every pair of
 concatenated splines separately

---
 omgtools/basics/spline_extra.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index da82c7b..2fe2641 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -310,9 +310,10 @@ def concat_splines(segments, segment_times, n_insert=None):
                 # all concatenated splines should be of the same degree
                 raise ValueError(
                     'Splines at index ' + l + 'should have same degree.')
-            if n_insert is None:
+            n_ins = n_insert
+            if n_ins is None:
                 # check continuity, n_insert can be different for each l
-                n_insert = degree[l]+1  # starts at max value
+                n_ins = degree[l]+1  # starts at max value
                 for d in range(degree[l]+1):
                     # use ipopt default tolerance as a treshold for check (1e-3)
                     # give dimensions, to compare using the same time scale
@@ -325,13 +326,13 @@ def concat_splines(segments, segment_times, n_insert=None):
                     val2 = prev_segment[l].derivative(d)(prev_time)
                     if ( abs(val1 - val2)*0.5 <= 1e-3*abs(val1 + val2)):
                         # more continuity = insert less knots
-                        n_insert -= 1
+                        n_ins -= 1
                     else:
-                        # spline values were not equal, stop comparing and use latest n_insert value
+                        # spline values were not equal, stop comparing and use latest n_ins value
                         break
             # else:  # keep n_insert from input
 
-            if n_insert!= degree[l]+1:
+            if n_ins!= degree[l]+1:
                 # concatenation requires re-computing the coefficients and/or adding extra knots
                 # here we make the knot vector and coeffs of the total spline (the final output),
                 # but we also compute the knot vector and coeffs for concatenating just two splines,
@@ -340,12 +341,12 @@ def concat_splines(segments, segment_times, n_insert=None):
                 # and afterwards segments 2 and 3, this happens due to the main for loop
 
                 # make total knot vector
-                end_idx = len(knots[l])-(degree[l]+1)+n_insert
+                end_idx = len(knots[l])-(degree[l]+1)+n_ins
                 knots[l] = np.r_[
                     knots[l][:end_idx], s.basis.knots[degree[l]+1:]*segment_times[k] + knots[l][-1]]  # last term = time shift
 
                 # make knot vector for two segments to concatenate
-                end_idx_concat = len(prev_segment[l].basis.knots)-(degree[l]+1)+n_insert
+                end_idx_concat = len(prev_segment[l].basis.knots)-(degree[l]+1)+n_ins
                 knots1 = prev_segment[l].basis.knots[:end_idx_concat]
                 knots2 = s.basis.knots[degree[l]+1:]*segment_times[k] + prev_segment[l].basis.knots[-1]  # last term = time shift
                 knots_concat = np.r_[knots1, knots2]
@@ -357,6 +358,11 @@ def concat_splines(segments, segment_times, n_insert=None):
                 # in which the spline evaluates to 0 because the evaluation lies just outside the domain
                 grev_bc[0] = grev_bc[0] + (grev_bc[1]-grev_bc[0])*0.01
                 grev_bc[-1] = grev_bc[-1] - (grev_bc[-1]-grev_bc[-2])*0.01
+                # at an earlier discontinuity two of them coincide: one for either side
+                for i in range(1, len(grev_bc)-2):
+                    if grev_bc[i] == grev_bc[i+1]:
+                        grev_bc[i] = grev_bc[i] - (grev_bc[i]-grev_bc[i-1])*0.01
+                        grev_bc[i+1] = grev_bc[i+1] + (grev_bc[i+2]-grev_bc[i+1])*0.01
                 # evaluate basis on its greville points
                 eval_bc = basis_concat(grev_bc).toarray()
 
-- 
2.43.0


From 22b946e6eafea2744da13d444b4cb9ee184be2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:38 +0000
Subject: [PATCH 22/51] fix: report concatenated splines of different degree

---
 omgtools/basics/spline_extra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/basics/spline_extra.py b/omgtools/basics/spline_extra.py
index 2fe2641..9fd2be9 100644
--- a/omgtools/basics/spline_extra.py
+++ b/omgtools/basics/spline_extra.py
@@ -309,7 +309,7 @@ def concat_splines(segments, segment_times, n_insert=None):
             if s.basis.degree != degree[l]:
                 # all concatenated splines should be of the same degree
                 raise ValueError(
-                    'Splines at index ' + l + 'should have same degree.')
+                    'Splines at index ' + str(l) + ' should have same degree.')
             n_ins = n_insert
             if n_ins is None:
                 # check continuity, n_insert can be different for each l
-- 
2.43.0


From d097d608f7e49ca319dbafbcd29ad5f7036cfce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:59 +0000
Subject: [PATCH 23/51] fix: distance_to_rectangle does not move the vertices
 of the rectangle it measures

---
 omgtools/basics/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/basics/geometry.py b/omgtools/basics/geometry.py
index 8ae0717..99bea17 100644
--- a/omgtools/basics/geometry.py
+++ b/omgtools/basics/geometry.py
@@ -32,7 +32,7 @@ def distance_between_points(point1, point2):
 def distance_to_rectangle(point, rectangle):
     # returns the x- and y-direction distance from point to a rectangle
     # based on: https://en.wikipedia.org/wiki/Distance_from_a_point_to_a_line
-    vertices = rectangle.vertices
+    vertices = rectangle.vertices.copy()
     vertices[0] +=  rectangle.signals['position'][:,-1][0]
     vertices[1] +=  rectangle.signals['position'][:,-1][1]
 
-- 
2.43.0


From 7390cafbe2ea9c491f38480d054e5baebf0647df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:59 +0000
Subject: [PATCH 24/51] fix: circle_polyhedron_intersection looks at all
 vertices and at sides of any direction

---
 omgtools/basics/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/basics/geometry.py b/omgtools/basics/geometry.py
index 99bea17..9292ab3 100644
--- a/omgtools/basics/geometry.py
+++ b/omgtools/basics/geometry.py
@@ -144,7 +144,7 @@ def circle_polyhedron_intersection(circle, polyhedron_shape, polyhedron_position
     vertices[1] +=  polyhedron_position[1]
 
     center = circle.signals['position'][:,-1]
-    for i in range(len(vertices)):
+    for i in range(len(vertices[0])-1):
         # first quickly check if any vertex is inside the circle
         dist = distance_between_points(center, [vertices[0][i], vertices[1][i]])
         if dist <= circle.shape.radius:
@@ -161,7 +161,7 @@ def circle_polyhedron_intersection(circle, polyhedron_shape, polyhedron_position
         # see if intersection point is within the two end points of line
         # and check distance between intersection point and circle center
         line1 = [[x1,y1],[x2,y2]]  # side of polyhedron
-        if (((x1-eps<=x4<=x2+eps and y1-eps<=y4<=y2+eps) or (x1+eps>=x4>=x2-eps and y1+eps>=y4>=y2-eps)) and
+        if ((min(x1,x2)-eps<=x4<=max(x1,x2)+eps and min(y1,y2)-eps<=y4<=max(y1,y2)+eps) and
            (distance_between_points(center, [x4,y4]) <= circle.shape.radius)):
             return True
     return False
-- 
2.43.0


From f8790d8496d845db992955a549a891fa8c3c2c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:59 +0000
Subject: [PATCH 25/51] fix: a full Ring can be constructed and has canvas
 limits

---
 omgtools/basics/shape.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/basics/shape.py b/omgtools/basics/shape.py
index c394bc3..c7da1a0 100644
--- a/omgtools/basics/shape.py
+++ b/omgtools/basics/shape.py
@@ -88,7 +88,8 @@ class Ring(Shape2D):
     def get_surfaces(self):
         if (self.start == self.end).all():
             # full ring, placed in the origin
-            s = linspace(0, 2*np.pi, 1000)
+            self.start_angle, self.end_angle = 0., 2*np.pi
+            s = np.linspace(self.start_angle, self.end_angle, 1000)
         else:
             # part of a ring, placed in the origin
             self.start_angle = np.arctan2(self.start[1], self.start[0])
-- 
2.43.0


From 7c4c04770a38ddad134ec7de88a2b646848b5716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:59 +0000
Subject: [PATCH 26/51] fix: Grid.is_accessible checks the cell below for
 diagonal moves down left

---
 omgtools/problems/globalplanner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index e376a6b..87dd134 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -346,7 +346,7 @@ class Grid(object):
                     accessible = True
             # diagonal down left
             elif (point1[0] - 1 == point2[0] and point1[1] - 1 == point2[1]):
-                if (self.free([point1[0], point1[1] - self.cell_height]) and self.free([point1[0] - 1,point1[1]])):
+                if (self.free([point1[0], point1[1] - 1]) and self.free([point1[0] - 1,point1[1]])):
                     accessible = True
 
         return accessible
-- 
2.43.0


From e97c30de4d0f42ce0d49380f39ef9384f1da382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:59 +0000
Subject: [PATCH 27/51] fix: AStarPlanner accepts a scalar vehicle size and
 leaves its options alone

---
 omgtools/problems/globalplanner.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index 87dd134..48f6ef4 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -60,12 +60,13 @@ class AStarPlanner(GlobalPlanner):
 
         # check if vehicle size needs to be taken into account while searching a global path
         if 'veh_size' in options:
-            if not isinstance(options['veh_size'], list):
-                options['veh_size'] = [options['veh_size']]
-            if len(options['veh_size']) == 1:
-                self.veh_size = 2*[options['veh_size']]
+            veh_size = options['veh_size']
+            if not isinstance(veh_size, list):
+                veh_size = [veh_size]
+            if len(veh_size) == 1:
+                self.veh_size = 2*veh_size
             else:
-                self.veh_size = options['veh_size']
+                self.veh_size = veh_size
         else:
             # must consist of an offset in x- and y-direction
             self.veh_size = [0.,0.]
-- 
2.43.0


From daf675790616dc751b614246ee7b6542e4275c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:19 +0000
Subject: [PATCH 28/51] fix: AStarPlanner returns a path of which the goal was
 the last open node

---
 omgtools/problems/globalplanner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index 48f6ef4..931acbb 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -199,7 +199,7 @@ class AStarPlanner(GlobalPlanner):
             self.remove_from_open_list(self.current_node)
             self.closed_list.append(self.current_node)
 
-            if not self.open_list:
+            if not self.open_list and self.current_node.pos != self.goal:
                 # current node is not the goal, and open list is empty
                 # check if there are neigbors left which you can reach and are not yet visited
                 neighbors = self.grid.get_neighbors(self.current_node.pos)
-- 
2.43.0


From cb6cbf5e1cda6cd54b3af6faa947a151c9571748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:33 +0000
Subject: [PATCH 29/51] fix: grid cells crossed by a thin obstacle are occupied

---
 omgtools/problems/globalplanner.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index 931acbb..654c8a3 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -509,7 +509,14 @@ class Grid(object):
                                         # avoid adding the same cell multiple times
                                         if cell not in occ_cells:
                                             occ_cells.append(cell)
+                                        blocked = True  # cell is blocked, go to next cell
                                         break  # one obstacle vertex is inside the cell, go to next cell
+                        # an obstacle can also cross the cell without any vertex of one inside the other
+                        if not blocked:
+                            cell_limits = np.round([cell_vertices.min(axis=0), cell_vertices.max(axis=0)], 4)
+                            if (min(vertices[:,0]) < cell_limits[1][0] and max(vertices[:,0]) > cell_limits[0][0] and
+                                min(vertices[:,1]) < cell_limits[1][1] and max(vertices[:,1]) > cell_limits[0][1]):
+                                occ_cells.append(cell)
                 # if cell is found to be occupied, remove it, i.e. don't check again for next obstacle
                 for cell in occ_cells:
                     cells.remove(cell)
-- 
2.43.0


From 63553136f1c43682350805a30fe82b699f9c7767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:48 +0000
Subject: [PATCH 30/51] fix: a point on an occupied cell moves to the closest
 free neighbour

---
 omgtools/problems/globalplanner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omgtools/problems/globalplanner.py b/omgtools/problems/globalplanner.py
index 654c8a3..5b31cb1 100644
--- a/omgtools/problems/globalplanner.py
+++ b/omgtools/problems/globalplanner.py
@@ -395,8 +395,9 @@ class Grid(object):
                 # use an upper bound on this to avoid taking sqrt a lot to
                 # initialize d_min
                 d_min = 2*max(self.cell_height, self.cell_width)
+                occupied_point = moved_point
                 for p in points_to_check:
-                    distance = self.distance_between_cells(p, moved_point)
+                    distance = self.distance_between_cells(p, occupied_point)
                     if distance < d_min:
                         d_min = distance
                         moved_point = p
-- 
2.43.0


From fe06f847a4276574e939e43ea720326d160c0be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:43 +0000
Subject: [PATCH 31/51] fix: resetting the initial guess to that of the
 vehicles

---
 omgtools/problems/problem.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/omgtools/problems/problem.py b/omgtools/problems/problem.py
index 9f530a8..9e39299 100644
--- a/omgtools/problems/problem.py
+++ b/omgtools/problems/problem.py
@@ -163,22 +163,22 @@ class Problem(OptiChild, PlotLayer):
             vehicle.predict(current_time, predict_time, sample_time, states[k], inputs[k], dinputs[k], delay, enforce_states, enforce_inputs)
 
     def reset_init_guess(self, init_guess=None):
-            if init_guess is None:  # no user provided initial guess
-                init_guess = []
-                for k, vehicle in enumerate(self.vehicles):  # build list
-                    init_guess.append(vehicle.get_init_spline_value())
-            elif not isinstance(init_guess, list):  # guesses must be in a list
+            if init_guess is not None and not isinstance(init_guess, list):  # guesses must be in a list
                 init_guess = [init_guess]
 
             for k, vehicle in enumerate(self.vehicles):
-                if len(init_guess) != vehicle.n_seg:
+                if init_guess is None:  # no user provided initial guess
+                    guess = vehicle.get_init_spline_value()
+                else:
+                    guess = init_guess
+                if len(guess) != vehicle.n_seg:
                     raise ValueError('Each spline segment of the vehicle should receive an initial guess.')
                 else:
                     for l in range(vehicle.n_seg):
-                        if init_guess[l].shape[1] != vehicle.n_spl:
+                        if guess[l].shape[1] != vehicle.n_spl:
                             raise ValueError('Each vehicle spline should receive an initial guess.')
                         else:
-                            self.father.set_variables(init_guess[l].tolist(),child=vehicle, name='splines_seg'+str(l))
+                            self.father.set_variables(guess[l].tolist(),child=vehicle, name='splines_seg'+str(l))
 
     # ========================================================================
     # Simulation related functions
-- 
2.43.0


From e4a0a282c03bd95b6c7f4cb93d3f450f53d439cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:45 +0000
Subject: [PATCH 32/51] fix: initial guesses of HolonomicOrient (orientation
 was left at zero) and Holonomic1D (shape)

---
 omgtools/vehicles/holonomic1d.py     | 3 ++-
 omgtools/vehicles/holonomicorient.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/omgtools/vehicles/holonomic1d.py b/omgtools/vehicles/holonomic1d.py
index 9560557..9f9f517 100644
--- a/omgtools/vehicles/holonomic1d.py
+++ b/omgtools/vehicles/holonomic1d.py
@@ -78,7 +78,8 @@ class Holonomic1D(Vehicle):
         pos0 = self.prediction['state'][0]
         posT = self.poseT[0]
         # init_value = np.r_[pos0[0]*np.ones(self.degree), np.linspace(pos0[0], posT[0], len(self.basis) - 2*self.degree), posT[0]*np.ones(self.degree)]
-        init_value = np.linspace(pos0, posT, len(self.basis))
+        init_value = np.zeros((len(self.basis), 1))
+        init_value[:, 0] = np.linspace(pos0, posT, len(self.basis))
         init_value = [init_value]
         return init_value
 
diff --git a/omgtools/vehicles/holonomicorient.py b/omgtools/vehicles/holonomicorient.py
index 6822e9b..e8f95dc 100644
--- a/omgtools/vehicles/holonomicorient.py
+++ b/omgtools/vehicles/holonomicorient.py
@@ -128,7 +128,7 @@ class HolonomicOrient(Vehicle):
         poseT = np.zeros(3)
         poseT[:2] = self.poseT[:2]  # x,y,theta[rad]
         poseT[2] =  np.tan(self.poseT[2]/2)  # tg_ha
-        for k in range(2):
+        for k in range(3):
             # init_value[:, k] = np.r_[pos0[k]*np.ones(self.degree), np.linspace(
             #     pos0[k], posT[k], len(self.basis) - 2*self.degree), posT[k]*np.ones(self.degree)]
             init_value[:, k] = np.linspace(pose0[k], poseT[k], len(self.basis))
-- 
2.43.0


From f778a29fa3ec2c865bcee8e19da951e95ec69826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:35 +0000
Subject: [PATCH 33/51] fix: a formation of two vehicles has a constraint (both
 couples were dropped)

---
 omgtools/problems/formation_central.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/formation_central.py b/omgtools/problems/formation_central.py
index 6019b84..5febdf6 100644
--- a/omgtools/problems/formation_central.py
+++ b/omgtools/problems/formation_central.py
@@ -53,7 +53,7 @@ class FormationPoint2pointCentral(FixedTPoint2point):
             for nghb in self.fleet.get_neighbors(veh):
                 if veh not in couples[nghb] and nghb not in couples[veh]:
                     couples[veh].append(nghb)
-        if self.fleet.interconnection == 'circular':
+        if self.fleet.interconnection == 'circular' and self.fleet.N > 2:
             couples.pop(self.vehicles[-1], None)
             couples.pop(self.vehicles[-2], None)
 
-- 
2.43.0


From 3f031a34b6c7b43e8a2d354fd96b482fb3f4bb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:35 +0000
Subject: [PATCH 34/51] fix: the reported fleet centre of Dubins vehicles
 follows the convention of its constraint

---
 omgtools/vehicles/dubins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/vehicles/dubins.py b/omgtools/vehicles/dubins.py
index 4c71880..e784573 100644
--- a/omgtools/vehicles/dubins.py
+++ b/omgtools/vehicles/dubins.py
@@ -293,8 +293,8 @@ class Dubins(Vehicle):
         signals['input'] = np.c_[v_s, dtheta.T].T
         signals['acc'] = np.c_[acc_s].T
         if hasattr(self, 'rel_pos_c'):
-            x_c = x_s + sample_splines([self.rel_pos_c[0]*2*tg_ha + self.rel_pos_c[1]*(1-tg_ha**2)], time)[0]/den
-            y_c = y_s + sample_splines([self.rel_pos_c[1]*2*tg_ha - self.rel_pos_c[0]*(1-tg_ha**2)], time)[0]/den
+            x_c = x_s + sample_splines([self.rel_pos_c[0]*(1-tg_ha**2) - self.rel_pos_c[1]*2*tg_ha], time)[0]/den
+            y_c = y_s + sample_splines([self.rel_pos_c[0]*2*tg_ha + self.rel_pos_c[1]*(1-tg_ha**2)], time)[0]/den
             signals['fleet_center'] = np.c_[x_c, y_c].T
 
         if (self.options['substitution']): # and not self.options['exact_substitution']):  # don't plot error for exact_subs
-- 
2.43.0


From 6c7eb777fad6d49e6eb09fb773324ce4f845a061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:11 +0000
Subject: [PATCH 35/51] fix: z-update and residuals of ADMM use the remaining
 part of the splines (the transformed variables were dropped)

---
 omgtools/problems/admm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/omgtools/problems/admm.py b/omgtools/problems/admm.py
index 20b2c3f..3e87c48 100644
--- a/omgtools/problems/admm.py
+++ b/omgtools/problems/admm.py
@@ -141,8 +141,8 @@ class ADMM(DualUpdater):
         l_ij = self.q_ij_struct(l_ij)
         # transform spline variables: only consider future piece of spline
         tf = lambda cfs, basis: shift_knot1_fwd(cfs, basis, t0)
-        self._transform_spline([x_i, l_i], tf, self.q_i)
-        self._transform_spline([x_j, l_ij], tf, self.q_ij)
+        x_i, l_i = self._transform_spline([x_i, l_i], tf, self.q_i)
+        x_j, l_ij = self._transform_spline([x_j, l_ij], tf, self.q_ij)
         # fill in parameters
         A = A(par.cat)
         b = b(par.cat)
@@ -159,8 +159,8 @@ class ADMM(DualUpdater):
         z_ij_new = self.q_ij_struct(z[l_qi:l_qi+l_qij])
         # transform back
         tf = lambda cfs, basis: shift_knot1_bwd(cfs, basis, t0)
-        self._transform_spline(z_i_new, tf, self.q_i)
-        self._transform_spline(z_ij_new, tf, self.q_ij)
+        z_i_new = self._transform_spline(z_i_new, tf, self.q_i)
+        z_ij_new = self._transform_spline(z_ij_new, tf, self.q_ij)
         out = [z_i_new.cat, z_ij_new.cat]
         # create problem
         prob, buildtime = create_function('upd_z_'+str(self._index), inp, out, self.options)
@@ -292,8 +292,8 @@ class ADMM(DualUpdater):
         x_j = self.q_ij_struct(x_j)
         # transform spline variables: only consider future piece of spline
         tf = lambda cfs, basis: shift_knot1_fwd(cfs, basis, t0)
-        self._transform_spline([x_i, z_i, z_i_p], tf, self.q_i)
-        self._transform_spline([x_j, z_ij, z_ij_p], tf, self.q_ij)
+        x_i, z_i, z_i_p = self._transform_spline([x_i, z_i, z_i_p], tf, self.q_i)
+        x_j, z_ij, z_ij_p = self._transform_spline([x_j, z_ij, z_ij_p], tf, self.q_ij)
         # compute residuals
         pr = mtimes((x_i.cat-z_i.cat).T, (x_i.cat-z_i.cat))
         pr += mtimes((x_j.cat-z_ij.cat).T, (x_j.cat-z_ij.cat))
-- 
2.43.0


From f8326188073088424bd609ab6596397dc05efc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:06 +0000
Subject: [PATCH 36/51] fix: primal residual of dual decomposition (squared
 norms were squared again)

---
 omgtools/problems/dualdecomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/dualdecomposition.py b/omgtools/problems/dualdecomposition.py
index 0dd2ac7..b0444ac 100644
--- a/omgtools/problems/dualdecomposition.py
+++ b/omgtools/problems/dualdecomposition.py
@@ -291,7 +291,7 @@ class DDProblem(DualProblem):
             t2, pr = updater.get_residuals(current_time)
             t_upd_l = max(t_upd_l, t1)
             t_res = max(t_res, t2)
-            p_res += pr**2
+            p_res += pr  # pr represents a squared value
         p_res = np.sqrt(p_res)
         for updater in self.updaters:
             updater.communicate()
-- 
2.43.0


From c919f4e8e1c30360ad59d2be39efb42e92e3b032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 37/51] fix: raise the errors the spline operators construct

---
 omgtools/basics/spline.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/omgtools/basics/spline.py b/omgtools/basics/spline.py
index ce8ac4d..1f72896 100644
--- a/omgtools/basics/spline.py
+++ b/omgtools/basics/spline.py
@@ -402,7 +402,7 @@ class BSpline(Spline):
                 basis = self.basis
                 coeffs = self.coeffs + other  # Only for BSpline!
             except:
-                NotImplementedError("Incompatible datatype")
+                raise NotImplementedError("Incompatible datatype")
         return self.__class__(basis, coeffs)
 
     __radd__ = __add__
@@ -440,7 +440,7 @@ class BSpline(Spline):
                 coeffs = other * self.coeffs
                 return self.__class__(basis, coeffs)
             except:
-                NotImplementedError("Incompatible datatype")
+                raise NotImplementedError("Incompatible datatype")
 
     def __rmul__(self, other):
         return self.__mul__(other)
@@ -453,7 +453,7 @@ class BSpline(Spline):
                 a *= self
             return a
         else:
-            TypeError("Exponent must be integer")
+            raise TypeError("Exponent must be integer")
 
     def __div__(self, other):
         basis = self.basis + other.basis
@@ -620,7 +620,7 @@ class TensorBSpline(object):
                 basis = self.basis
                 coeffs = self.coeffs + other  # Only for BSpline!
             except:
-                NotImplementedError("Incompatible datatype")
+                raise NotImplementedError("Incompatible datatype")
         return self.__class__(basis, coeffs, self.var)
 
     __radd__ = __add__
@@ -655,7 +655,7 @@ class TensorBSpline(object):
                 basis = self.basis
                 coeffs = self.coeffs * other
             except:
-                NotImplementedError("Incompatible datatype")
+                raise NotImplementedError("Incompatible datatype")
         return self.__class__(basis, coeffs, self.var)
 
     __rmul__ = __mul__
-- 
2.43.0


From 4942f7724ad10b16ed6d9ed7d664fe34aaddf356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 38/51] fix: integral of a two-dimensional tensor spline needs
 no cvxopt

---
 omgtools/basics/spline.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/omgtools/basics/spline.py b/omgtools/basics/spline.py
index 1f72896..c686ccd 100644
--- a/omgtools/basics/spline.py
+++ b/omgtools/basics/spline.py
@@ -18,7 +18,10 @@
 # Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA
 
 import functools
-#import cvxopt
+try:
+    import cvxopt
+except ImportError:
+    cvxopt = None  # only for coefficients of cvxopt or cvxpy
 import numpy as np
 import scipy.linalg as la
 import casadi as cas
@@ -671,7 +674,7 @@ class TensorBSpline(object):
         deg = [b.degree for b in self.basis]
         K = [(k[d + 1:] - k[:-(d + 1)]) / (d + 1)
              for (k, d) in zip(knots, deg)]
-        if self.dims() == 2: #get_module(self.coeffs) in ['cvxpy', 'cvxopt']:
+        if self.dims() == 2 and get_module(self.coeffs) in ['cvxpy', 'cvxopt']:
             i = cvxopt.matrix(K[0]).T * self.coeffs * cvxopt.matrix(K[1])
             return i
         i = np.inner(K[-1], coeffs)
-- 
2.43.0


From 46a9950e3e1cc2c41f0ee6b4362906681ac9b5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 39/51] fix: import the message box of the G-code reader

---
 omgtools/gui/gcode_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omgtools/gui/gcode_reader.py b/omgtools/gui/gcode_reader.py
index 3583a43..e549ce6 100644
--- a/omgtools/gui/gcode_reader.py
+++ b/omgtools/gui/gcode_reader.py
@@ -1,9 +1,11 @@
 try:
   import tkinter as tk
   import tkinter.filedialog as tkfiledialog
+  import tkinter.messagebox as tkmessagebox
 except ImportError:
   import Tkinter as tk
   import tkFileDialog as tkfiledialog
+  import tkMessageBox as tkmessagebox
 import numpy as np
 from matplotlib import pyplot as plt
 from mpl_toolkits.mplot3d import Axes3D
-- 
2.43.0


From a8eb858ed02f25af41a7e2da632de4e933479a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 40/51] fix: undefined names and removed functions in the svg
 reader

---
 omgtools/gui/svg_reader.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/omgtools/gui/svg_reader.py b/omgtools/gui/svg_reader.py
index cf0d9f1..5abfc6a 100644
--- a/omgtools/gui/svg_reader.py
+++ b/omgtools/gui/svg_reader.py
@@ -208,12 +208,12 @@ class SVGReader(object):
                     obstacle['width'] =  stroke_width
                     obstacle['height'] = abs(line[1])
                     h = line[1]
-                    w = cmp(h,0)*stroke_width  # give stroke_width same sign as h
+                    w = np.sign(h)*stroke_width  # give stroke_width same sign as h
                 elif line[1] == 0:  # horizontal line
                     obstacle['width'] = abs(line[0])
                     obstacle['height'] = stroke_width
                     w = line[0]
-                    h = cmp(w,0)*stroke_width  # give stroke_width same sign as w
+                    h = np.sign(w)*stroke_width  # give stroke_width same sign as w
                 else:
                     raise RuntimeError('Diagonal lines are not yet supported')
                 obstacle['pos'] = [vertices[l][0] + w*0.5, vertices[l][1] + h*0.5]
@@ -243,12 +243,12 @@ class SVGReader(object):
                 obstacle['width'] =  stroke_width
                 obstacle['height'] = abs(y2-y1)
                 h = y2-y1  # signed value
-                w = cmp(h,0)*stroke_width
+                w = np.sign(h)*stroke_width
             elif y1 == y2:  # horizontal line
                 obstacle['width'] = abs(x2-x1)
                 obstacle['height'] = stroke_width
                 w = x2-x1  # signed value
-                h = cmp(w,0)*stroke_width
+                h = np.sign(w)*stroke_width
             else:
                 raise RuntimeError('Diagonal lines are not yet supported')
 
@@ -328,7 +328,7 @@ class SVGReader(object):
         # The paths are supposed to represent circle segments, if they don't,
         # a circle approximation of the curve is used.
 
-        children = self.tree.getchildren()  # the xml-tree
+        children = list(self.tree)  # the xml-tree
         self.commands = []  # holds the GCode commands
 
         for idx, child in enumerate(children):
@@ -421,7 +421,7 @@ class SVGReader(object):
                                 cx = mid1[0]
                                 rico2 = (p3[1]-p2[1])/(p3[0]-p2[0])
                                 normal2 = -1/rico2
-                                cy = mid2[1] + normal2*(x-mid2[0])
+                                cy = mid2[1] + normal2*(cx-mid2[0])
                             elif p2[1] == p1[1]:
                                 # horizontal bisector1
                                 cy = mid1[1]
@@ -433,7 +433,7 @@ class SVGReader(object):
                                 cx = mid2[0]
                                 rico1 = (p2[1]-p1[1])/(p2[0]-p1[0])
                                 normal1 = -1/rico1
-                                cy = mid1[1] + normal1*(x-mid1[0])
+                                cy = mid1[1] + normal1*(cx-mid1[0])
                             elif p2[1] == p3[1]:
                                 # horizontal bisector2
                                 cy = mid2[1]
@@ -444,10 +444,10 @@ class SVGReader(object):
                                 # two diagonal bisectors
                                 rico1 = (p2[1]-p1[1])/(p2[0]-p1[0])
                                 normal1 = -1/rico1
-                                # y = mid1[1] + normal1*(x-mid1[0]) [1]
+                                # y = mid1[1] + normal1*(cx-mid1[0]) [1]
                                 rico2 = (p3[1]-p2[1])/(p3[0]-p2[0])
                                 normal2 = -1/rico2
-                                # y = mid2[1] + normal2*(x-mid2[0]) [2]
+                                # y = mid2[1] + normal2*(cx-mid2[0]) [2]
 
                                 # [1] = [2] --> x =
                                 if normal2 != normal1:
@@ -518,7 +518,7 @@ class SVGReader(object):
                     else:
                         # there are no curves in the path, probably it just contains a move command
                         # so it represents a GCode line segment
-                        self.commands.append('G01 X'+str(end_curve[0])+' Y'+str(end_curve[1]))
+                        self.commands.append('G01 X'+str(curve_point1[0])+' Y'+str(curve_point1[1]))
                 else:
                     raise RuntimeError('Only absolute positioning of the start of the curve is supported for now')
 
-- 
2.43.0


From f55159b87e9824828cac4339cfa10d58da5d4080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 41/51] fix: start angle of a clockwise arc in the XZ-plane

---
 omgtools/gui/gcode_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/gui/gcode_block.py b/omgtools/gui/gcode_block.py
index 967437c..79cbc04 100644
--- a/omgtools/gui/gcode_block.py
+++ b/omgtools/gui/gcode_block.py
@@ -124,7 +124,7 @@ class G02(GCodeBlock):
             # arc in XZ-plane
 
             # compute angle of both vectors with horizontal axes
-            angle1 = angle1
+            angle1 = np.arctan2(self.Z0-self.center[2], self.X0-self.center[0])
             angle2 = np.arctan2(self.Z1-self.center[2], self.X1-self.center[0])
 
             if angle1 < angle2:
-- 
2.43.0


From d80088904ad49d389bdf80919e6cbe5f36dd3c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 42/51] fix: message about a missing template of the export

---
 omgtools/export/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/export/export.py b/omgtools/export/export.py
index 3968452..996884d 100755
--- a/omgtools/export/export.py
+++ b/omgtools/export/export.py
@@ -193,7 +193,7 @@ class Export(object):
                     f.truncate()
                     f.write(body)
                 else:
-                    raise ValueError('File '+os.path.join(self.src_dir, fil) +
+                    raise ValueError('File '+fil+
                                      ' does not exist!')
 
     def export_casadi_problems(self, destination, father, problem):
-- 
2.43.0


From 6011d30268411eb3cbe429d3035331a897eb19f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 43/51] fix: arguments of the next shift frame

---
 omgtools/problems/schedulerproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 37edcf5..2771556 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -393,7 +393,7 @@ class SchedulerProblem(Problem):
             start_position = frame.endpoint  # start at end of current frame
             if frame.type == 'shift':
                 next_frame = ShiftFrame(self.environment, start_position, self.frame_size, self.move_limit,
-                                   self.global_path, self.options)
+                                   self.global_path, self.veh_size, self.margin, self.options)
             elif frame.type == 'corridor':
                 next_frame = CorridorFrame(self.environment, start_position, self.global_path,
                                    self.veh_size, self.margin, self.options)
-- 
2.43.0


From 2c605c08dffc0dcfea466d7a0853486723bee4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 44/51] fix: the leading vehicle of a trailer uses the horizon
 time of the trailer

---
 omgtools/vehicles/trailer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/vehicles/trailer.py b/omgtools/vehicles/trailer.py
index 3b7856d..ebc2ed3 100644
--- a/omgtools/vehicles/trailer.py
+++ b/omgtools/vehicles/trailer.py
@@ -64,7 +64,7 @@ class Trailer(Vehicle):
         self.define_constraint(tg_ha_veh - tg_ha_tr - np.tan(self.tmax/2.), -inf, 0.)
         self.define_constraint(-tg_ha_veh + tg_ha_tr + np.tan(self.tmin/2.), -inf, 0.)
         # call lead_veh trajectory constraints
-        self.lead_veh.define_trajectory_constraints(splines[1: ])
+        self.lead_veh.define_trajectory_constraints(splines[1: ], horizon_time)
 
     def get_initial_constraints(self, splines, horizon_time=None):
         # trailer has a certain theta0 --> trailer position follows from this
@@ -75,7 +75,7 @@ class Trailer(Vehicle):
         tg_ha_tr = splines[0]
         dtg_ha_tr = tg_ha_tr.derivative()
         con_tr = [(tg_ha_tr, tg_ha_tr0), (dtg_ha_tr, horizon_time*dtg_ha_tr0)]
-        con_veh = self.lead_veh.get_initial_constraints(splines[1:])
+        con_veh = self.lead_veh.get_initial_constraints(splines[1:], horizon_time)
         return con_tr + con_veh  # put in one list
 
     def get_terminal_constraints(self, splines, horizon_time=None):
-- 
2.43.0


From d229062d24942e0e28b4f14db33bb22fd4df44ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:05 +0000
Subject: [PATCH 45/51] fix: an obstacle does not change the initial state it
 is given

---
 omgtools/environment/obstacle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omgtools/environment/obstacle.py b/omgtools/environment/obstacle.py
index d092e90..28d0283 100644
--- a/omgtools/environment/obstacle.py
+++ b/omgtools/environment/obstacle.py
@@ -47,6 +47,7 @@ class ObstaclexD(OptiChild):
     def __init__(self, initial, shape, simulation, options):
         OptiChild.__init__(self, 'obstacle')
         self.simulation = simulation
+        initial = dict(initial)  # the values below are not for the caller
         if 'trajectories' in simulation:
             for key in simulation['trajectories']:
                 # user specified a value at time 0
-- 
2.43.0


From 5de3df96e66343ec7f0548dc0cea3f7304ccb021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:05 +0000
Subject: [PATCH 46/51] fix: a frame does not change the options it is given,
 nor its default

---
 omgtools/environment/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/environment/frame.py b/omgtools/environment/frame.py
index d951fe7..0395484 100644
--- a/omgtools/environment/frame.py
+++ b/omgtools/environment/frame.py
@@ -39,7 +39,7 @@ class Frame(object):
         self.moving_obstacles = []  # moving obstacles inside the frame
         self.waypoints = []  # waypoints of the global path inside the frame
         self.endpoint = []  # goal position within the frame
-        self.options = options
+        self.options = dict(options)
         if not 'verbose' in options:
             self.options['verbose'] = 2  # default value
         # set sample time used to check if moving obstacle is inside the frame,
-- 
2.43.0


From 056b6aaca20e84dd86328744a1eb1a5929ed0ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:05 +0000
Subject: [PATCH 47/51] fix: the schedulers do not change the options they are
 given

---
 omgtools/problems/gcodeschedulerproblem.py | 2 +-
 omgtools/problems/schedulerproblem.py      | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index ddf4ee9..5f54b85 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -59,7 +59,7 @@ class GCodeSchedulerProblem(Problem):
         Problem.__init__(self, tool, environment, options, label='schedulerproblem')
         self.curr_state = self.vehicles[0].prediction['state'] # initial vehicle position
         self.goal_state = self.vehicles[0].poseT # overall goal
-        self.problem_options = options  # e.g. selection of problem type (freeT, fixedT)
+        self.problem_options = dict(options)  # e.g. selection of problem type (freeT, fixedT)
         self.problem_options['freeT'] = True  # only this one is available
 
         self.n_current_block = 0  # number of the block that the tool will follow next/now
diff --git a/omgtools/problems/schedulerproblem.py b/omgtools/problems/schedulerproblem.py
index 2771556..90dad95 100644
--- a/omgtools/problems/schedulerproblem.py
+++ b/omgtools/problems/schedulerproblem.py
@@ -39,10 +39,11 @@ import warnings
 class SchedulerProblem(Problem):
 
     def __init__(self, fleet, environment, global_planner=None, options=None, **kwargs):
+        options = options or {}
         Problem.__init__(self, fleet, environment, options, label='schedulerproblem')
         self.curr_state = self.vehicles[0].prediction['state'] # initial vehicle position
         self.goal_state = self.vehicles[0].poseT # overall goal
-        self.problem_options = options  # e.g. selection of problem type (freeT, fixedT)
+        self.problem_options = dict(options)  # e.g. selection of problem type (freeT, fixedT)
         if not 'freeT' in options:
             # select default type
             self.problem_options['freeT'] = True
-- 
2.43.0


From 563eb286271a6910bea960042f547a3f6a1fe8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:05 +0000
Subject: [PATCH 48/51] fix: the initial guess of a holonomic vehicle does not
 change the subgoals it is given

---
 omgtools/vehicles/holonomic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omgtools/vehicles/holonomic.py b/omgtools/vehicles/holonomic.py
index 5929d0b..3351c6c 100644
--- a/omgtools/vehicles/holonomic.py
+++ b/omgtools/vehicles/holonomic.py
@@ -131,8 +131,8 @@ class Holonomic(Vehicle):
                                     +'cannot compute initial guess')
             else:
                 init_value = []
-                subgoals.insert(0, pos0)  # add initial pos
-                subgoals.append(posT)  # add goal pos
+                # add initial pos and goal pos
+                subgoals = [pos0] + list(subgoals) + [posT]
                 for l in range(len(subgoals)-1):
                     init_val = np.zeros((len(self.basis), 2))
                     for k in range(2):
-- 
2.43.0


From 85280df4cf35f176313f3d8d8e0e09b5d6ceb3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:11 +0000
Subject: [PATCH 49/51] fix: an arc is not changed by the scheduler: its center
 grew by three zeros for every problem made of it

---
 omgtools/problems/gcodeschedulerproblem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omgtools/problems/gcodeschedulerproblem.py b/omgtools/problems/gcodeschedulerproblem.py
index 5f54b85..29ec93b 100644
--- a/omgtools/problems/gcodeschedulerproblem.py
+++ b/omgtools/problems/gcodeschedulerproblem.py
@@ -549,7 +549,7 @@ class GCodeSchedulerProblem(Problem):
             # make a single ring segment
             shape = Ring(radius_in = radius_in, radius_out = radius_out,
                          start = start, end = end, direction = direction)
-            pose = block.center
+            pose = list(block.center)
             pose.extend([0.,0.,0.])  # [x,y,z,orientation], ring always has orientation 0
             new_room = [{'shape': shape, 'pose': pose, 'position': pose[:2], 'draw':True,
                         'start': block.start, 'end': block.end, 'number':number}]
-- 
2.43.0


From 1e793151e0034fc1b40c52ff2c621decf3159b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:21 +0000
Subject: [PATCH 50/51] fix: time2index returns the nearest sample (it returned
 None for a time in the second half of a sample interval)

---
 omgtools/execution/simulator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omgtools/execution/simulator.py b/omgtools/execution/simulator.py
index 565daa3..bdac4e9 100644
--- a/omgtools/execution/simulator.py
+++ b/omgtools/execution/simulator.py
@@ -150,5 +150,7 @@ class Simulator:
         Ts = self.sample_time
         for k, t in enumerate(self.time):
             t = np.round(t, 6)
-            if (t <= time) and (time < (t+Ts)) and ((time-t) <= (t+Ts-time)):
-                return k
+            if (t <= time) and (time < (t+Ts)):
+                if (time-t) <= (t+Ts-time):
+                    return k
+                return min(k+1, len(self.time)-1)
-- 
2.43.0


From 1d0dd6261a5bd7499391d74acc8a3d8e07b69ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:21 +0000
Subject: [PATCH 51/51] fix: remove the breakpoint left in the deployer (an
 update that is not solved stopped in the debugger)

---
 omgtools/execution/deployer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/omgtools/execution/deployer.py b/omgtools/execution/deployer.py
index 8f2ea9a..2db89fc 100644
--- a/omgtools/execution/deployer.py
+++ b/omgtools/execution/deployer.py
@@ -190,7 +190,6 @@ class Deployer:
             self.problem.no_update = False
         elif not self.problem.local_problem.problem.stats()['return_status'] == 'Solve_Succeeded':
             # problem was not solved well, don't go to next segment
-            import pdb; pdb.set_trace()  # breakpoint f9e5f88a //
             self.problem.no_update = True
             # reset saved trajectories
             # i.e. trajectories starting at the starting point of trajectory that was not successfully computed
-- 
2.43.0

