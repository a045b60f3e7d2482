From b52b45632eb35206998c4c5e3cbcb8016d39349e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:22 +0000
Subject: [PATCH 01/35] fix: G92 re-labels coordinates without moving the
 machine

The offset was computed with the wrong sign, so setting a non-zero position
made the machine jump. Keep the machine position itself and derive only the
offset of the following absolute coordinates from G92.
---
 pyGCodeDecode/state_generator.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index fc370c8..6c86064 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -240,10 +240,10 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
 
     # initial state creation
     state_position = position(
-        virtual_machine["X"] + virtual_machine["_X"],
-        virtual_machine["Y"] + virtual_machine["_Y"],
-        virtual_machine["Z"] + virtual_machine["_Z"],
-        virtual_machine["E"] + virtual_machine["_E"],
+        virtual_machine["X"],
+        virtual_machine["Y"],
+        virtual_machine["Z"],
+        virtual_machine["E"],
     )
 
     p_settings = state.p_settings(
@@ -292,14 +292,14 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
                 for key in pos_keys:
                     if key in line_dict[command]:
                         if virtual_machine["absolute_position"] is True:
-                            virtual_machine[key] = line_dict[command][key]
+                            virtual_machine[key] = line_dict[command][key] + virtual_machine["_" + key]
                         elif virtual_machine["absolute_position"] is False:  # redundant
                             virtual_machine[key] = virtual_machine[key] + line_dict[command][key]
 
                 # look for extrusion commands and apply abs/rel
                 if "E" in line_dict[command]:
                     if virtual_machine["absolute_extrusion"] is True:
-                        virtual_machine["E"] = line_dict[command]["E"]
+                        virtual_machine["E"] = line_dict[command]["E"] + virtual_machine["_E"]
                     if virtual_machine["absolute_extrusion"] is False:  # redundant
                         virtual_machine["E"] = virtual_machine["E"] + line_dict[command]["E"]
                 if "F" in line_dict[command]:
@@ -309,10 +309,8 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
         if "G92" in line_dict:
             for key in line_dict["G92"]:
                 if key in known_commands["G92"]:
-                    virtual_machine["_" + key] = (
-                        virtual_machine[key] + line_dict["G92"][key] + virtual_machine["_" + key]
-                    )
-                    virtual_machine[key] = line_dict["G92"][key]
+                    # the machine stays where it is, only the origin of the following coordinates changes
+                    virtual_machine["_" + key] = virtual_machine[key] - line_dict["G92"][key]
 
         # set acceleration
         if "M204" in line_dict and "P" in line_dict["M204"]:
@@ -337,10 +335,10 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
                 pause_duration = line_dict["G4"]["S"]
 
         state_position = position(
-            virtual_machine["X"] + virtual_machine["_X"],
-            virtual_machine["Y"] + virtual_machine["_Y"],
-            virtual_machine["Z"] + virtual_machine["_Z"],
-            virtual_machine["E"] + virtual_machine["_E"],
+            virtual_machine["X"],
+            virtual_machine["Y"],
+            virtual_machine["Z"],
+            virtual_machine["E"],
         )
 
         p_settings = state.p_settings(
-- 
2.43.0


From bf916e15b53a36537e1391a083f68d734f58ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 02/35] fix: interpret arguments in inches after G20

G20 only changed the unit flag of the states, the following coordinates and
feed rates were still taken as millimeters.
---
 pyGCodeDecode/state_generator.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index 6c86064..1114322 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -283,6 +283,9 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
         if "G21" in line_dict:
             virtual_machine["units"] = "SImm"
 
+        # lengths are stored in mm, convert the arguments given in the current unit
+        scale = 25.4 if virtual_machine["units"] == "inch" else 1.0
+
         # position & velocity
         pos_keys = ["X", "Y", "Z"]
         movement_commands = ["G0", "G1"]
@@ -292,39 +295,39 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
                 for key in pos_keys:
                     if key in line_dict[command]:
                         if virtual_machine["absolute_position"] is True:
-                            virtual_machine[key] = line_dict[command][key] + virtual_machine["_" + key]
+                            virtual_machine[key] = scale * line_dict[command][key] + virtual_machine["_" + key]
                         elif virtual_machine["absolute_position"] is False:  # redundant
-                            virtual_machine[key] = virtual_machine[key] + line_dict[command][key]
+                            virtual_machine[key] = virtual_machine[key] + scale * line_dict[command][key]
 
                 # look for extrusion commands and apply abs/rel
                 if "E" in line_dict[command]:
                     if virtual_machine["absolute_extrusion"] is True:
-                        virtual_machine["E"] = line_dict[command]["E"] + virtual_machine["_E"]
+                        virtual_machine["E"] = scale * line_dict[command]["E"] + virtual_machine["_E"]
                     if virtual_machine["absolute_extrusion"] is False:  # redundant
-                        virtual_machine["E"] = virtual_machine["E"] + line_dict[command]["E"]
+                        virtual_machine["E"] = virtual_machine["E"] + scale * line_dict[command]["E"]
                 if "F" in line_dict[command]:
-                    virtual_machine["p_vel"] = line_dict[command]["F"] / 60
+                    virtual_machine["p_vel"] = scale * line_dict[command]["F"] / 60
 
         # set position
         if "G92" in line_dict:
             for key in line_dict["G92"]:
                 if key in known_commands["G92"]:
                     # the machine stays where it is, only the origin of the following coordinates changes
-                    virtual_machine["_" + key] = virtual_machine[key] - line_dict["G92"][key]
+                    virtual_machine["_" + key] = virtual_machine[key] - scale * line_dict["G92"][key]
 
         # set acceleration
         if "M204" in line_dict and "P" in line_dict["M204"]:
-            virtual_machine["p_acc"] = line_dict["M204"]["P"]
+            virtual_machine["p_acc"] = scale * line_dict["M204"]["P"]
 
         # set max feedrate
         if "M203" in line_dict:
             for key in line_dict["M203"]:
                 if key in known_commands["M203"]:
-                    virtual_machine["v" + key] = line_dict["M203"][key]
+                    virtual_machine["v" + key] = scale * line_dict["M203"][key]
 
         # set advanced settings
         if "M205" in line_dict and "X" in line_dict["M205"]:
-            virtual_machine["jerk"] = line_dict["M205"]["X"]
+            virtual_machine["jerk"] = scale * line_dict["M205"]["X"]
 
         # dwell
         pause_duration = None
-- 
2.43.0


From 7329f33c637203d2ad118d1e2c7282a292716ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 03/35] fix: allow a dwell before the first move

A G4 that precedes all moves has no previous planner block to start from and
raised an AttributeError.
---
 pyGCodeDecode/planner_block.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 9c43909..f7ceae9 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -327,12 +327,17 @@ class planner_block:
         # dwell functionality
         if self.state_B.pause is not None:
             self.JD = [0, 0, 0, 0]
+            previous_segment = (
+                self.prev_block.segments[-1]
+                if self.prev_block is not None
+                else segment.create_initial(initial_position=self.state_A.state_position)
+            )
             self.segments = [
                 segment(
-                    t_begin=self.prev_block.segments[-1].t_end,
-                    t_end=self.prev_block.segments[-1].t_end + self.state_B.pause,
-                    pos_begin=self.prev_block.segments[-1].pos_end,
-                    pos_end=self.prev_block.segments[-1].pos_end,
+                    t_begin=previous_segment.t_end,
+                    t_end=previous_segment.t_end + self.state_B.pause,
+                    pos_begin=previous_segment.pos_end,
+                    pos_end=previous_segment.pos_end,
                     vel_begin=velocity(0, 0, 0, 0),
                     vel_end=velocity(0, 0, 0, 0),
                 )
-- 
2.43.0


From 748a5f58f874944fd8b23c145ec5c2df190d67da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:28 +0000
Subject: [PATCH 04/35] fix: simulate G-code without any motion

The printed summary raised an IndexError if there is no planner block.
---
 pyGCodeDecode/gcode_interpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 7f91066..933d33f 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -677,9 +677,10 @@ class simulation:
         Args:
             start_time (float): time when the simulation run was started
         """
+        t_end = self.blocklist[-1].get_segments()[-1].t_end if len(self.blocklist) > 0 else 0.0  # no motion takes no time
         custom_print(
             f" >> pyGCodeDecode extracted {len(self.states)} states from {self.filename} and generated {len(self.blocklist)} planner blocks.\n"
-            f"Estimated time to travel all states with provided printer settings is {self.blocklist[-1].get_segments()[-1].t_end:.2f} seconds.\n"
+            f"Estimated time to travel all states with provided printer settings is {t_end:.2f} seconds.\n"
             f"The Simulation took {(time.time()-start_time):.2f} s."
         )
 
-- 
2.43.0


From 6a832ff28cee987c1130639f7d36e9d43a9338cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:29 +0000
Subject: [PATCH 05/35] fix: get values at the end of the simulation with a
 fresh search

The unoptimized search excluded the end of every segment, so querying the end
time first failed, while the optimized search includes it.
---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 933d33f..5bfb1d0 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -138,7 +138,7 @@ def find_current_segment(path: List[segment], t: float, last_index: int = None,
         elif last_index is None or len(path) - 1 < last_index or path[last_index].t_begin > t:
             # custom_print(f"unoptimized Search, last index: {last_index}")
             for last_index, segm in enumerate(path):
-                if t >= segm.t_begin and t < segm.t_end:
+                if t >= segm.t_begin and t <= segm.t_end:
                     return segm, last_index
         else:
             for id, segm in enumerate(path[last_index:]):
-- 
2.43.0


From 9907bea65dcb550ce5ba94bfc11db404748f7b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 06/35] fix: time at a position while decelerating or starting
 from rest

---
 pyGCodeDecode/utils.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 5405adb..3b3e6cc 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -466,15 +466,13 @@ class segment:
             return slope * t + scalar_begin
 
         def get_time(x):
-            a = (self.vel_end - self.vel_begin).get_norm() / (self.t_end - self.t_begin)
-            if a > 0:
-                v_sq = 2 * a * x + self.vel_begin.get_norm() ** 2
-                t = (np.sqrt(v_sq) - self.vel_begin.get_norm()) / a if v_sq > 0 else 0
-                if v_sq <= 0:
-                    raise ValueError("Could not map time dependant scalar to space.")
-            elif a == 0:
-                t = x / self.vel_begin.get_norm()
-            return t
+            v_begin = self.vel_begin.get_norm()
+            a = (self.vel_end.get_norm() - v_begin) / (self.t_end - self.t_begin)  # negative while decelerating
+            v_sq = 2 * a * x + v_begin**2
+            if v_sq < 0 and not np.isclose(v_sq, 0.0, atol=1e-9 * v_begin**2):
+                raise ValueError("Could not map time dependant scalar to space.")
+            v_sum = v_begin + np.sqrt(max(v_sq, 0.0))
+            return 2 * x / v_sum if v_sum > 0 else 0
 
         t = get_time(x)
         scalar = lin_scalar(t)
-- 
2.43.0


From 226d789a9edb63a24b8ffd8f2c126d0589adaf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 07/35] fix: submodel times of a volume that is never crossed

---
 pyGCodeDecode/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index ac79908..b4efed0 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -252,7 +252,7 @@ def write_submodel_times(
                 if isec is not None and point_inside(p_eval=point_eval(isec, control_volume.get_plane_lim())):
                     timetable.append([float(block.inverse_time_at_pos(s_len)), sgn])
 
-    timetable = np.asarray(timetable)  # convert list to array for sorting
+    timetable = np.asarray(timetable).reshape(-1, 2)  # convert list to array for sorting, two columns even if empty
     timetable = timetable[timetable[:, 0].argsort()]  # sort array by first column
 
     time_in = timetable[:, 0][np.asarray(timetable[:, 1], dtype=bool)]  # filter the data for entering the CV
-- 
2.43.0


From 74ad974836cc2a67b2066ef133b478476e26266e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:53 +0000
Subject: [PATCH 08/35] fix: submodel crossings lost to rounding of the
 intersection point

---
 pyGCodeDecode/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index b4efed0..44d3523 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -222,7 +222,8 @@ def write_submodel_times(
             fac = -np.dot(p_no, w) / dot
             u = u * fac
             if fac >= 0 and fac <= 1:
-                return p0 + u, np.linalg.norm(u), True if dot < 0 else False
+                isec = np.where(p_no != 0, p_co, p0 + u)  # lies exactly on the (axis aligned) plane
+                return isec, np.linalg.norm(u), True if dot < 0 else False
 
         # The segment is parallel to plane.
         return None, None, None
-- 
2.43.0


From ed195be11953e727af3e3d00b366f9ab00b758f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 09/35] fix: count the last move in the layer metrics

---
 pyGCodeDecode/tools.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index 44d3523..4af4dfa 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -46,37 +46,33 @@ def save_layer_metrics(
     last_layer_time = 0
     travel = 0
 
+    def finish_layer(time_end):
+        duration = time_end - last_layer_time
+        average_speed = travel / duration if duration != 0 else "NaN"
+
+        layers.append(current_layer)
+        durations.append(duration)
+        travel_distances.append(travel)
+        avg_speeds.append(average_speed)
+
     for block in simulation.blocklist:
-        last_block_of_layer = False
         next_layer = block.state_B.layer
 
-        # calculate the duration of the block
         if next_layer > current_layer:  # layer switch in this block
-            last_block_of_layer = True
             block_begin = block.segments[0].t_begin
-            duration = block_begin - last_layer_time
-        elif block.next_block is None:  # last block of the print
-            last_block_of_layer = True
-            block_end = block.segments[-1].t_end
-            duration = block_end - last_layer_time
-
-        if last_block_of_layer:
-            average_speed = travel / duration if duration != 0 else "NaN"
-
-            layers.append(current_layer)
-            durations.append(duration)
-            travel_distances.append(travel)
-            avg_speeds.append(average_speed)
+            finish_layer(time_end=block_begin)
 
             # set variables for next layer
-            if next_layer > current_layer:
-                travel = 0
-                last_layer_time = block_begin
-                current_layer = next_layer
+            travel = 0
+            last_layer_time = block_begin
+            current_layer = next_layer
 
         # add travel distance of current block
         travel += block.get_block_travel()
 
+        if block.next_block is None:  # last block of the print
+            finish_layer(time_end=block.segments[-1].t_end)
+
     # write the layer info to a csv if a filepath is given
     if filepath is not None:
         # create directory if necessary
-- 
2.43.0


From 22342e6e1f62b52d30b2bbfaa5cf4705248d2551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:09 +0000
Subject: [PATCH 10/35] fix: stop at corners with classic jerk of zero

---
 pyGCodeDecode/junction_handling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index ddc7371..7ae2e13 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -182,7 +182,10 @@ class junction_handling_marlin_jerk(junction_handling):
 
         vel_diff = vel_0 - vel_1
         jerk_move = vel_diff.get_norm()
-        scale = jerk_move / self.jerk if self.jerk > 0 else 0
+        if self.jerk > 0:
+            scale = jerk_move / self.jerk
+        else:
+            scale = float("inf") if jerk_move > 0 else 0  # without jerk any change of velocity needs a full stop
 
         if scale >= 1:
             self.junction_vel = (vel_0 / scale).get_norm()
-- 
2.43.0


From 862a03a29a9d4169e3416d08f3e8999505ac54f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:34 +0000
Subject: [PATCH 11/35] fix: apply the MKA jerk limit factor once and to the
 slower common speed

---
 pyGCodeDecode/junction_handling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index 7ae2e13..3af78bf 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -308,7 +308,7 @@ class junction_handling_MKA(junction_handling):
         lim_flag = False
 
         for v_entry, v_exit in zip(vel_0.get_vec(withExtrusion=True), vel_1.get_vec(withExtrusion=True)):
-            v_exit *= small_speed_fac
+            v_entry *= small_speed_fac  # slow down the entry to the common junction speed
 
             if lim_flag:
                 v_entry *= v_factor
@@ -324,10 +324,10 @@ class junction_handling_MKA(junction_handling):
                 v_factor *= self.jerk / jerk
                 lim_flag = True
 
-            if lim_flag:
-                v_max_junc *= v_factor
+        if lim_flag:
+            v_max_junc *= v_factor
 
-            self.junction_vel = v_max_junc
+        self.junction_vel = v_max_junc
 
     def get_junction_vel(self):
         """Return the calculated junction velocity.
-- 
2.43.0


From de459214cfe121f2452e54a55366f852c9162aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:37 +0000
Subject: [PATCH 12/35] fix: junction speed exceeding the feed rate by rounding

---
 pyGCodeDecode/planner_block.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index f7ceae9..1dee2cf 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -156,6 +156,7 @@ class planner_block:
         v_target = settings.speed
         v_begin = previous_segment.vel_end.get_norm()
         v_begin = v_begin if v_begin < v_target else v_target
+        v_end = v_end if v_end < v_target else v_target  # may exceed the target by rounding
 
         # calculate min travel for trapezoidal shape, if sum larger than distance, regular movement pattern is possible
         travel_ramp_up = (v_target - v_begin) * (v_begin + v_target) / (2 * acc)
-- 
2.43.0


From 67568da6d57e2bc8f799bcecfdc6a17d7dc2727e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:46 +0000
Subject: [PATCH 13/35] fix: re-plan long runs of short moves without recursion

---
 pyGCodeDecode/planner_block.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 1dee2cf..27ce896 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -204,6 +204,21 @@ class planner_block:
 
     def self_correction(self, tolerance=float("1e-12")):
         """Check for interfacing vel and self correct."""
+        # correct this block and the preceding ones (iteratively, as they can be many) as long as they are affected
+        blocks = [self]
+        flag_correct = self.correct_velocity(tolerance=tolerance)
+        flag_previous = flag_correct
+        while flag_previous and blocks[-1].blocktype == "single" and blocks[-1].prev_block is not None:
+            blocks.append(blocks[-1].prev_block)  # forward correction?
+            flag_previous = blocks[-1].correct_velocity(tolerance=tolerance)
+
+        for block in reversed(blocks):
+            block.correct_following(tolerance=tolerance)
+
+        return flag_correct
+
+    def correct_velocity(self, tolerance=float("1e-12")):
+        """Recalculate the block, if its end does not match the begin of the next block. Return True if it did not."""
         flag_correct = False
         if self.next_block is not None:
             same_vel = (
@@ -220,9 +235,11 @@ class planner_block:
         if self.next_block is not None and flag_correct:
             vel_end = self.next_block.get_segments()[0].vel_begin.get_norm()
             self.move_maker2(v_end=vel_end)
-            if self.blocktype == "single":
-                self.prev_block.self_correction()  # forward correction?
 
+        return flag_correct
+
+    def correct_following(self, tolerance=float("1e-12")):
+        """Connect the next block to this one in time and check the result."""
         # Timeshift the corrected blocks
         if self.next_block is not None:
             delta_t = self.get_segments()[-1].t_end - self.next_block.get_segments()[0].t_begin
@@ -244,8 +261,6 @@ class planner_block:
         except ValueError as ve:
             custom_print(f"Segment for {self.state_B} does not adhere to machine limits: {ve}")
 
-        return flag_correct
-
     def timeshift(self, delta_t: float):
         """Shift planner block in time.
 
-- 
2.43.0


From a9e301cc9df0801d9e05ba7cabd554320032e74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 14/35] fix: divide 4D vectors by integers

---
 pyGCodeDecode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 3b3e6cc..b910162 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -129,7 +129,7 @@ class vector_4D:
         Returns:
             div: (self) scalar division, scaling
         """
-        if type(other) is float or type(other) is np.float64:
+        if type(other) is float or type(other) is np.float64 or type(other) is int:
             x = self.x / other
             y = self.y / other
             z = self.z / other
-- 
2.43.0


From 0ccf98245a30571dc8050765e8a556c44b97fcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:49 +0000
Subject: [PATCH 15/35] fix: limit velocities to the axis speeds

---
 pyGCodeDecode/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index b910162..eab12e5 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -225,10 +225,9 @@ class velocity(vector_4D):
             vel: (velocity) constrained by max velocity
         """
         scale = 1.0
-        scale = p_settings.Vx / self.Vx if self.Vx > 0 and p_settings.Vx / self.Vx < scale else scale
-        scale = p_settings.Vy / self.Vy if self.Vy > 0 and p_settings.Vy / self.Vy < scale else scale
-        scale = p_settings.Vz / self.Vz if self.Vz > 0 and p_settings.Vz / self.Vz < scale else scale
-        scale = p_settings.Ve / self.Ve if self.Vz > 0 and p_settings.Ve / self.Ve < scale else scale
+        limits = [p_settings.vX, p_settings.vY, p_settings.vZ, p_settings.vE]
+        for limit, vel in zip(limits, self.get_vec(withExtrusion=True)):
+            scale = limit / abs(vel) if abs(vel) > limit and limit / abs(vel) < scale else scale
 
         return self * scale
 
-- 
2.43.0


From 5afede65b75f72ff2039965bedf1388281198dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:47 +0000
Subject: [PATCH 16/35] fix: match the whole number of a G-code command

---
 pyGCodeDecode/state_generator.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index 1114322..03057f3 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -104,6 +104,19 @@ default_virtual_machine = {
 }
 
 
+def key_pattern(key: str) -> str:
+    """
+    Create the regex pattern for a key of the command dictionaries.
+
+    Args:
+        key: (str) command or argument
+
+    Returns:
+        pattern: (str) matches the whole number of a command (G1 or G01, but not G10 or G1.1), any other key as it is
+    """
+    return rf"{key[0]}0*{key[1:]}(?!\.?\d)" if key[1:].isdigit() else key
+
+
 def arg_extract(string: str, key_dict: dict) -> dict:
     """
     Extract arguments from known command dictionaries.
@@ -118,11 +131,13 @@ def arg_extract(string: str, key_dict: dict) -> dict:
     """
     arg_dict = dict()  # dict to store found arguments for each key
     matches: List[Match] = list()  # list to store matching keywords
+    match_keys = dict()  # dict to store the key of each match
 
     for key in key_dict.keys():  # look for each key in the dictionary
-        match = re.search(key, string)  # regex search for key in string
+        match = re.search(key_pattern(key), string)  # regex search for key in string
         if match is not None:
             matches.append(match)  # append found matches
+            match_keys[match] = key
 
     # check for longest match and remove smaller match
     i = 0
@@ -145,7 +160,7 @@ def arg_extract(string: str, key_dict: dict) -> dict:
 
     for match in matches:  # iterate through all matches, with next match available
         match_end = match.end()  # find arg beginning by using end of match
-        key = match.group()  # get key from match
+        key = match_keys[match]  # get key from match
         arg = None
 
         match_next_start = next_larger(match_start_list, match_end)  # find arg end by using beginning of next arg
-- 
2.43.0


From 00ebdd7a9c8abcc829818a55b5b13607c0ff5bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:01 +0000
Subject: [PATCH 17/35] fix: draw the points of the 2D velocity plot

---
 pyGCodeDecode/gcode_interpreter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 5bfb1d0..0d62267 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -328,13 +328,13 @@ class simulation:
                 update_progress((i + 1) / len(segments), name="2D Plot Lines")
                 x.append(segm.pos_end.get_vec()[0])
                 y.append(segm.pos_end.get_vec()[1])
-            fig = plt.subplot()
+            fig = ax1 = plt.subplot()
             fig.plot(x, y, color="black")
 
         if show_points:
             for i, block in enumerate(self.blocklist):
                 update_progress(i / len(self.blocklist), name="2D Plot Points")
-                fig.scatter(
+                ax1.scatter(
                     block.get_segments()[-1].pos_end.get_vec()[0],
                     block.get_segments()[-1].pos_end.get_vec()[1],
                     color="blue",
-- 
2.43.0


From b46ad199d25903c833d8cae96bc54af6ab38f749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 18/35] fix: klipper mid-move limit for the move before the
 corner

---
 pyGCodeDecode/junction_handling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/junction_handling.py b/pyGCodeDecode/junction_handling.py
index 3af78bf..a2acef9 100644
--- a/pyGCodeDecode/junction_handling.py
+++ b/pyGCodeDecode/junction_handling.py
@@ -262,7 +262,8 @@ class junction_handling_klipper(junction_handling):
         # [from klipper]: Approximated circle must contact moves no further away than mid-move
         j_tan_theta_d2 = j_sin_theta_d2 / math.sqrt(0.5 * (1.0 + j_cos_theta))
 
-        move_centripetal_v2 = 0.5 * self.t_distance * j_tan_theta_d2 * self.state_B.state_p_settings.p_acc
+        t_distance = min(self.t_distance, self.state_A.state_position.get_t_distance(self.state_B.state_position))
+        move_centripetal_v2 = 0.5 * t_distance * j_tan_theta_d2 * self.state_B.state_p_settings.p_acc
 
         self.junction_vel = math.sqrt(
             min(self.state_B.state_p_settings.p_acc * j_R, move_centripetal_v2, self.state_B.state_p_settings.speed**2)
-- 
2.43.0


From c583c5d59c0350d1011372cfab2a0fbf391ab625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 19/35] fix: time at the end of a move exceeded by rounding

---
 pyGCodeDecode/planner_block.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 27ce896..9823281 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -426,4 +426,7 @@ class planner_block:
                 )  # interpolate time over space
                 return time_of_isect
 
+        if np.isclose(dist_local, cum_dist, rtol=1e-9, atol=1e-9):
+            return self.segments[-1].t_end  # end of the block, exceeded by rounding only
+
         raise ValueError(f"This Planner Block with length {cum_dist} is not defined for dist: {dist_local}.")
-- 
2.43.0


From 8e389dda4f3ff0213109cef31f8b1af08b836656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:11 +0000
Subject: [PATCH 20/35] fix: submodel crossings through edges and at positions
 on the faces

---
 pyGCodeDecode/tools.py | 28 ++++++++++++++++------------
 pyGCodeDecode/utils.py |  2 ++
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index 4af4dfa..71528fd 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -190,8 +190,8 @@ def write_submodel_times(
 
         return possible
 
-    def isect_line_plane(p0, p1, p_co, p_no, epsilon=1e-6):
-        """Return a Vector or None (when the intersection can't be found).
+    def isect_line_plane(p0, p1, p_co, p_no):
+        """Return the factor of the intersection and if the line goes in through the plane or None (no intersection).
 
         p0, p1: Define the line.
         p_co, p_no: define the plane:
@@ -207,7 +207,7 @@ def write_submodel_times(
         u = p1 - p0
         dot = p_no.dot(u)
 
-        if abs(dot) > epsilon:
+        if dot != 0:
             # The factor of the point between p0 -> p1 (0 - 1)
             # if 'fac' is between (0 - 1) the point intersects with the segment.
             # Otherwise:
@@ -216,13 +216,10 @@ def write_submodel_times(
 
             w = p0 - p_co
             fac = -np.dot(p_no, w) / dot
-            u = u * fac
-            if fac >= 0 and fac <= 1:
-                isec = np.where(p_no != 0, p_co, p0 + u)  # lies exactly on the (axis aligned) plane
-                return isec, np.linalg.norm(u), True if dot < 0 else False
+            return fac, True if dot < 0 else False
 
         # The segment is parallel to plane.
-        return None, None, None
+        return None, None
 
     # METHOD IMPLEMENTATION
     control_volume = cube(
@@ -238,16 +235,23 @@ def write_submodel_times(
         p_eval_B = point_eval(block.state_B.state_position.get_vec(), control_volume.get_plane_lim())
 
         if intersect_possible(p_eval0=p_eval_A, p_eval1=p_eval_B):
+            fac_in, fac_out = [-np.inf], [np.inf]
             for plane_orig, plane_normal in zip(control_volume.get_plane_orig(), control_volume.get_plane_normals()):
-                isec, s_len, sgn = isect_line_plane(
+                fac, sgn = isect_line_plane(
                     p0=block.state_A.state_position.get_vec(),
                     p1=block.state_B.state_position.get_vec(),
                     p_co=plane_orig,
                     p_no=plane_normal,
                 )
-
-                if isec is not None and point_inside(p_eval=point_eval(isec, control_volume.get_plane_lim())):
-                    timetable.append([float(block.inverse_time_at_pos(s_len)), sgn])
+                if fac is not None:
+                    (fac_in if sgn else fac_out).append(fac)
+
+            # the block is inside from going in through the last to going out through the first plane, each crossing
+            # belongs to the block that really begins or ends outside (points on the planes are inside)
+            if max(fac_in) <= min(fac_out):
+                for fac, sgn, p_eval in [(max(fac_in), True, p_eval_A), (min(fac_out), False, p_eval_B)]:
+                    if not point_inside(p_eval):
+                        timetable.append([float(block.inverse_time_at_pos(fac * block.get_block_travel())), sgn])
 
     timetable = np.asarray(timetable).reshape(-1, 2)  # convert list to array for sorting, two columns even if empty
     timetable = timetable[timetable[:, 0].argsort()]  # sort array by first column
diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index eab12e5..ec25286 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -459,6 +459,8 @@ class segment:
             scalar_end: (float) end value
             x: (float) x position
         """
+        if self.t_end == self.t_begin:
+            return scalar_begin  # no time passes on a segment that is as short as the rounding of its position
 
         def lin_scalar(t):
             slope = (scalar_end - scalar_begin) / (self.t_end - self.t_begin)
-- 
2.43.0


From 31106a9f476f14f5bacb437683eabbd20d8884f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:24 +0000
Subject: [PATCH 21/35] fix: draw the last piece of the 2D plot at constant
 speed

---
 pyGCodeDecode/gcode_interpreter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 0d62267..1de6bea 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -264,8 +264,8 @@ class simulation:
             segm_cvar_delt = np.greater(np.abs(np.ediff1d(cvar)), 0)
             segm_interpol = np.r_[
                 0,
-                np.where(segm_cvar_delt, np.ceil(segm_length / spatial_resolution) + 1, 1),
-            ]  # get nmbr of segments for required resolution, dont interpolate if there is no change
+                np.where(segm_cvar_delt, np.ceil(segm_length / spatial_resolution) + 1, 2),
+            ]  # get nmbr of points for required resolution, only begin and end if there is no change
             points = np.array([x, y, cvar]).T
             points = np.c_[points, segm_interpol]
 
-- 
2.43.0


From 067b8846db432b137d3c96a1748c71da76884a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 22/35] fix: create the initial segment without an initial
 position

---
 pyGCodeDecode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index ec25286..577f1bc 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -555,5 +555,5 @@ class segment:
             segment: (segment) initial beginning segment
         """
         velocity_0 = velocity(0, 0, 0, 0)
-        pos_0 = position(x=0, y=0, z=0, e=0) if initial_position is None else initial_position
+        pos_0 = position(0, 0, 0, 0) if initial_position is None else initial_position
         return cls(t_begin=0, t_end=0, pos_begin=pos_0, vel_begin=velocity_0, pos_end=pos_0, vel_end=velocity_0)
-- 
2.43.0


From 16bfe38a769159e75fff11f4a790a9b1e6edf0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:37 +0000
Subject: [PATCH 23/35] fix: keep the machine settings of a simulation when its
 setup changes

---
 pyGCodeDecode/gcode_interpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 1de6bea..d2b0308 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -223,7 +223,8 @@ class simulation:
                 )
 
         # SET INITIAL SETTINGS
-        self.initial_machine_setup = initial_machine_setup.get_dict()
+        # (a copy, as the setup may be changed later for other simulations)
+        self.initial_machine_setup = dict(initial_machine_setup.get_dict())
         self.check_initial_setup(initial_machine_setup=self.initial_machine_setup)  # TODO: move this to setup class
         self.firmware = self.initial_machine_setup["firmware"]
 
-- 
2.43.0


From 6d812be373bab5ac9d16cdbded5361e2ae786bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:46 +0000
Subject: [PATCH 24/35] fix: moves of the length of rounding noise fail to be
 planned

---
 pyGCodeDecode/state_generator.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index 03057f3..ac0e512 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -103,6 +103,10 @@ default_virtual_machine = {
     "E": 0,
 }
 
+# positions are rounded to this number of digits (in mm), else the rounding of sums leads to moves shorter than the
+# resolution of the numbers
+position_digits = 9
+
 
 def key_pattern(key: str) -> str:
     """
@@ -254,12 +258,7 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
             virtual_machine[key] = default_virtual_machine[key]
 
     # initial state creation
-    state_position = position(
-        virtual_machine["X"],
-        virtual_machine["Y"],
-        virtual_machine["Z"],
-        virtual_machine["E"],
-    )
+    state_position = position(*[round(virtual_machine[key], position_digits) for key in ["X", "Y", "Z", "E"]])
 
     p_settings = state.p_settings(
         speed=virtual_machine["p_vel"],
@@ -352,12 +351,7 @@ def dict_list_traveler(line_dict_list: List[dict], initial_machine_setup: dict)
             if "S" in line_dict["G4"]:
                 pause_duration = line_dict["G4"]["S"]
 
-        state_position = position(
-            virtual_machine["X"],
-            virtual_machine["Y"],
-            virtual_machine["Z"],
-            virtual_machine["E"],
-        )
+        state_position = position(*[round(virtual_machine[key], position_digits) for key in ["X", "Y", "Z", "E"]])
 
         p_settings = state.p_settings(
             speed=virtual_machine["p_vel"],
-- 
2.43.0


From 1c3706709736bc74f7f217d8d250fe25695027ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:26 +0000
Subject: [PATCH 25/35] fix: a dwell before a move whose ramp is lost by
 rounding fails to be planned

---
 pyGCodeDecode/planner_block.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/planner_block.py b/pyGCodeDecode/planner_block.py
index 9823281..978b865 100644
--- a/pyGCodeDecode/planner_block.py
+++ b/pyGCodeDecode/planner_block.py
@@ -231,8 +231,8 @@ class planner_block:
                 if error_vel > tolerance:
                     flag_correct = True
 
-        # Correct error by recalculating velocitys with new vel_end
-        if self.next_block is not None and flag_correct:
+        # Correct error by recalculating velocitys with new vel_end (there is nothing to recalculate if nothing moves)
+        if self.next_block is not None and flag_correct and self.direction is not None:
             vel_end = self.next_block.get_segments()[0].vel_begin.get_norm()
             self.move_maker2(v_end=vel_end)
 
-- 
2.43.0


From 5079b37fd962bcbd2bf2837203000d1ffb6194c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:00 +0000
Subject: [PATCH 26/35] fix: accept integers as progress

---
 pyGCodeDecode/gcode_interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index d2b0308..79bafd8 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -35,7 +35,7 @@ def update_progress(progress: float, name: str = "Percent") -> None:
     status = ""
 
     # check whether the input is valid
-    if progress is int:
+    if isinstance(progress, int):
         progress = float(progress)
     if not isinstance(progress, float):
         progress = 0.0
-- 
2.43.0


From 9d50472ae39e9517f1f7bcf84f1e59f71387243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:48 +0000
Subject: [PATCH 27/35] fix: travel, extrusion and distance to lists, tuples
 and arrays

---
 pyGCodeDecode/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index 577f1bc..f5e90bd 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -264,6 +264,7 @@ class position(vector_4D):
         Returns:
             is_travel: (bool) true if between self and other is distance
         """
+        other = other if isinstance(other, vector_4D) else position(other)
         if abs(other.x - self.x) + abs(other.y - self.y) + abs(other.z - self.z) > 0:
             return True
         else:
@@ -279,6 +280,7 @@ class position(vector_4D):
         Returns:
             is_extruding: (bool) true if between self and other is extrusion
         """
+        other = other if isinstance(other, vector_4D) else position(other)
         extrusion = other.e - self.e if ignore_retract else abs(other.e - self.e)
 
         if extrusion > 0:
@@ -298,6 +300,7 @@ class position(vector_4D):
         """
         if other is None:
             other = position(0, 0, 0, 0)
+        other = other if isinstance(other, vector_4D) else position(other)
         return np.linalg.norm(
             np.subtract(self.get_vec(withExtrusion=withExtrusion), other.get_vec(withExtrusion=withExtrusion))
         )
-- 
2.43.0


From cb310d5a76a951b9106171a6fe84ef6d9e2d9292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:33 +0000
Subject: [PATCH 28/35] fix: initialize the results of a segment

---
 pyGCodeDecode/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index f5e90bd..ee7899f 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -349,6 +349,7 @@ class segment:
         self.pos_end = pos_end
         self.vel_begin = vel_begin
         self.vel_end = vel_end
+        self.result = {}
         self.self_check()
 
     def __str__(self) -> str:
-- 
2.43.0


From 22e7508dfb55cf173e0f02042e76c5e1b47cc513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:06 +0000
Subject: [PATCH 29/35] fix: accumulated deviation of segments that slow down
 to almost nothing

---
 pyGCodeDecode/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index ee7899f..bb127c6 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -493,7 +493,7 @@ class segment:
         # GLOBAL ERROR METRIC
 
         def error_integral(a, v_begin, v_target, x_end):
-            sqr = 2 * a * x_end + v_begin**2 if not np.isclose(self.vel_end.get_norm(), 0.0) else 0
+            sqr = self.vel_end.get_norm() ** 2  # = 2 * a * x_end + v_begin**2, which rounding can make negative
 
             integral = ((v_begin**3) + 3 * a * v_target * x_end - (2 * a * x_end + v_begin**2) * np.sqrt(sqr)) / (
                 3 * a * v_target
-- 
2.43.0


From 73a0f2dbedf45225c4b4815ec8989111b47729ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:07 +0000
Subject: [PATCH 30/35] fix: layer metrics leave the locale of the process as
 it was

---
 pyGCodeDecode/tools.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/pyGCodeDecode/tools.py b/pyGCodeDecode/tools.py
index 71528fd..368db71 100644
--- a/pyGCodeDecode/tools.py
+++ b/pyGCodeDecode/tools.py
@@ -32,11 +32,6 @@ def save_layer_metrics(
         custom_print("⚠️ No layer_cue was specified in the simulation setup. Therefore, layer metrics can not be saved!")
         return None
 
-    if locale is None:
-        loc.setlocale(loc.LC_ALL, "")
-    else:
-        loc.setlocale(loc.LC_ALL, locale)
-
     layers = []
     durations = []
     travel_distances = []
@@ -80,14 +75,20 @@ def save_layer_metrics(
 
         header = f"layer{delimiter} layer time in s{delimiter} travel distance in mm{delimiter} avg speed in mm/s"
         data = np.array([layers, durations, travel_distances, avg_speeds], dtype=object).T
-        np.savetxt(
-            fname=filepath,
-            X=data,
-            delimiter=delimiter + " ",
-            fmt="%s",
-            header=header,
-            comments="",
-        )
+        # the locale is valid for the whole process, leave it as it was (e.g. the encoding of files depends on it)
+        previous_locale = loc.setlocale(loc.LC_ALL)
+        try:
+            loc.setlocale(loc.LC_ALL, "" if locale is None else locale)
+            np.savetxt(
+                fname=filepath,
+                X=data,
+                delimiter=delimiter + " ",
+                fmt="%s",
+                header=header,
+                comments="",
+            )
+        finally:
+            loc.setlocale(loc.LC_ALL, previous_locale)
         custom_print(f"💾 Layer metrics written to:\n👉 {filepath.__str__()}")
 
     return layers, durations, travel_distances, avg_speeds
-- 
2.43.0


From 6107fd50c1b8840fe6e7e2a1012a5b104f6600e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:08 +0000
Subject: [PATCH 31/35] fix: read G-code with comments in any encoding,
 independent of the locale

---
 pyGCodeDecode/state_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/state_generator.py b/pyGCodeDecode/state_generator.py
index ac0e512..daa288e 100644
--- a/pyGCodeDecode/state_generator.py
+++ b/pyGCodeDecode/state_generator.py
@@ -203,7 +203,8 @@ def read_gcode_to_dict_list(filepath: pathlib.Path) -> List[dict]:
     custom_print("Parsing the gcode...")
     dict_list = []
 
-    with open(file=filepath) as file_gcode:
+    # comments may contain anything, in any encoding
+    with open(file=filepath, encoding="utf-8", errors="replace") as file_gcode:
         for i, line in enumerate(file_gcode):
             line_dict = arg_extract(string=line, key_dict=known_commands)
             line_dict["line_number"] = i + 1
-- 
2.43.0


From daa45ab21d167c9a9bab3def1bb13c9d18b32725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:51 +0000
Subject: [PATCH 32/35] fix: draw the 2D plot into a figure of its own

---
 pyGCodeDecode/gcode_interpreter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 79bafd8..01106d2 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -329,8 +329,8 @@ class simulation:
                 update_progress((i + 1) / len(segments), name="2D Plot Lines")
                 x.append(segm.pos_end.get_vec()[0])
                 y.append(segm.pos_end.get_vec()[1])
-            fig = ax1 = plt.subplot()
-            fig.plot(x, y, color="black")
+            fig, ax1 = plt.subplots()
+            ax1.plot(x, y, color="black")
 
         if show_points:
             for i, block in enumerate(self.blocklist):
-- 
2.43.0


From 095136af8861ecc3b403f43686f9fce3f29adf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:03 +0000
Subject: [PATCH 33/35] fix: layer metrics of the command line on systems
 without the locale en_US

---
 pyGCodeDecode/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/cli.py b/pyGCodeDecode/cli.py
index 7b4e484..1461070 100644
--- a/pyGCodeDecode/cli.py
+++ b/pyGCodeDecode/cli.py
@@ -117,7 +117,8 @@ def _plot(args: argparse.Namespace):
         save_layer_metrics(
             simulation=sim,
             filepath=out_dir / f"{g_code_file.stem}_layer_metrics.csv",
-            locale="en_US.utf8",
+            # available everywhere, in contrast to e.g. en_US.utf8
+            locale="C",
             delimiter=",",
         )
         # create a 3D-plot and save a VTK as well as a screenshot
-- 
2.43.0


From 55221f8d82bdaf2e4a9da868e6110b0993f377a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:02 +0000
Subject: [PATCH 34/35] fix: search with gaps at the end of the path and behind
 the last index

---
 pyGCodeDecode/gcode_interpreter.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyGCodeDecode/gcode_interpreter.py b/pyGCodeDecode/gcode_interpreter.py
index 01106d2..c12140e 100644
--- a/pyGCodeDecode/gcode_interpreter.py
+++ b/pyGCodeDecode/gcode_interpreter.py
@@ -100,9 +100,9 @@ def find_current_segment(path: List[segment], t: float, last_index: int = None,
         if last_index is None or len(path) - 1 < last_index or path[last_index].t_begin > t:
             # unoptimized search, still returns index
             for last_index, segm in enumerate(path):
-                if t >= segm.t_begin and t < segm.t_end:
+                if t >= segm.t_begin and t <= segm.t_end:
                     return segm, last_index
-                elif t >= segm.t_end and t < path[last_index + 1].t_begin:
+                elif t > segm.t_end and last_index + 1 < len(path) and t < path[last_index + 1].t_begin:
                     # if no segment exists, create one that interpolates the previous segment as static
                     interpolated_segment = segment(
                         t_begin=segm.t_end,
@@ -115,10 +115,10 @@ def find_current_segment(path: List[segment], t: float, last_index: int = None,
                     return interpolated_segment, last_index
         else:
             # optimized search
-            for id, segm in enumerate(path[last_index:]):
+            for last_index, segm in enumerate(path[last_index:], start=last_index):
                 if t >= segm.t_begin and t <= segm.t_end:
-                    return segm, last_index + id
-                elif t >= segm.t_end and t < path[last_index + 1].t_begin:
+                    return segm, last_index
+                elif t > segm.t_end and last_index + 1 < len(path) and t < path[last_index + 1].t_begin:
                     # if no segment exists, create one that interpolates the previous segment as static
                     interpolated_segment = segment(
                         t_begin=segm.t_end,
-- 
2.43.0


From f824eb7f7687906a5234958bff05d1a786744484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:51 +0000
Subject: [PATCH 35/35] fix: time at the end of very short deceleration ramps

---
 pyGCodeDecode/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyGCodeDecode/utils.py b/pyGCodeDecode/utils.py
index bb127c6..b39d103 100644
--- a/pyGCodeDecode/utils.py
+++ b/pyGCodeDecode/utils.py
@@ -474,7 +474,8 @@ class segment:
             v_begin = self.vel_begin.get_norm()
             a = (self.vel_end.get_norm() - v_begin) / (self.t_end - self.t_begin)  # negative while decelerating
             v_sq = 2 * a * x + v_begin**2
-            if v_sq < 0 and not np.isclose(v_sq, 0.0, atol=1e-9 * v_begin**2):
+            # a position behind the point of standstill can only be the end of the segment, exceeded by rounding
+            if v_sq < 0 and not np.isclose(x, self.get_segm_len(), rtol=1e-9, atol=1e-9):
                 raise ValueError("Could not map time dependant scalar to space.")
             v_sum = v_begin + np.sqrt(max(v_sq, 0.0))
             return 2 * x / v_sum if v_sum > 0 else 0
-- 
2.43.0

