From a08cba9ff69bef31d2f29211ec2c34ba7a88cefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 01/55] fix: initialise the extruder count before sizing a
 position's extruders

position(int) compared the requested count with an uninitialised member, so a
stack value that happened to equal the count left the extruder array NULL.
ArcStraightener -f=SMOOTHIEWARE crashed on every input because of it.
---
 GcodeProcessorLib/position.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GcodeProcessorLib/position.cpp b/GcodeProcessorLib/position.cpp
index d9cd3a8..25575fd 100644
--- a/GcodeProcessorLib/position.cpp
+++ b/GcodeProcessorLib/position.cpp
@@ -214,6 +214,7 @@ position::position(int extruder_count)
 	is_in_bounds = true;
 	current_tool = 0;
 	p_extruders = NULL;
+	num_extruders = 0;
 	set_num_extruders(extruder_count);
 	
 }
-- 
2.43.0


From 9419c3ddaaa4a1ca05543876fd98ea86df26a428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 02/55] fix: track the emitted position between Marlin 2 arc
 segments

Every G1 of an arc was built relative to the start of the arc: in relative E
mode each segment repeated the cumulative extrusion, and in absolute mode an
axis whose target equals the arc's start was left out of the last segment.
---
 ArcWelderInverseProcessor/marlin_2.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index e70c043..8b16875 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -604,5 +604,8 @@ bool marlin_2::buffer_line(const float(&cart)[MARLIN_2_XYZE], double fr_mm_s, in
   // Generate the gcode
   gcodes_ += g1_command(target);
 
+  // update the current position
+  set_current_position(target);
+
   return true;
 }
-- 
2.43.0


From 5ab12688e4a76acd3b97ad85f3a5bf700a5eba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:47 +0000
Subject: [PATCH 03/55] fix: track the emitted position between Smoothieware
 arc segments

Same defect as in the Marlin 2 emulation: segments were built relative to the
start of the arc instead of the previous segment.
---
 ArcWelderInverseProcessor/smoothieware.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/smoothieware.cpp b/ArcWelderInverseProcessor/smoothieware.cpp
index 43b8c3c..11b445d 100644
--- a/ArcWelderInverseProcessor/smoothieware.cpp
+++ b/ArcWelderInverseProcessor/smoothieware.cpp
@@ -302,6 +302,8 @@ bool smoothieware::append_milestone(const float target[], double rate_mm_s)
   // Generate the gcode
   gcodes_ += g1_command(gcode_target);
 
-  return true;
+  // update the current position
+  set_current_position(gcode_target);
+
   return true;
 }
-- 
2.43.0


From 84102e37444f0c83d7bfd92005df515862b09cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:54 +0000
Subject: [PATCH 04/55] fix: interpolate Z through Marlin 2 helical arcs

---
 ArcWelderInverseProcessor/marlin_2.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index 8b16875..f5dac6b 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -307,7 +307,7 @@ void marlin_2::plan_arc_2_0_9_1(
     // Update raw location
     raw[p_axis] = center_P + rvec[0];
     raw[q_axis] = center_Q + rvec[1];
-    raw[l_axis] = start_L, raw[l_axis] + linear_per_segment;
+    raw[l_axis] += linear_per_segment;
 
     raw[E_AXIS] += extruder_per_segment;
 
@@ -321,14 +321,12 @@ void marlin_2::plan_arc_2_0_9_1(
 
   // Ensure last segment arrives at target location.
   COPY(raw, cart);
-  raw[l_axis] = start_L;
 
   apply_motion_limits(raw);
 
 
   buffer_line(raw, scaled_fr_mm_s, 0);
 
-  raw[l_axis] = start_L;
   COPY(current_position, raw);
 }
 
@@ -527,7 +525,7 @@ void marlin_2::plan_arc_2_0_9_2(
     // Update raw location
     raw[p_axis] = center_P + rvec[0];
     raw[q_axis] = center_Q + rvec[1];
-    raw[l_axis] = start_L, raw[l_axis] + per_segment_L;
+    raw[l_axis] += per_segment_L;
     raw[E_AXIS] += extruder_per_segment;
 
     apply_motion_limits(raw);
@@ -540,14 +538,12 @@ void marlin_2::plan_arc_2_0_9_2(
 
   // Ensure last segment arrives at target location.
   COPY(raw, cart);
-  raw[l_axis] = start_L;
 
   apply_motion_limits(raw);
 
 
   buffer_line(raw, scaled_fr_mm_s, 0);
 
-  raw[l_axis] = start_L;
   COPY(current_position, raw);
 }
 // Marlin Function Defs
-- 
2.43.0


From a1968388c950a048b2394e19e2835d5d191c035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:54 +0000
Subject: [PATCH 05/55] fix: interpolate Z through Repetier 1.0.5 helical arcs

---
 ArcWelderInverseProcessor/repetier.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ArcWelderInverseProcessor/repetier.cpp b/ArcWelderInverseProcessor/repetier.cpp
index f3feb61..8ba61ee 100644
--- a/ArcWelderInverseProcessor/repetier.cpp
+++ b/ArcWelderInverseProcessor/repetier.cpp
@@ -261,7 +261,7 @@ void repetier::arc_1_0_5(float* position, float* target, float* offset, float ra
   int8_t count = 0;
 
   // Initialize the linear axis
-  //arc_target[axis_linear] = position[axis_linear];
+  arc_target[Z_AXIS] = position[Z_AXIS];
 
   // Initialize the extruder axis
   arc_target[E_AXIS] = position[E_AXIS]; // * Printer::invAxisStepsPerMM[E_AXIS]; -- Not sure what this does
@@ -291,10 +291,10 @@ void repetier::arc_1_0_5(float* position, float* target, float* offset, float ra
     arc_target[Y_AXIS] = center_axis1 + r_axis1;
     arc_target[Z_AXIS] += linear_per_segment;
     arc_target[E_AXIS] += extruder_per_segment;
-    moveToReal(arc_target[X_AXIS], arc_target[Y_AXIS], position[Z_AXIS], arc_target[E_AXIS]);
+    moveToReal(arc_target[X_AXIS], arc_target[Y_AXIS], arc_target[Z_AXIS], arc_target[E_AXIS]);
   }
   // Ensure last segment arrives at target location.
-  moveToReal(target[X_AXIS], target[Y_AXIS], position[Z_AXIS], target[E_AXIS]);
+  moveToReal(target[X_AXIS], target[Y_AXIS], target[Z_AXIS], target[E_AXIS]);
 }
 
 /// <summary>
-- 
2.43.0


From 5dee865791030b68d47de03f3dcc25b7f10bc5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 06/55] fix: do not weld the second move of an arc to a first
 move of another kind

---
 ArcWelder/segmented_arc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index bc17ef8..839e3d4 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -155,8 +155,8 @@ bool segmented_arc::try_add_point(printer_point p)
       return false;
     }
 
-    // If we have more than 2 points, we need to make sure the current and previous moves are all of the same type.
-    if (points_.count() > 2)
+    // If we have at least 2 points, we need to make sure the current and previous moves are all of the same type.
+    if (points_.count() > 1)
     {
       // TODO:  Do we need this?
       // We already have at least an initial point and a second point.  Make cure the current point and the previous are either both
-- 
2.43.0


From 659bfb9f6f7c99cb3a15235edc3682dfd415640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 07/55] fix: count interpolated segments by their length for
 firmware compensation

---
 ArcWelder/segmented_arc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index 839e3d4..81319d2 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -243,7 +243,7 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
       // See how many arcs will be interpolated
       double circumference = 2.0 * PI_DOUBLE * current_arc_.radius;
       // TODO: Should this be ceil?
-      int num_segments = (int)utilities::floor(circumference / min_arc_segments_);
+      int num_segments = (int)utilities::floor(circumference / mm_per_arc_segment_);
       if (num_segments < min_arc_segments_) {
         //num_segments = (int)std::ceil(circumference/approximate_length) * (int)std::ceil(approximate_length / mm_per_arc_segment);
         // TODO: Should this be ceil?
-- 
2.43.0


From 98d36a65808d82290ea0b9614184f885e871b679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 08/55] fix: measure source arcs with their own center and
 direction

---
 ArcWelder/arc_welder.cpp        | 6 +++---
 GcodeProcessorLib/utilities.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index c68fdc0..29ec77f 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -471,14 +471,14 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
         switch ((*it).name[0])
         {
         case 'I':
-          i = (*it).double_precision;
+          i = (*it).double_value;
           break;
         case 'J':
-          j = (*it).double_precision;
+          j = (*it).double_value;
           break;
           // Note that the R form isn't fully implemented!
         case 'R':
-          r = (*it).double_precision;
+          r = (*it).double_value;
           break;
         }
       }
diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index d16f8f4..26f7352 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -212,13 +212,13 @@ double utilities::get_cartesian_distance(double x1, double y1, double z1, double
 
 double utilities::get_arc_distance(double x1, double y1, double z1, double x2, double y2, double z2, double i, double j, double r, bool is_clockwise)
 {
-	double center_x = x1 - i;
-	double center_y = y1 - j;
+	double center_x = x1 + i;
+	double center_y = y1 + j;
 	double radius = utilities::hypot(i, j);
 	double z_dist = z2 - z1;
 	double rt_x = x2 - center_x;
 	double rt_y = y2 - center_y;
-	double angular_travel_total = utilities::atan2(i * rt_y - j * rt_x, i * rt_x + j * rt_y);
+	double angular_travel_total = utilities::atan2(j * rt_x - i * rt_y, -(i * rt_x + j * rt_y));
 	if (angular_travel_total < 0) { angular_travel_total += 2.0 * PI_DOUBLE; }
 	// Adjust the angular travel if the direction is clockwise
 	if (is_clockwise) { angular_travel_total -= 2.0 * PI_DOUBLE; }
-- 
2.43.0


From d3320122fa54269405151dd3b25c828012ff8ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 09/55] fix: collect the comments of exactly the commands
 replaced by an arc

---
 ArcWelder/arc_welder.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 29ec77f..0f442f0 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -872,7 +872,15 @@ std::string arc_welder::get_comment_for_arc()
 {
   // build a comment string from the commands making up the arc
         // We need to start with the first command entered.
-  int comment_index = unwritten_commands_.count() - (current_arc_.get_num_segments() - 1);
+  // Only G0/G1 commands make up the arc, other unwritten commands (blank lines) don't count.
+  int comment_index = unwritten_commands_.count();
+  for (int num_commands = current_arc_.get_num_segments() - 1; num_commands > 0;)
+  {
+    if (unwritten_commands_[--comment_index].is_g0_g1)
+    {
+      num_commands--;
+    }
+  }
   std::string comment;
   for (; comment_index < unwritten_commands_.count(); comment_index++)
   {
-- 
2.43.0


From c642c74734e6ef30714d7f9533f3c7b1d1f2da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 10/55] fix: finish the final arc when the file ends with a
 blank line

---
 ArcWelder/arc_welder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 0f442f0..4d7fdf1 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -734,7 +734,7 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
     previous_extrusion_rate_ = 0;
   }
 
-  if (!arc_added && !(cmd.is_empty && cmd.comment.length() == 0))
+  if (!arc_added && (is_end || !(cmd.is_empty && cmd.comment.length() == 0)))
   {
     if (current_arc_.get_num_segments() < current_arc_.get_min_segments()) {
       if (debug_logging_enabled_ && !cmd.is_empty)
-- 
2.43.0


From 1b4d7d075cfedcb333e49ec1cd99ec187967d69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:41 +0000
Subject: [PATCH 11/55] fix: do not treat indented or non-ascii unknown
 commands as empty lines

---
 GcodeProcessorLib/gcode_parser.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 1a4b928..0424621 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -131,20 +131,14 @@ bool gcode_parser::try_parse_gcode(const char * gcode, parsed_command & command,
 	command.is_known_command = try_extract_gcode_command(&p, &(command.command));
 	if (!command.is_known_command)
 	{
-		while (true)
+		// The line is empty if there is nothing but whitespace and control characters in front of the comment
+		for (const char* p_char = p_gcode; *p_char != '\0' && *p_char != ';'; p_char++)
 		{
-			char c = *p_gcode;
-			if (c == '\0' || c == ';' || c == ' ' || c == '\t')
-				break;
-			else if (c > 31)
+			if (static_cast<unsigned char>(*p_char) > 32)
 			{
 				command.is_empty = false;
 				break;
 			}
-			else if (preserve_format) {
-				command.gcode.push_back(c);
-			}
-			p_gcode++;
 		}
 		command.command = "";
 	}
-- 
2.43.0


From 29a26c737b37ec7090770c56ac98f5d69f23bd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:41 +0000
Subject: [PATCH 12/55] fix: never start an arc at an unknown position

---
 ArcWelder/arc_welder.cpp             |  2 ++
 GcodeProcessorLib/gcode_position.cpp | 24 +++++++++++++++---------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 4d7fdf1..a0b2a00 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -570,6 +570,8 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
   if (
     !is_end && cmd.is_known_command && !cmd.is_empty && (
       is_g0_g1 && z_axis_ok &&
+      // An arc can only start from a known position
+      !p_pre_pos->x_null && !p_pre_pos->y_null && p_pre_pos->z_null == p_cur_pos->z_null &&
       utilities::is_equal(p_cur_pos->x_offset, p_pre_pos->x_offset) &&
       utilities::is_equal(p_cur_pos->y_offset, p_pre_pos->y_offset) &&
       utilities::is_equal(p_cur_pos->z_offset, p_pre_pos->z_offset) &&
diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 3c60868..75d8ee4 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -1099,22 +1099,28 @@ void gcode_position::process_g28(position* pos, parsed_command& cmd)
 		set_z_home = true;
 	}
 
-	if (set_x_home && !home_x_none_)
+	if (set_x_home)
 	{
-		pos->x = home_x_;
-		pos->x_null = false;
+		// If there is no home position, the axis position is unknown after homing
+		if (!home_x_none_)
+			pos->x = home_x_;
+		pos->x_null = home_x_none_;
 	}
 	// todo: set error flag on else
-	if (set_y_home && !home_y_none_)
+	if (set_y_home)
 	{
-		pos->y = home_y_;
-		pos->y_null = false;
+		// If there is no home position, the axis position is unknown after homing
+		if (!home_y_none_)
+			pos->y = home_y_;
+		pos->y_null = home_y_none_;
 	}
 	// todo: set error flag on else
-	if (set_z_home && !home_z_none_)
+	if (set_z_home)
 	{
-		pos->z = home_z_;
-		pos->z_null = false;
+		// If there is no home position, the axis position is unknown after homing
+		if (!home_z_none_)
+			pos->z = home_z_;
+		pos->z_null = home_z_none_;
 	}
 	// todo: set error flag on else
 }
-- 
2.43.0


From 1faa5acebdccfb80b90701b5ac602642fdcbd5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:41 +0000
Subject: [PATCH 13/55] fix: create temporary file names that are unique
 between processes

---
 GcodeProcessorLib/utilities.cpp | 6 ++++--
 GcodeProcessorLib/utilities.h   | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index 26f7352..00c6f5b 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -454,11 +454,13 @@ bool utilities::get_file_path(const std::string& file_path, std::string& path)
 }
 
 std::string utilities::create_uuid() {
+	// rand() is never seeded, so it returns the same sequence within every process.
+	std::random_device random;
 	std::string res;
 	for (int i = 0; i < 16; i++) {
 		if (GUID_DASHES[i]) res += "-";
-		res += GUID_RANGE[(int)(rand() % 16)];
-		res += GUID_RANGE[(int)(rand() % 16)];
+		res += GUID_RANGE[(int)(random() % 16)];
+		res += GUID_RANGE[(int)(random() % 16)];
 	}
 	return res;
 }
diff --git a/GcodeProcessorLib/utilities.h b/GcodeProcessorLib/utilities.h
index f1f4ede..621f4b8 100644
--- a/GcodeProcessorLib/utilities.h
+++ b/GcodeProcessorLib/utilities.h
@@ -26,6 +26,7 @@
 #include <vector>
 #include <set>
 #include <cmath>
+#include <random>
 #include <sstream>
 #include <iostream>
 #include <iomanip>
-- 
2.43.0


From a965048a943785ae548fee3821184e546fb243e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:31 +0000
Subject: [PATCH 14/55] fix: check the length of the gcode that will be written
 for an arc

---
 ArcWelder/segmented_arc.cpp | 66 +++++++------------------------------
 1 file changed, 11 insertions(+), 55 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index 81319d2..027a23d 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -232,10 +232,17 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
   if (arc::try_create_arc(points_, current_arc_, original_shape_length_, max_radius_mm_, resolution_mm_, path_tolerance_percent_, min_arc_segments_, mm_per_arc_segment_, get_xyz_tolerance(), allow_3d_arcs_))
   {
     bool abort_arc = false;
-    if (max_gcode_length_ > 0 && get_shape_gcode_length() > max_gcode_length_)
+    if (max_gcode_length_ > 0)
     {
-      abort_arc = true;
-      num_gcode_length_exceptions_++;
+      // The extrusion of the new point isn't part of e_relative_ yet, but will be part of the gcode
+      double previous_e_relative = e_relative_;
+      e_relative_ += p.e_relative;
+      if (get_shape_gcode_length() > max_gcode_length_)
+      {
+        abort_arc = true;
+        num_gcode_length_exceptions_++;
+      }
+      e_relative_ = previous_e_relative;
     }
     if (min_arc_segments_ > 0 && mm_per_arc_segment_ > 0)
     {
@@ -357,58 +364,7 @@ std::string segmented_arc::get_shape_gcode() const
 
 int segmented_arc::get_shape_gcode_length()
 {
-  double e = current_arc_.end_point.is_extruder_relative ? e_relative_ : current_arc_.end_point.e_offset;
-  double f = current_arc_.start_point.f == current_arc_.end_point.f ? 0 : current_arc_.end_point.f;
-  bool has_e = e_relative_ != 0;
-  bool has_f = utilities::greater_than_or_equal(f, 1);
-  bool has_z = allow_3d_arcs_ && !utilities::is_equal(
-    current_arc_.start_point.z, current_arc_.end_point.z, get_xyz_tolerance()
-  );
-  
-  int xyz_precision = get_xyz_precision();
-  int e_precision = get_e_precision();
-
-  double i = current_arc_.get_i();
-  double j = current_arc_.get_j();
-
-
-  int num_spaces = 4 + (has_z ? 1 : 0) + (has_e ? 1 : 0) + (has_f ? 1 : 0);
-  int num_decimal_points = 4 + (has_z ? 1 : 0) + (has_e ? 1 : 0);  // note f has no decimal point
-  int num_decimals = xyz_precision * (4 + (has_z ? 1 : 0)) + e_precision * (has_e ? 1 : 0); // Note f is an int
-  int num_digits = (
-    utilities::get_num_digits(current_arc_.end_point.x, xyz_precision) +
-    utilities::get_num_digits(current_arc_.end_point.y, xyz_precision) +
-    (has_z ? utilities::get_num_digits(current_arc_.end_point.z, xyz_precision) : 0) +
-    (has_e ? utilities::get_num_digits(e, e_precision) : 0) +
-    utilities::get_num_digits(i, xyz_precision) +
-    utilities::get_num_digits(j, xyz_precision) +
-    (has_f ? utilities::get_num_digits(f,0) : 0)
-  );
-  int num_minus_signs = (
-    (current_arc_.end_point.x < 0 ? 1 : 0) + 
-    (current_arc_.end_point.y < 0 ? 1 : 0) +
-    (i < 0 ? 1 : 0) +
-    (j < 0 ? 1 : 0) +
-    (has_e && e < 0 ? 1 : 0) +
-    (has_z && current_arc_.end_point.z < 0 ? 1 : 0)
-  );
-
-  int num_parameters = 4 + (has_e ? 1 : 0) + (has_z ? 1: 0) + (has_f ? 1: 0);
-  // Return the length of the gcode.
-  int gcode_length = 2 + num_spaces + num_decimal_points + num_digits + num_minus_signs + num_decimals + num_parameters;
-  
-  // Keep this around in case we have any future issues with the gcode length calculation
-  #ifdef Debug
-  std::string gcode = get_shape_gcode();
-  if (gcode.length() != gcode_length)
-  {
-    return 9999999; 
-  }
-  #endif
-  return gcode_length;
-  
-
-
+  return (int)get_shape_gcode().length();
 }
 
 /*
-- 
2.43.0


From ff0b136d73de20a24d7c60553805da0c1cc5f1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:31 +0000
Subject: [PATCH 15/55] fix: do not write an arc with the precision of the
 command that follows it

---
 ArcWelder/arc_welder.cpp      | 5 +++++
 ArcWelder/segmented_shape.cpp | 5 +++++
 ArcWelder/segmented_shape.h   | 3 ++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index a0b2a00..81ba803 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -546,6 +546,8 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
   // We need to make sure the printer is using absolute xyz, is extruding, and the extruder axis mode is the same as that of the previous position
   // TODO: Handle relative XYZ axis.  This is possible, but maybe not so important.
   
+  const unsigned char previous_xyz_precision = current_arc_.get_xyz_precision();
+  const unsigned char previous_e_precision = current_arc_.get_e_precision();
   if (allow_dynamic_precision_ && is_g0_g1)
   {
     for (std::vector<parsed_command_parameter>::iterator it = cmd.parameters.begin(); it != cmd.parameters.end(); ++it)
@@ -758,6 +760,9 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
         // update our statistics
         points_compressed_ += current_arc_.get_num_segments() - 1;
         arcs_created_++; // increment the number of generated arcs
+        // The current command is not part of the arc, so its precision must not be applied to it
+        current_arc_.set_xyz_precision(previous_xyz_precision);
+        current_arc_.set_e_precision(previous_e_precision);
         write_arc_gcodes(p_pre_pos->f);
         // Now clear the arc and flag the processor as not waiting for an arc
         waiting_for_arc_ = false;
diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index 3da264c..c24bb7e 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -724,6 +724,11 @@ void segmented_shape::set_xyz_precision(unsigned char precision)
   set_xyz_tolerance_from_precision();
 }
 
+void segmented_shape::set_e_precision(unsigned char precision)
+{
+  e_precision_ = precision;
+}
+
 void segmented_shape::set_xyz_tolerance_from_precision()
 {
   xyz_tolerance_ = utilities::pow(10, -1.0 * static_cast<double>(xyz_precision_));
diff --git a/ArcWelder/segmented_shape.h b/ArcWelder/segmented_shape.h
index d466a42..8063a14 100644
--- a/ArcWelder/segmented_shape.h
+++ b/ArcWelder/segmented_shape.h
@@ -225,6 +225,8 @@ public:
 	void reset_precision();
 	void update_xyz_precision(unsigned char precision);
 	void update_e_precision(unsigned char precision);
+	void set_xyz_precision(unsigned char precision);
+	void set_e_precision(unsigned char precision);
 	virtual bool is_shape() const;
 	// public virtual functions
 	virtual void clear();
@@ -253,6 +255,5 @@ private:
 	double xyz_tolerance_;
 	unsigned char e_precision_;
 	void set_xyz_tolerance_from_precision();
-	void set_xyz_precision(unsigned char precision);
 	
 };
-- 
2.43.0


From bab73558a9f1bba270780cda6cd2bb1019dfe222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:31 +0000
Subject: [PATCH 16/55] fix: never lose the source file when overwriting it
 fails or is cancelled

---
 ArcWelder/arc_welder.cpp              | 43 +++++++++++++++++++--------
 ArcWelderConsole/ArcWelderConsole.cpp |  2 +-
 GcodeProcessorLib/utilities.cpp       |  9 ++++++
 GcodeProcessorLib/utilities.h         |  3 ++
 4 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 81ba803..b4c2a94 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -354,25 +354,42 @@ arc_welder_results arc_welder::process()
 
   p_logger_->log(logger_type_, log_levels::DEBUG, "Closing source and target files.");
   output_file_.close();
+  const bool is_read_failed = gcodeFile.bad();
   gcodeFile.close();
 
+  results.success = continue_processing;
+  results.cancelled = !continue_processing;
+  results.progress = final_progress;
+
+  if (is_read_failed || output_file_.fail())
+  {
+    results.success = false;
+    results.message = is_read_failed ? "Unable to read the source file." : "Unable to write the target file.";
+    p_logger_->log_exception(logger_type_, results.message);
+  }
+
   if (overwrite_source_file)
   {
-    stream.clear();
-    stream.str("");
-    stream << "Deleting the original source file at '" << source_path_ << "'.";
-    p_logger_->log(logger_type_, log_levels::DEBUG, stream.str());
-    stream.clear();
-    stream.str("");
-    std::remove(source_path_.c_str());
-    stream << "Renaming temporary file at '" << target_path_ << "' to '" << source_path_ << "'.";
-    p_logger_->log(0, log_levels::DEBUG, stream.str());
-    std::rename(target_path_.c_str(), source_path_.c_str());
+    if (results.success)
+    {
+      stream.clear();
+      stream.str("");
+      stream << "Replacing the source file at '" << source_path_ << "' with the temporary file at '" << target_path_ << "'.";
+      p_logger_->log(logger_type_, log_levels::DEBUG, stream.str());
+      if (!utilities::replace_file(target_path_, source_path_))
+      {
+        results.success = false;
+        results.message = "Unable to replace the source file.";
+        p_logger_->log_exception(logger_type_, results.message);
+      }
+    }
+    if (!results.success)
+    {
+      // Keep the source file, and do not leave an incomplete temporary file behind
+      std::remove(target_path_.c_str());
+    }
   }
 
-  results.success = continue_processing;
-  results.cancelled = !continue_processing;
-  results.progress = final_progress;
   p_logger_->log(logger_type_, log_levels::DEBUG, "Returning processing results.");
 
   return results;
diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 50e2b93..3564357 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -430,7 +430,7 @@ int main(int argc, char* argv[])
   }
 
   delete p_arc_welder;
-  return 0;
+  return results.success ? 0 : 1;
 }
 
 bool on_progress_full(arc_welder_progress progress, logger* p_logger, int logger_type)
diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index 00c6f5b..4e3c27e 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -478,6 +478,15 @@ bool utilities::get_temp_file_path_for_file(const std::string& file_path, std::s
 	return true;
 }
 
+bool utilities::replace_file(const std::string& source_path, const std::string& target_path)
+{
+#ifdef _WIN32
+	// On windows an existing file can't be replaced by renaming another file.
+	std::remove(target_path.c_str());
+#endif
+	return std::rename(source_path.c_str(), target_path.c_str()) == 0;
+}
+
 bool utilities::does_file_exist(const std::string& file_path)
 {
 	FILE* file;
diff --git a/GcodeProcessorLib/utilities.h b/GcodeProcessorLib/utilities.h
index 621f4b8..ed7524b 100644
--- a/GcodeProcessorLib/utilities.h
+++ b/GcodeProcessorLib/utilities.h
@@ -26,6 +26,7 @@
 #include <vector>
 #include <set>
 #include <cmath>
+#include <cstdio>
 #include <random>
 #include <sstream>
 #include <iostream>
@@ -106,6 +107,8 @@ namespace utilities{
 
 	std::string create_uuid();
 
+	// Move the source file to the target path, replacing an existing target file.
+	bool replace_file(const std::string& source_path, const std::string& target_path);
 	bool does_file_exist(const std::string& file_path);
 
 	bool get_temp_file_path_for_file(const std::string& file_path, std::string& temp_file_path);
-- 
2.43.0


From 864c0b8bc83226eb8fb78af9ad01017027cfdc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:31 +0000
Subject: [PATCH 17/55] fix: keep the source file when straightening it in
 place fails

---
 .../ArcWelderInverseProcessor.cpp             | 27 ++++++++++++-------
 .../arc_interpolation.cpp                     |  5 +++-
 ArcWelderInverseProcessor/arc_interpolation.h |  2 +-
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 9a82f76..637ca4a 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -56,7 +56,7 @@
 int main(int argc, char* argv[])
 {
   try {
-    run_arc_straightener(argc, argv);
+    return run_arc_straightener(argc, argv);
   }
   catch (TCLAP::ArgException *e) {
     std::cout << (*e).what() << " - " << (*e).typeDescription() << "\n";
@@ -578,7 +578,16 @@ int run_arc_straightener(int argc, char* argv[])
   p_logger->log(0, log_levels::INFO, log_messages.str());
 
   p_logger->log(0, log_levels::INFO, "Running interpolation...");
-  interpolator.process();
+  if (!interpolator.process())
+  {
+    if (overwrite_source_file)
+    {
+      // Keep the source file, and do not leave an incomplete temporary file behind
+      std::remove(args.target_path.c_str());
+    }
+    p_logger->log(0, log_levels::INFO, "File processing failed.");
+    return 1;
+  }
   p_logger->log(0, log_levels::INFO, "Interpolation Complete.");
 
   log_messages.clear();
@@ -589,14 +598,14 @@ int run_arc_straightener(int argc, char* argv[])
   {
     log_messages.clear();
     log_messages.str("");
-    log_messages << "Deleting the original source file at '" << args.source_path << "'.";
+    log_messages << "Replacing the source file at '" << args.source_path << "' with the temporary file at '" << args.target_path << "'.";
     p_logger->log(0, log_levels::INFO, log_messages.str());
-    log_messages.clear();
-    log_messages.str("");
-    std::remove(args.source_path.c_str());
-    log_messages << "Renaming temporary file at '" << args.target_path << "' to '" << args.source_path << "'.";
-    p_logger->log(0, log_levels::INFO, log_messages.str());
-    std::rename(args.target_path.c_str(), args.source_path.c_str());
+    if (!utilities::replace_file(args.target_path, args.source_path))
+    {
+      std::remove(args.target_path.c_str());
+      p_logger->log(0, log_levels::INFO, "Unable to replace the source file.");
+      return 1;
+    }
   }
 
   log_messages.clear();
diff --git a/ArcWelderInverseProcessor/arc_interpolation.cpp b/ArcWelderInverseProcessor/arc_interpolation.cpp
index feb045b..96ceb59 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.cpp
+++ b/ArcWelderInverseProcessor/arc_interpolation.cpp
@@ -114,7 +114,7 @@ arc_interpolation::~arc_interpolation()
  
 }
 
-void arc_interpolation::process()
+bool arc_interpolation::process()
 {
   // Create a stringstream we can use for messaging.
   std::stringstream stream;
@@ -130,6 +130,7 @@ void arc_interpolation::process()
   // e absolute offset, in case we are outputting absolute e
   double offset_absolute_e = 0;
 
+  bool success = false;
   int read_lines_before_clock_check = 5000;
   //std::cout << "stabilization::process_file - Processing file.\r\n";
   stream << "Decompressing gcode file.";
@@ -249,6 +250,7 @@ void arc_interpolation::process()
 
       }
       output_file_.close();
+      success = !gcode_file.bad() && !output_file_.fail();
     }
     else
     {
@@ -273,6 +275,7 @@ void arc_interpolation::process()
   stream << "\tArc Segments Generated: " << p_current_firmware_->get_num_arc_segments_generated() << "\r\n";
   stream << "\tTotal Seconds         : " << total_seconds << "\r\n";
   std::cout << stream.str();
+  return success;
 }
 
 std::string arc_interpolation::get_firmware_arguments_description(std::string separator, std::string argument_prefix, std::string replacement_string, std::string replacement_value) const
diff --git a/ArcWelderInverseProcessor/arc_interpolation.h b/ArcWelderInverseProcessor/arc_interpolation.h
index e1eed16..62ee187 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.h
+++ b/ArcWelderInverseProcessor/arc_interpolation.h
@@ -69,7 +69,7 @@ class arc_interpolation
 		arc_interpolation();
 		arc_interpolation(arc_interpolation_args args);
 		virtual ~arc_interpolation();
-		void process();
+		bool process();
 		/// <summary>
 		/// Outputs a string description of the firmware arguments.
 		/// </summary>
-- 
2.43.0


From 4c82eebc46157411c0bb91e2eacbffda93199065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:31 +0000
Subject: [PATCH 18/55] fix: initialise the count of processed arc commands

---
 ArcWelderInverseProcessor/arc_interpolation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ArcWelderInverseProcessor/arc_interpolation.cpp b/ArcWelderInverseProcessor/arc_interpolation.cpp
index 96ceb59..297b16a 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.cpp
+++ b/ArcWelderInverseProcessor/arc_interpolation.cpp
@@ -77,12 +77,15 @@ gcode_position_args arc_interpolation::get_args_(bool g90_g91_influences_extrude
 
 arc_interpolation::arc_interpolation()
 {
+  num_arc_commands_ = 0;
+  p_source_position_ = NULL;
   p_current_firmware_ = NULL;
 }
 
 arc_interpolation::arc_interpolation(arc_interpolation_args args) 
 {
   args_ = args;
+  num_arc_commands_ = 0;
   switch (args.firmware_args.firmware_type)
   {
     case firmware_types::MARLIN_1:
-- 
2.43.0


From ceb76f400939ed28880acd1e59b6aea8c6eb04da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:10 +0000
Subject: [PATCH 19/55] fix: keep the temporary file if the source file is gone

---
 ArcWelder/arc_welder.cpp                                | 2 +-
 ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index b4c2a94..f34efd7 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -383,7 +383,7 @@ arc_welder_results arc_welder::process()
         p_logger_->log_exception(logger_type_, results.message);
       }
     }
-    if (!results.success)
+    if (!results.success && utilities::does_file_exist(source_path_))
     {
       // Keep the source file, and do not leave an incomplete temporary file behind
       std::remove(target_path_.c_str());
diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 637ca4a..190142f 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -602,7 +602,10 @@ int run_arc_straightener(int argc, char* argv[])
     p_logger->log(0, log_levels::INFO, log_messages.str());
     if (!utilities::replace_file(args.target_path, args.source_path))
     {
-      std::remove(args.target_path.c_str());
+      if (utilities::does_file_exist(args.source_path))
+      {
+        std::remove(args.target_path.c_str());
+      }
       p_logger->log(0, log_levels::INFO, "Unable to replace the source file.");
       return 1;
     }
-- 
2.43.0


From 1563326a584588b2b8054895b58050b9bd979d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:10 +0000
Subject: [PATCH 20/55] fix: do not truncate the source file when the target
 path leads to the same file

---
 ArcWelder/arc_welder.cpp                       |  7 ++++---
 .../ArcWelderInverseProcessor.cpp              |  7 ++++---
 GcodeProcessorLib/utilities.cpp                | 18 ++++++++++++++++++
 GcodeProcessorLib/utilities.h                  |  2 ++
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index f34efd7..d50c60a 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -220,10 +220,11 @@ arc_welder_results arc_welder::process()
   // Determine if we need to overwrite the source file
   bool overwrite_source_file = false;
   std::string temp_file_path;
-  if (source_path_ == target_path_)
+  const std::string final_target_path = target_path_;
+  if (utilities::is_same_file(source_path_, target_path_))
   {
     overwrite_source_file = true;
-    if (!utilities::get_temp_file_path_for_file(source_path_, temp_file_path))
+    if (!utilities::get_temp_file_path_for_file(target_path_, temp_file_path))
     {
       results.success = false;
       results.message = "The source and target path are the same, but a temporary file path could not be created.  Are the paths empty?";
@@ -376,7 +377,7 @@ arc_welder_results arc_welder::process()
       stream.str("");
       stream << "Replacing the source file at '" << source_path_ << "' with the temporary file at '" << target_path_ << "'.";
       p_logger_->log(logger_type_, log_levels::DEBUG, stream.str());
-      if (!utilities::replace_file(target_path_, source_path_))
+      if (!utilities::replace_file(target_path_, final_target_path))
       {
         results.success = false;
         results.message = "Unable to replace the source file.";
diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 190142f..5fc34f8 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -534,10 +534,11 @@ int run_arc_straightener(int argc, char* argv[])
   std::stringstream log_messages;
   std::string temp_file_path = "";
   log_messages << std::fixed << std::setprecision(DEFAULT_ARG_DOUBLE_PRECISION);
-  if (args.source_path == args.target_path)
+  const std::string final_target_path = args.target_path;
+  if (utilities::is_same_file(args.source_path, args.target_path))
   {
     overwrite_source_file = true;
-    if (!utilities::get_temp_file_path_for_file(args.source_path, temp_file_path))
+    if (!utilities::get_temp_file_path_for_file(args.target_path, temp_file_path))
     {
       log_messages << "The source and target path are the same, but a temporary file path could not be created.  Is the path empty?";
       p_logger->log(0, log_levels::INFO, log_messages.str());
@@ -600,7 +601,7 @@ int run_arc_straightener(int argc, char* argv[])
     log_messages.str("");
     log_messages << "Replacing the source file at '" << args.source_path << "' with the temporary file at '" << args.target_path << "'.";
     p_logger->log(0, log_levels::INFO, log_messages.str());
-    if (!utilities::replace_file(args.target_path, args.source_path))
+    if (!utilities::replace_file(args.target_path, final_target_path))
     {
       if (utilities::does_file_exist(args.source_path))
       {
diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index 4e3c27e..b952546 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -21,6 +21,8 @@
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 
 #include "utilities.h"
+#include <sys/types.h>
+#include <sys/stat.h>
 
 namespace utilities {
 	// Box Drawing Consts
@@ -478,6 +480,22 @@ bool utilities::get_temp_file_path_for_file(const std::string& file_path, std::s
 	return true;
 }
 
+bool utilities::is_same_file(const std::string& file_path_1, const std::string& file_path_2)
+{
+	if (file_path_1 == file_path_2)
+	{
+		return true;
+	}
+#ifndef _WIN32
+	struct stat file_1;
+	struct stat file_2;
+	return stat(file_path_1.c_str(), &file_1) == 0 && stat(file_path_2.c_str(), &file_2) == 0 &&
+		file_1.st_dev == file_2.st_dev && file_1.st_ino == file_2.st_ino;
+#else
+	return false;
+#endif
+}
+
 bool utilities::replace_file(const std::string& source_path, const std::string& target_path)
 {
 #ifdef _WIN32
diff --git a/GcodeProcessorLib/utilities.h b/GcodeProcessorLib/utilities.h
index ed7524b..11a89f3 100644
--- a/GcodeProcessorLib/utilities.h
+++ b/GcodeProcessorLib/utilities.h
@@ -107,6 +107,8 @@ namespace utilities{
 
 	std::string create_uuid();
 
+	// True if both paths lead to the same file.
+	bool is_same_file(const std::string& file_path_1, const std::string& file_path_2);
 	// Move the source file to the target path, replacing an existing target file.
 	bool replace_file(const std::string& source_path, const std::string& target_path);
 	bool does_file_exist(const std::string& file_path);
-- 
2.43.0


From e18215cadc812e37cd55138d9ec4655cf34d79be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:50 +0000
Subject: [PATCH 21/55] fix: check the precision arguments before narrowing
 them

---
 ArcWelderConsole/ArcWelderConsole.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 3564357..f5cacbd 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -264,22 +264,22 @@ int main(int argc, char* argv[])
         throw TCLAP::ArgException("You must also specify a non zero value for the " + mm_per_arc_segment_arg.toString() + " argument.", min_arc_segments_arg.toString());
     }
 
-    if (args.default_xyz_precision < 3)
+    if (default_xyz_precision_arg.getValue() < 3)
     {
         throw TCLAP::ArgException("The provided value is less than 3.", default_xyz_precision_arg.toString());
     }
 
-    if (args.default_e_precision < 3)
+    if (default_e_precision_arg.getValue() < 3)
     {
         throw TCLAP::ArgException("The provided value is less than 3.", default_e_precision_arg.toString());
     }
 
-    if (args.default_xyz_precision > 6)
+    if (default_xyz_precision_arg.getValue() > 6)
     {
         throw TCLAP::ArgException("The provided value is greater than 6.", default_xyz_precision_arg.toString());
     }
 
-    if (args.default_e_precision > 6)
+    if (default_e_precision_arg.getValue() > 6)
     {
         throw TCLAP::ArgException("The provided value is greater than 6.", default_e_precision_arg.toString());
     }
-- 
2.43.0


From 7963686dabff756076ce525d0cb3a01a9ba9296d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:50 +0000
Subject: [PATCH 22/55] fix: exit with an error status instead of aborting when
 an argument is rejected

---
 ArcWelderConsole/ArcWelderConsole.cpp          |  9 ++++++++-
 .../ArcWelderInverseProcessor.cpp              | 18 ++++++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index f5cacbd..8541215 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -345,7 +345,14 @@ int main(int argc, char* argv[])
   catch (TCLAP::ArgException& e)
   {
     // This will raise an exit exception
-    cmd.getOutput()->failure(cmd, e);
+    try
+    {
+      cmd.getOutput()->failure(cmd, e);
+    }
+    catch (TCLAP::ExitException& exit_exception)
+    {
+      return exit_exception.getExitStatus();
+    }
     return 1;
   }
   
diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 5fc34f8..d7cedd4 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -315,7 +315,14 @@ int run_arc_straightener(int argc, char* argv[])
             // This will raise an exit exception
             
         }
-        cmd.getOutput()->failure(cmd, detailed_exception);
+        try
+        {
+            cmd.getOutput()->failure(cmd, detailed_exception);
+        }
+        catch (TCLAP::ExitException& exit_exception)
+        {
+            return exit_exception.getExitStatus();
+        }
         return 1;
     }
 
@@ -514,7 +521,14 @@ int run_arc_straightener(int argc, char* argv[])
   catch (TCLAP::ArgException& e)
   {
     // This will raise an exit exception
-    cmd.getOutput()->failure(cmd, e);
+    try
+    {
+      cmd.getOutput()->failure(cmd, e);
+    }
+    catch (TCLAP::ExitException& exit_exception)
+    {
+      return exit_exception.getExitStatus();
+    }
     return 1;
   }
   catch (TCLAP::ExitException exc)
-- 
2.43.0


From f1499862f1785b2e79850a260b6154d3c7ce47dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:50 +0000
Subject: [PATCH 23/55] fix: use the firmware's G90/G91 behavior when DEFAULT
 is requested

---
 ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index d7cedd4..985a6dc 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -437,7 +437,10 @@ int run_arc_straightener(int argc, char* argv[])
       {
         throw TCLAP::ArgException("The argument does not apply to the " + firmware_type_string + " " + firmware_version_arg.getValue() + " firmware.  Only the following parameters are supported: " + available_arguments_string, g90_arg.toString());
       }
-      args.firmware_args.g90_g91_influences_extruder = g90_arg.getValue() == "TRUE";
+      if (g90_arg.getValue() != g90_g91_influences_extruder_default_value)
+      {
+        args.firmware_args.g90_g91_influences_extruder = g90_arg.getValue() == "TRUE";
+      }
     }
     if (n_arc_correction_arg.isSet())
     {
-- 
2.43.0


From c7b87fb2412dd8459e2865985fa52c68da1f34f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:14 +0000
Subject: [PATCH 24/55] fix: do not round fractional feedrates of arcs

---
 ArcWelder/segmented_arc.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index 027a23d..71d4457 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -355,7 +355,13 @@ std::string segmented_arc::get_shape_gcode() const
   if (has_f)
   {
     gcode += " F";
-    gcode += utilities::dtos(f, 0);
+    // Most feedrates are integers, but do not round those that aren't
+    unsigned char f_precision = 0;
+    while (f_precision < 6 && !utilities::is_zero(f - utilities::floor(f * utilities::pow(10, f_precision) + 0.5) / utilities::pow(10, f_precision)))
+    {
+      f_precision++;
+    }
+    gcode += utilities::dtos(f, f_precision);
   }
 
   return gcode;
-- 
2.43.0


From e42c2a6773d02e759883791798b3a8affcea83f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 25/55] fix: copy an array_list whose front has moved

---
 GcodeProcessorLib/array_list.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/GcodeProcessorLib/array_list.h b/GcodeProcessorLib/array_list.h
index 1befaa6..89b3dfa 100644
--- a/GcodeProcessorLib/array_list.h
+++ b/GcodeProcessorLib/array_list.h
@@ -179,7 +179,6 @@ public:
 		{
 			items_[index] = source[index];
 		}
-		front_index_ = source.front_index_;
 		count_ = source.count_;
 	}
 
-- 
2.43.0


From cd6d1d81fcd9da027ea4fa6d6ca16f2c85764366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 26/55] fix: count and copy the items of a circular_buffer
 correctly

---
 GcodeProcessorLib/circular_buffer.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/GcodeProcessorLib/circular_buffer.h b/GcodeProcessorLib/circular_buffer.h
index 645234e..4cfe756 100644
--- a/GcodeProcessorLib/circular_buffer.h
+++ b/GcodeProcessorLib/circular_buffer.h
@@ -118,11 +118,15 @@ public:
 	{
 		int pos = get_index_position(count_);
 		items_[pos] = object;
-		count_++;
 		if (count_ != max_size_)
 		{
 			count_++;
 		}
+		else
+		{
+			// The buffer is full, the oldest item was replaced
+			front_index_ = get_index_position(1);
+		}
 	}
 
 	T& pop_front()
@@ -193,7 +197,6 @@ public:
 		{
 			items_[index] = source[index];
 		}
-		front_index_ = source.front_index_;
 		count_ = source.count_;
 	}
 
-- 
2.43.0


From cdf8fb2bceac4e7336881beaf5105632f5d54050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 27/55] fix: home every axis listed without a value in G28

---
 GcodeProcessorLib/gcode_position.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 75d8ee4..0df578a 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -1073,6 +1073,17 @@ void gcode_position::process_g28(position* pos, parsed_command& cmd)
 			has_y = true;
 		else if (p_cur_param.name == "Z")
 			has_z = true;
+		// The text of a parameter without a value contains the axes that follow it, as in G28 X Y
+		for (unsigned int char_index = 0; char_index < p_cur_param.string_value.length(); char_index++)
+		{
+			const char axis = p_cur_param.string_value[char_index];
+			if (axis == 'X' || axis == 'x')
+				has_x = true;
+			else if (axis == 'Y' || axis == 'y')
+				has_y = true;
+			else if (axis == 'Z' || axis == 'z')
+				has_z = true;
+		}
 	}
 	if (has_x)
 	{
-- 
2.43.0


From a86587ea87f7c784a1dd9b492771e11494593035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:29 +0000
Subject: [PATCH 28/55] fix: only create 3D arcs whose Z changes evenly along
 the path

---
 ArcWelder/segmented_shape.cpp | 66 ++++++++++++++++++-----------------
 ArcWelder/segmented_shape.h   |  2 ++
 2 files changed, 36 insertions(+), 32 deletions(-)

diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index c24bb7e..bdf189c 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -265,31 +265,44 @@ double circle::get_polar_radians(const point& p1) const
   return polar_radians;
 }
 
+bool circle::is_z_linear(const array_list<printer_point>& points, const double xyz_tolerance)
+{
+  // We need to ensure that Z changes at a constant rate per linear travel unit, including that of the last segment
+  const int max_index = points.count() - 1;
+  double total_distance = 0;
+  for (int index = 0; index < max_index; index++)
+  {
+    total_distance += utilities::get_cartesian_distance(points[index].x, points[index].y, points[index + 1].x, points[index + 1].y);
+  }
+  const double z_start = points[0].z;
+  const double z_change = points[max_index].z - z_start;
+  double distance = 0;
+  for (int index = 1; index < max_index; index++)
+  {
+    distance += utilities::get_cartesian_distance(points[index - 1].x, points[index - 1].y, points[index].x, points[index].y);
+    const double deviation = utilities::abs(points[index].z - (z_start + z_change * distance / total_distance));
+    if (utilities::greater_than(deviation, xyz_tolerance))
+    {
+      return false;
+    }
+  }
+  return true;
+}
+
 bool circle::get_deviation_sum_squared(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance, const bool allow_3d_arcs, double &total_deviation)
 {
-  // We need to ensure that the Z steps are constand per linear travel unit
-  double z_step_per_distance = 0;
   total_deviation = 0;
+  if (allow_3d_arcs && !circle::is_z_linear(points, xyz_tolerance))
+  {
+    // The z step is uneven, can't create arc
+    return false;
+  }
   // Skip the first and last points since they will fit perfectly.
   for (int index = 1; index < points.count() - 1; index++)
   {
     // Make sure the length from the center of our circle to the test point is 
     // at or below our max distance.
     double distance_from_center = utilities::get_cartesian_distance(points[index].x, points[index].y, center.x, center.y);
-    if (allow_3d_arcs) {
-      double z1 = points[index - 1].z;
-      double z2 = points[index].z;
-
-      double current_z_stepper_distance = (z2 - z1) / distance_from_center;
-      if (index == 1) {
-        z_step_per_distance = current_z_stepper_distance;
-      }
-      else if (!utilities::is_equal(z_step_per_distance, current_z_stepper_distance, xyz_tolerance))
-      {
-        // The z step is uneven, can't create arc				
-        return false;
-      }
-    }
     double deviation = utilities::abs(distance_from_center - radius);
     total_deviation += deviation * deviation;
     if (deviation > resolution_mm)
@@ -318,8 +331,11 @@ bool circle::get_deviation_sum_squared(const array_list<printer_point>& points,
 
 bool circle::is_over_deviation(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance, const bool allow_3d_arcs)
 {
-  // We need to ensure that the Z steps are constand per linear travel unit
-  double z_step_per_distance = 0;
+  if (allow_3d_arcs && !circle::is_z_linear(points, xyz_tolerance))
+  {
+    // The z step is uneven, can't create arc
+    return true;
+  }
   // shared point to test
   point point_to_test;
   int max_index = points.count() - 1;
@@ -332,20 +348,6 @@ bool circle::is_over_deviation(const array_list<printer_point>& points, const do
       // Make sure the length from the center of our circle to the test point is 
       // at or below our max distance.
       double distance_from_center = utilities::get_cartesian_distance(current_point.x, current_point.y, center.x, center.y);
-      if (allow_3d_arcs) {
-        double z1 = points[index - 1].z;
-        double z2 = current_point.z;
-
-        double current_z_stepper_distance = (z2 - z1) / distance_from_center;
-        if (index == 1) {
-          z_step_per_distance = current_z_stepper_distance;
-        }
-        else if (!utilities::is_equal(z_step_per_distance, current_z_stepper_distance, xyz_tolerance))
-        {
-          // The z step is uneven, can't create arc				
-          return true;
-        }
-      }
       if (utilities::abs(distance_from_center - radius) > resolution_mm)
       {
         return true;
diff --git a/ArcWelder/segmented_shape.h b/ArcWelder/segmented_shape.h
index 8063a14..4cbaa38 100644
--- a/ArcWelder/segmented_shape.h
+++ b/ArcWelder/segmented_shape.h
@@ -129,6 +129,8 @@ struct circle {
 
 	point get_closest_point(const point& p) const;
 
+	static bool is_z_linear(const array_list<printer_point>& points, const double xyz_tolerance);
+
 	bool is_over_deviation(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance, const bool allow_3d_arcs);
 	
 	bool get_deviation_sum_squared(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance, const bool allow_3d_arcs, double& sum_deviation);
-- 
2.43.0


From 77cc5ef8524bba53a5c1f0bbf2a0458e9d109f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:29 +0000
Subject: [PATCH 29/55] fix: recognise counterclockwise arcs whose middle lies
 exactly at angle zero

---
 ArcWelder/segmented_shape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index bdf189c..925f1bc 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -418,7 +418,7 @@ bool arc::try_create_arc(
   {
     if (
       (polar_start_theta < polar_mid_theta && polar_mid_theta < (2.0 * PI_DOUBLE)) ||
-      (0.0 < polar_mid_theta && polar_mid_theta < polar_end_theta)
+      (0.0 <= polar_mid_theta && polar_mid_theta < polar_end_theta)
       )
     {
       direction = DirectionEnum::COUNTERCLOCKWISE;
-- 
2.43.0


From d13100e3f09be002159d1f8e938e1f472095f259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:38 +0000
Subject: [PATCH 30/55] fix: compare the extrusion rates of moves with a blank
 line between them

---
 ArcWelder/arc_welder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index d50c60a..640d21c 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -752,8 +752,11 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
       }
     }
 
-    // Reset the previous extrusion rate
-    previous_extrusion_rate_ = 0;
+    // Reset the previous extrusion rate, except for blank lines, which do not interrupt an arc
+    if (!cmd.is_empty || cmd.comment.length() > 0)
+    {
+      previous_extrusion_rate_ = 0;
+    }
   }
 
   if (!arc_added && (is_end || !(cmd.is_empty && cmd.comment.length() == 0)))
-- 
2.43.0


From e2d3f21407a550ee57338a25d4a88264e3f24f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:03 +0000
Subject: [PATCH 31/55] fix: compare the feature types of moves with a blank
 line between them

---
 ArcWelder/arc_welder.cpp | 7 +++++--
 ArcWelder/arc_welder.h   | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 640d21c..fc9e00e 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -97,6 +97,7 @@ arc_welder::arc_welder(arc_welder_args args) : current_arc_(
     previous_feedrate_ = -1;
     gcode_position_args_.set_num_extruders(8);
     previous_extrusion_rate_ = 0;
+    previous_feature_type_tag_ = 0;
     box_encoding_ = args.box_encoding;
     for (int index = 0; index < 8; index++)
     {
@@ -613,12 +614,14 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
         ) &&
       p_cur_pos->is_extruder_relative == is_previous_extruder_relative &&
       (!waiting_for_arc_ || p_pre_pos->f == p_cur_pos->f) && // might need to skip the waiting for arc check...
-      (!waiting_for_arc_ || p_pre_pos->feature_type_tag == p_cur_pos->feature_type_tag)
+      (!waiting_for_arc_ || previous_feature_type_tag_ == p_cur_pos->feature_type_tag)
       )
     ) {
 
     // Record the extrusion rate
     previous_extrusion_rate_ = mm_extruded_per_mm_travel;
+    // Record the feature type, since a blank line between two moves has none
+    previous_feature_type_tag_ = p_cur_pos->feature_type_tag;
     printer_point p(p_cur_pos->get_gcode_x(), p_cur_pos->get_gcode_y(), p_cur_pos->get_gcode_z(), extruder_current.get_offset_e(), extruder_current.e_relative, p_cur_pos->f, movement_length_mm, p_pre_pos->is_extruder_relative);
     if (!waiting_for_arc_)
     {
@@ -733,7 +736,7 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
         {
           p_logger_->log(logger_type_, log_levels::DEBUG, "Feedrate changed, cannot add point to current arc: " + cmd.gcode);
         }
-        else if (waiting_for_arc_ && p_pre_pos->feature_type_tag != p_cur_pos->feature_type_tag)
+        else if (waiting_for_arc_ && previous_feature_type_tag_ != p_cur_pos->feature_type_tag)
         {
           p_logger_->log(logger_type_, log_levels::DEBUG, "Feature type changed, cannot add point to current arc: " + cmd.gcode);
         }
diff --git a/ArcWelder/arc_welder.h b/ArcWelder/arc_welder.h
index 7535bf0..8600332 100644
--- a/ArcWelder/arc_welder.h
+++ b/ArcWelder/arc_welder.h
@@ -761,6 +761,7 @@ private:
 	gcode_position* p_source_position_;
 	double previous_feedrate_;
 	double previous_extrusion_rate_;
+	int previous_feature_type_tag_;
 	double extrusion_rate_variance_percent_;
 	gcode_parser parser_;
 	bool verbose_output_;
-- 
2.43.0


From fcfa9aaae61e651caf1647fe1dce005c3fba018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:10 +0000
Subject: [PATCH 32/55] fix: check the order of all points of an arc, not only
 of the last two

---
 ArcWelder/segmented_shape.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index 925f1bc..732ad64 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -568,7 +568,8 @@ bool arc::are_points_within_slice(const arc& test_arc, const array_list<printer_
   }
 
   // Need to see if point 1 to point 2 cross zero
-  for (int index = point_count - 2; index < point_count; index++)
+  // All points must be tested, since the direction of the arc may have changed with its latest point
+  for (int index = 1; index < point_count; index++)
   {
     double polar_test;
     if (index < point_count - 1)
-- 
2.43.0


From 955beb883f59a2d99bf2a43cffc120fbdd32d7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:05 +0000
Subject: [PATCH 33/55] fix: keep bytes above 127 in the command text when the
 format is not preserved

---
 GcodeProcessorLib/gcode_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 0424621..cbf8cef 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -154,7 +154,7 @@ bool gcode_parser::try_parse_gcode(const char * gcode, parsed_command & command,
 		char cur_char = *p_gcode;
 		if (cur_char == '\0' || cur_char == ';')
 			break;
-		else if (cur_char > 32 || (cur_char == ' ' && has_seen_character))
+		else if (static_cast<unsigned char>(cur_char) > 32 || (cur_char == ' ' && has_seen_character))
 		{
 			if (!preserve_format && !is_text_only_parameter && (cur_char >= 'a' && cur_char <= 'z'))
 				command.gcode.push_back(cur_char - 32);
-- 
2.43.0


From 285c072216e78169bbed82a4efc5be50c54233d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:16 +0000
Subject: [PATCH 34/55] fix: keep the comment of an @OCTOLAPSE command without
 a parameter

---
 GcodeProcessorLib/gcode_parser.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index cbf8cef..4fd5316 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -180,13 +180,13 @@ bool gcode_parser::try_parse_gcode(const char * gcode, parsed_command & command,
 			
 			parsed_command_parameter octolapse_parameter;
 
-			if (!try_extract_octolapse_parameter(&p, &octolapse_parameter))
+			bool has_parameter = try_extract_octolapse_parameter(&p, &octolapse_parameter);
+			if (has_parameter)
 			{
-				return true;
+				command.parameters.push_back(octolapse_parameter);
 			}
-			command.parameters.push_back(octolapse_parameter);
 			// Extract any additional parameters the old way
-			while (true)
+			while (has_parameter)
 			{
 				//std::cout << "GcodeParser.try_parse_gcode - Trying to extract parameters.\r\n";
 				parsed_command_parameter param;
@@ -208,12 +208,11 @@ bool gcode_parser::try_parse_gcode(const char * gcode, parsed_command & command,
 		){
 			//std::cout << "GcodeParser.try_parse_gcode - Text only parameter found.\r\n";
 			parsed_command_parameter text_command;
-			if (!try_extract_text_parameter(&p, &(text_command.string_value)))
+			if (try_extract_text_parameter(&p, &(text_command.string_value)))
 			{
-				return true;
+				text_command.name = '\0';
+				command.parameters.push_back(text_command);
 			}
-			text_command.name = '\0';
-			command.parameters.push_back(text_command);
 		}
 		else
 		{
-- 
2.43.0


From 7948712e9f5f601206d681f3f1be27fe29a8896a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:41 +0000
Subject: [PATCH 35/55] fix: a move back to the height of the last extrusion is
 no z-hop

---
 GcodeProcessorLib/gcode_position.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 0df578a..748235d 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -623,6 +623,9 @@ void gcode_position::update(parsed_command& command, const long file_line_number
 			p_current_pos->is_in_bounds = is_in_bounds;
 		}
 
+		// A move that does not end above the last extrusion is no z-hop
+		p_current_pos->is_zhop = false;
+
 		// calculate last_extrusion_height and height
 		// If we are extruding on a higher level, or if retract is enabled and the nozzle is primed
 		// adjust the last extrusion height
-- 
2.43.0


From 2ea1328ba9d85b392d37cec8f6e2910f785a2690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:18 +0000
Subject: [PATCH 36/55] fix: keep ;FLAVOR:UltiGCode as the first line of files
 with CRLF line ends

---
 ArcWelder/arc_welder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index fc9e00e..1cb3b2a 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -282,7 +282,8 @@ arc_welder_results arc_welder::process()
 // This comment MUST be preserved as the first line for ultimakers, else things won't work
     if (lines_processed_ == 1)
     {
-      bool isUltiGCode = line == ";FLAVOR:UltiGCode";
+      // The line may end with a carriage return
+      bool isUltiGCode = line == ";FLAVOR:UltiGCode" || line == ";FLAVOR:UltiGCode\r";
       bool isPrusaSlicer = line.rfind("; generated by PrusaSlicer", 0) == 0;
       if (isUltiGCode || isPrusaSlicer)
       {
-- 
2.43.0


From 1372efb1af2ec1b73cda6b2fc908eaf84b4690f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:30 +0000
Subject: [PATCH 37/55] fix: report the size of the source file as the position
 after a last line without a newline

---
 ArcWelder/arc_welder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 1cb3b2a..e2181a1 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -332,7 +332,9 @@ arc_welder_results arc_welder::process()
         {
           p_logger_->log(logger_type_, log_levels::VERBOSE, "Sending progress update.");
         }
-        continue_processing = on_progress_(get_progress_(static_cast<long>(gcodeFile.tellg()), static_cast<double>(start_clock)));
+        // There is no read position after the last line, if it doesn't end with a newline
+        const long source_file_position = gcodeFile.eof() ? file_size_ : static_cast<long>(gcodeFile.tellg());
+        continue_processing = on_progress_(get_progress_(source_file_position, static_cast<double>(start_clock)));
         next_update_time = get_next_update_time();
       }
     }
-- 
2.43.0


From 1c0e45ea8dc35b251ff16d14115df876031033a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 38/55] fix: Repetier 1.0.5 arcs use the whole angle, not its
 integer part

---
 ArcWelderInverseProcessor/repetier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/repetier.cpp b/ArcWelderInverseProcessor/repetier.cpp
index 8ba61ee..78dea06 100644
--- a/ArcWelderInverseProcessor/repetier.cpp
+++ b/ArcWelderInverseProcessor/repetier.cpp
@@ -192,7 +192,7 @@ void repetier::arc_1_0_5(float* position, float* target, float* offset, float ra
   }
 
   // Determine the number of mm of total travel
-  float millimeters_of_travel = abs(angular_travel) * radius;
+  float millimeters_of_travel = utilities::absf(angular_travel) * radius;
   if (linear_travel)
   {
     // If we have any Z motion, add this to the total mm of travel.
-- 
2.43.0


From dc474f1b9a4aac6d58f6df5db123851ee14fbc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 39/55] fix: Marlin 2 segments per second divide a feedrate per
 second

---
 ArcWelderInverseProcessor/marlin_2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index f5dac6b..593ec84 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -225,7 +225,7 @@ void marlin_2::plan_arc_2_0_9_1(
   }
   else if (args_.arc_segments_per_sec > 0)
   {
-    seg_length = utilities::maxf(scaled_fr_mm_s * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.mm_per_arc_segment);
+    seg_length = utilities::maxf(scaled_fr_mm_s / 60.0f * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.mm_per_arc_segment);
   }
 
   // Divide total travel by nominal segment length
@@ -429,7 +429,7 @@ void marlin_2::plan_arc_2_0_9_2(
   // Get the nominal segment length based on settings
   float nominal_segment_mm;
   if (args_.arc_segments_per_sec > 0) {
-    nominal_segment_mm = utilities::constrainf(scaled_fr_mm_s * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.min_arc_segment_mm, (float)args_.max_arc_segment_mm);
+    nominal_segment_mm = utilities::constrainf(scaled_fr_mm_s / 60.0f * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.min_arc_segment_mm, (float)args_.max_arc_segment_mm);
   }
   else {
     nominal_segment_mm = (float)args_.max_arc_segment_mm;
-- 
2.43.0


From f032b6ac922f5659c0aebf2e7746223297b767c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 40/55] fix: rounding of relative distances does not add up
 along an arc

---
 ArcWelderInverseProcessor/firmware.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/ArcWelderInverseProcessor/firmware.cpp b/ArcWelderInverseProcessor/firmware.cpp
index bab3968..9b2872c 100644
--- a/ArcWelderInverseProcessor/firmware.cpp
+++ b/ArcWelderInverseProcessor/firmware.cpp
@@ -33,6 +33,7 @@
 
 #include "firmware.h"
 #include "utilities.h"
+#include <cstdlib>
 
 firmware::firmware() {
   version_index_ = -1;
@@ -69,6 +70,20 @@ int firmware::get_num_arc_segments_generated()
   return num_arc_segments_generated_;
 }
 
+// Formats the coordinate of a move.  A distance (relative mode) is rounded when it is written, so the target 
+// becomes the coordinate the written distance leads to.  That way the next distance makes up for the rounding, which
+// would otherwise add up from segment to segment.
+static std::string coordinate(double& target, double current, bool is_relative, unsigned char precision)
+{
+  if (!is_relative)
+  {
+    return utilities::dtos(target, precision);
+  }
+  std::string distance = utilities::dtos(target - current, precision);
+  target = current + std::strtod(distance.c_str(), NULL);
+  return distance;
+}
+
 std::string firmware::g1_command(firmware_position& target)
 {
   num_arc_segments_generated_++;
@@ -84,28 +99,28 @@ std::string firmware::g1_command(firmware_position& target)
   if (has_x)
   {
     gcode += is_first_parameter ? "X" : " X";
-    gcode += utilities::dtos(state_.is_relative ? target.x - position_.x : target.x, 3);
+    gcode += coordinate(target.x, position_.x, state_.is_relative, 3);
     is_first_parameter = false;
   }
 
   if (has_y)
   {
     gcode += is_first_parameter ? "Y" : " Y";
-    gcode += utilities::dtos(state_.is_relative ? target.y - position_.y : target.y, 3);
+    gcode += coordinate(target.y, position_.y, state_.is_relative, 3);
     is_first_parameter = false;
   }
 
   if (has_z)
   {
     gcode += is_first_parameter ? "Z" : " Z";
-    gcode += utilities::dtos(state_.is_relative ? target.z - position_.z : target.z, 3);
+    gcode += coordinate(target.z, position_.z, state_.is_relative, 3);
     is_first_parameter = false;
   }
 
   if (has_e)
   {
     gcode += is_first_parameter ? "E" : " E";
-    gcode += utilities::dtos(state_.is_extruder_relative ? target.e - position_.e : target.e, 5);
+    gcode += coordinate(target.e, position_.e, state_.is_extruder_relative, 5);
     is_first_parameter = false;
   }
 
-- 
2.43.0


From bd02278a9ec977abfa8453d2813356a27b49f28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:11 +0000
Subject: [PATCH 41/55] fix: writing numbers close to zero does not overrun the
 buffer

---
 GcodeProcessorLib/fpconv.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/GcodeProcessorLib/fpconv.cpp b/GcodeProcessorLib/fpconv.cpp
index 9c2b8ee..31ab398 100644
--- a/GcodeProcessorLib/fpconv.cpp
+++ b/GcodeProcessorLib/fpconv.cpp
@@ -364,6 +364,17 @@ static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, boo
   /* fp < 1.0 -> write leading zero */
   if (offset <= 0) {
     offset = -offset;
+    // digits behind the one that decides the rounding are not needed, and may not fit
+    int needed = precision + 1 - offset;
+    if (needed < 0)
+    {
+      needed = 0;
+      offset = precision + 1;
+    }
+    if (ndigits > needed)
+    {
+      ndigits = needed;
+    }
     dest[0] = '0';
     dest[1] = '.';
     memset(dest + 2, '0', offset);
-- 
2.43.0


From 749086a556ef544bff69e7bdb546de03542fe655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:11 +0000
Subject: [PATCH 42/55] fix: write integers of nine and more digits as they are

---
 GcodeProcessorLib/fpconv.cpp  | 5 ++---
 GcodeProcessorLib/utilities.h | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/GcodeProcessorLib/fpconv.cpp b/GcodeProcessorLib/fpconv.cpp
index 31ab398..578288b 100644
--- a/GcodeProcessorLib/fpconv.cpp
+++ b/GcodeProcessorLib/fpconv.cpp
@@ -334,10 +334,9 @@ static int emit_digits(char* digits, int ndigits, char* dest, int K, bool neg)
 
 static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, bool neg, unsigned char precision)
 {
-  int exp = absv(K + ndigits - 1);
-  unsigned char length = 0;
+  int length = 0;
   /* write plain integer */
-  if (K >= 0 && (exp < (ndigits + 7))) {
+  if (K >= 0) {
     memcpy(dest, digits, ndigits);
     memset(dest + ndigits, '0', K);
     // pad with 0s if we need to 
diff --git a/GcodeProcessorLib/utilities.h b/GcodeProcessorLib/utilities.h
index 11a89f3..fac2367 100644
--- a/GcodeProcessorLib/utilities.h
+++ b/GcodeProcessorLib/utilities.h
@@ -35,7 +35,8 @@
 #include <cstring>
 #include "fpconv.h"
 
-#define FPCONV_BUFFER_LENGTH 25
+// the longest double has 309 digits, a sign, a point and up to 255 decimals
+#define FPCONV_BUFFER_LENGTH 576
 // Had to increase the zero tolerance because prusa slicer doesn't always 
 // retract enough while wiping.
 #define ZERO_TOLERANCE 0.000005
-- 
2.43.0


From d18abf672fb09c226aee47bbeeb54562d4db5323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 43/55] fix: release firmware objects the way they were created

---
 ArcWelderInverseProcessor/firmware.h   | 2 ++
 ArcWelderInverseProcessor/marlin_1.cpp | 2 +-
 ArcWelderInverseProcessor/marlin_2.cpp | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ArcWelderInverseProcessor/firmware.h b/ArcWelderInverseProcessor/firmware.h
index 3113539..357139a 100644
--- a/ArcWelderInverseProcessor/firmware.h
+++ b/ArcWelderInverseProcessor/firmware.h
@@ -449,6 +449,8 @@ public:
   /// <returns></returns>
   virtual std::string interpolate_arc(firmware_position& target, double i, double j, double r, bool is_clockwise);
 
+  virtual ~firmware() {}
+
   /// <summary>
   /// Sets the current position.  Should be called before interpolate_arc.
   /// </summary>
diff --git a/ArcWelderInverseProcessor/marlin_1.cpp b/ArcWelderInverseProcessor/marlin_1.cpp
index 3bdf86f..a295f73 100644
--- a/ArcWelderInverseProcessor/marlin_1.cpp
+++ b/ArcWelderInverseProcessor/marlin_1.cpp
@@ -42,7 +42,7 @@ marlin_1::marlin_1(firmware_arguments args) : firmware(args) {
 
 marlin_1::~marlin_1()
 {
-	delete current_position;
+	delete[] current_position;
 }
 
 void marlin_1::apply_arguments()
diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index 593ec84..9117099 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -41,7 +41,7 @@ marlin_2::marlin_2(firmware_arguments args) : firmware(args) {
 
 marlin_2::~marlin_2()
 {
-  delete current_position;
+  delete[] current_position;
 }
 
 void marlin_2::apply_arguments()
-- 
2.43.0


From 5bc3fb61fda93ed1de460b2df9613405ed354804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:27 +0000
Subject: [PATCH 44/55] fix: reject an unknown option after the source instead
 of using it as the target path

---
 ArcWelderConsole/ArcWelderConsole.cpp                   | 6 ++++++
 ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 8541215..9f384c1 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -207,6 +207,12 @@ int main(int argc, char* argv[])
       args.target_path = args.source_path;
     }
 
+    // An unknown option is not the path of the target.  Everything following '--' is a path.
+    if (args.target_path.size() > 1 && args.target_path[0] == '-' && !TCLAP::Arg::ignoreRest())
+    {
+      throw TCLAP::CmdLineParseException("Couldn't find match for argument", args.target_path);
+    }
+
     args.resolution_mm = resolution_arg.getValue();
     args.max_radius_mm = max_radius_arg.getValue();
     args.min_arc_segments = min_arc_segments_arg.getValue();
diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 985a6dc..a029ec3 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -387,6 +387,12 @@ int run_arc_straightener(int argc, char* argv[])
       args.target_path = args.source_path;
     }
 
+    // An unknown option is not the path of the target.  Everything following '--' is a path.
+    if (args.target_path.size() > 1 && args.target_path[0] == '-' && !TCLAP::Arg::ignoreRest())
+    {
+      throw TCLAP::CmdLineParseException("Couldn't find match for argument", args.target_path);
+    }
+
     // ensure the source file exists
     if (!utilities::does_file_exist(args.source_path))
     {
-- 
2.43.0


From 06d8f578e0ddffe3d5a7802173ebdf2a8e8408c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 45/55] fix: do not warn about the maximum radius when the
 extrusion rate variance is 0

---
 ArcWelderConsole/ArcWelderConsole.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 9f384c1..afc96c7 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -312,7 +312,7 @@ int main(int argc, char* argv[])
     if (args.extrusion_rate_variance_percent == 0)
     {
         // warning
-        std::cout << "warning: The provided path max radius of " << args.max_radius_mm << "mm is greater than 1000000 (1km), which is not recommended.\n";
+        std::cout << "warning: The provided extrusion rate variance percent is 0, extrusion rates will not be compared.\n";
     }
 
     if (args.max_radius_mm > 1000000)
-- 
2.43.0


From 6fb08583325203aed9310b0f284990273b1908d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 46/55] fix: write Z of a 3D arc however little it changes

A change of Z below the precision was left out of the arc, so that the Z of a
slowly rising path was off by any amount after enough arcs in a row.
---
 ArcWelder/segmented_arc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index 71d4457..b6e7c26 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -303,8 +303,9 @@ std::string segmented_arc::get_shape_gcode() const
   double f = current_arc_.start_point.f == current_arc_.end_point.f ? 0 : current_arc_.end_point.f;
   bool has_e = e_relative_ != 0;
   bool has_f = utilities::greater_than_or_equal(f, 1);
+  // However small the change is, it must not be lost, or it would add up over the following arcs
   bool has_z = allow_3d_arcs_ && !utilities::is_equal(
-    current_arc_.start_point.z, current_arc_.end_point.z, get_xyz_tolerance()
+    current_arc_.start_point.z, current_arc_.end_point.z
   );
   gcode.reserve(96);
 
-- 
2.43.0


From 69c525729413ee25b85590441dc1f8858f9cd077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:37 +0000
Subject: [PATCH 47/55] fix: do not weld an arc whose written end may fall on
 or behind its start

---
 ArcWelder/segmented_arc.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index b6e7c26..c874a2c 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -273,6 +273,12 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
         // the arc length is below our tolerance, abort!
         abort_arc = true;
       }
+      else if (point::cartesian_distance(current_arc_.start_point, current_arc_.end_point) < 2.0 * get_xyz_tolerance())
+      {
+        // Once rounded, the end may come to lie on or behind the start, which would turn a short arc into
+        // a full circle, and a nearly full circle into a short arc
+        abort_arc = true;
+      }
     }
     
     if (abort_arc)
-- 
2.43.0


From d15d5b5131b9ff82b8569d299f778e41be46321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:30 +0000
Subject: [PATCH 48/55] fix: send the converter's log messages and the warnings
 about arguments to the Python logger

---
 PyArcWelder/py_arc_welder.cpp | 30 +++++++++++++++---------------
 PyArcWelder/py_logger.cpp     |  4 ++--
 PyArcWelder/py_logger.h       |  4 ++--
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 65dabc9..7a85a7d 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -254,13 +254,13 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     if (args.default_xyz_precision < 3)
     {
       std::string message = "ParseArgs - The default XYZ precision received was less than 3, which could cause problems printing arcs.  Setting to 3.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 3;
     }
     else if (args.default_xyz_precision > 6)
     {
       std::string message = "ParseArgs - The default XYZ precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 6;
     }
   }
@@ -271,20 +271,20 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_default_e_precision == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'default_e_precision parameter' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
     args.default_e_precision = (unsigned char)gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
     if (args.default_e_precision < 3)
     {
       std::string message = "ParseArgs - The default E precision received was less than 3, which could cause extrusion problems.  Setting to 3.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 3;
     }
     else if (args.default_e_precision > 6)
     {
       std::string message = "ParseArgs - The default E precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 6;
     }
   }
@@ -295,7 +295,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_extrusion_rate_variance_percent == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'extrusion_rate_variance_percent' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -312,7 +312,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_path_tolerance_percent == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'path_tolerance_percent' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -329,7 +329,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_max_radius_mm == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'max_radius_mm' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -346,7 +346,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_mm_per_arc_segment == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'mm_per_arc_segment' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -363,7 +363,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_min_arc_segments == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'min_arc_segments' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -380,7 +380,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_max_gcode_length == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'max_gcode_length' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -397,7 +397,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_allow_3d_arcs == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'allow_3d_arcs' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -410,7 +410,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_allow_travel_arcs == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'allow_travel_arcs' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -424,7 +424,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_g90_g91_influences_extruder == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'g90_g91_influences_extruder' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -437,7 +437,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_log_level == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'log_level' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
diff --git a/PyArcWelder/py_logger.cpp b/PyArcWelder/py_logger.cpp
index da7b935..cdec882 100644
--- a/PyArcWelder/py_logger.cpp
+++ b/PyArcWelder/py_logger.cpp
@@ -122,12 +122,12 @@ void py_logger::log_exception(const int logger_type, const std::string& message)
 	log(logger_type, log_levels::ERROR, message, true);
 }
 
-void py_logger::log(const int logger_type, const int log_level, const std::string& message)
+void py_logger::log(const int logger_type, log_levels log_level, const std::string& message)
 {
 	log(logger_type, log_level, message, false);
 }
 
-void py_logger::log(const int logger_type, const int log_level, const std::string& message, bool is_exception)
+void py_logger::log(const int logger_type, log_levels log_level, const std::string& message, bool is_exception)
 {
 	if (!loggers_created_)
 		return;
diff --git a/PyArcWelder/py_logger.h b/PyArcWelder/py_logger.h
index cf74e7b..6168b37 100644
--- a/PyArcWelder/py_logger.h
+++ b/PyArcWelder/py_logger.h
@@ -45,8 +45,8 @@ public:
 	}
 	void initialize_loggers();
 	void set_internal_log_levels(bool check_real_time);
-	virtual void log(const int logger_type, const int log_level, const std::string& message);
-	virtual void log(const int logger_type, const int log_level, const std::string& message, bool is_exception);
+	virtual void log(const int logger_type, log_levels log_level, const std::string& message);
+	virtual void log(const int logger_type, log_levels log_level, const std::string& message, bool is_exception);
 	virtual void log_exception(const int logger_type, const std::string& message);
 private:
 	bool check_log_levels_real_time;
-- 
2.43.0


From b0e5569ebc2784ff137e2b9c6337bd7167949ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:19 +0000
Subject: [PATCH 49/55] fix: log messages about lines which are not valid UTF-8

---
 PyArcWelder/python_helpers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyArcWelder/python_helpers.cpp b/PyArcWelder/python_helpers.cpp
index a77ff31..274ec10 100644
--- a/PyArcWelder/python_helpers.cpp
+++ b/PyArcWelder/python_helpers.cpp
@@ -53,7 +53,8 @@ namespace gcode_arc_converter {
 	PyObject* PyUnicode_SafeFromString(std::string str)
 	{
 #if PY_MAJOR_VERSION >= 3
-		return PyUnicode_FromString(str.c_str());
+		// The text may come from a file, so it isn't necessarily valid UTF-8
+		return PyUnicode_DecodeUTF8(str.c_str(), static_cast<Py_ssize_t>(str.length()), "replace");
 #else
 		// TODO:  try PyUnicode_DecodeUnicodeEscape maybe?
 		//return PyUnicode_DecodeUTF8(str.c_str(), NULL, "replace");
-- 
2.43.0


From 8b422a7460de2453fd41fa872224cbbd001be3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:19 +0000
Subject: [PATCH 50/55] fix: raise an exception for arguments of the wrong type
 instead of crashing or ignoring them

---
 PyArcWelder/py_arc_welder.cpp  | 35 +++++++++++++++++++++++++++++++---
 PyArcWelder/py_logger.cpp      | 24 +++++++++++------------
 PyArcWelder/python_helpers.cpp |  2 +-
 3 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 7a85a7d..9951afe 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -173,7 +173,14 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
-  args.guid = gcode_arc_converter::PyUnicode_SafeAsString(py_guid);
+  const char* guid = gcode_arc_converter::PyUnicode_SafeAsString(py_guid);
+  if (guid == NULL)
+  {
+    std::string message = "ParseArgs - The required parameter 'guid' is not a string.";
+    p_py_logger->log_exception(GCODE_CONVERSION, message);
+    return false;
+  }
+  args.guid = guid;
 #pragma endregion guid
 #pragma region source_path
   // Extract the source file path
@@ -184,7 +191,14 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
-  args.source_path = gcode_arc_converter::PyUnicode_SafeAsString(py_source_path);
+  const char* source_path = gcode_arc_converter::PyUnicode_SafeAsString(py_source_path);
+  if (source_path == NULL)
+  {
+    std::string message = "ParseArgs - The required parameter 'source_path' is not a string.";
+    p_py_logger->log_exception(GCODE_CONVERSION, message);
+    return false;
+  }
+  args.source_path = source_path;
 #pragma endregion source_path
 #pragma region target_path
   // Extract the target file path
@@ -195,7 +209,14 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
-  args.target_path = gcode_arc_converter::PyUnicode_SafeAsString(py_target_path);
+  const char* target_path = gcode_arc_converter::PyUnicode_SafeAsString(py_target_path);
+  if (target_path == NULL)
+  {
+    std::string message = "ParseArgs - The required parameter 'target_path' is not a string.";
+    p_py_logger->log_exception(GCODE_CONVERSION, message);
+    return false;
+  }
+  args.target_path = target_path;
 #pragma endregion target_path
 #pragma region on_progress_received
   // on_progress_received
@@ -448,5 +469,13 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
 #pragma endregion log_level
 #pragma endregion Optional_Arguments
 
+  if (PyErr_Occurred())
+  {
+    // At least one parameter has the wrong type
+    Py_CLEAR(*py_progress_callback);
+    std::string message = "ParseArgs - Unable to convert the args.";
+    p_py_logger->log_exception(GCODE_CONVERSION, message);
+    return false;
+  }
   return true;
 }
\ No newline at end of file
diff --git a/PyArcWelder/py_logger.cpp b/PyArcWelder/py_logger.cpp
index cdec882..c9d25b6 100644
--- a/PyArcWelder/py_logger.cpp
+++ b/PyArcWelder/py_logger.cpp
@@ -163,16 +163,17 @@ void py_logger::log(const int logger_type, log_levels log_level, const std::stri
 	PyObject* error_value = NULL;
 	PyObject* error_traceback = NULL;
 	bool error_occurred = false;
+	if (PyErr_Occurred())
+	{
+		// Python must not be called while an error is set.  It will be restored after logging the message.
+		error_occurred = true;
+		PyErr_Fetch(&error_type, &error_value, &error_traceback);
+		PyErr_NormalizeException(&error_type, &error_value, &error_traceback);
+	}
 	if (is_exception)
 	{
 		// if an error has occurred, use the exception function to log the entire error
 		pyFunctionName = py_error_function_name;
-		if (PyErr_Occurred())
-		{
-			error_occurred = true;
-			PyErr_Fetch(&error_type, &error_value, &error_traceback);
-			PyErr_NormalizeException(&error_type, &error_value, &error_traceback);
-		}
 	}
 	else
 	{
@@ -240,13 +241,10 @@ void py_logger::log(const int logger_type, log_levels log_level, const std::stri
 	else
 	{
 		// Set the exception if we are doing exception logging.
-		if (is_exception)
-		{
-			if (error_occurred)
-				PyErr_Restore(error_type, error_value, error_traceback);
-			else
-				PyErr_SetString(PyExc_Exception, message.c_str());
-		}
+		if (is_exception && !error_occurred)
+			PyErr_SetString(PyExc_Exception, message.c_str());
 	}
+	if (error_occurred)
+		PyErr_Restore(error_type, error_value, error_traceback);
 	Py_XDECREF(ret_val);
 }
diff --git a/PyArcWelder/python_helpers.cpp b/PyArcWelder/python_helpers.cpp
index 274ec10..80a723c 100644
--- a/PyArcWelder/python_helpers.cpp
+++ b/PyArcWelder/python_helpers.cpp
@@ -92,7 +92,7 @@ namespace gcode_arc_converter {
 #endif
 		else if (PyLong_CheckExact(py_double_or_int))
 			return static_cast<double>(PyLong_AsLong(py_double_or_int));
-		return 0;
+		return PyFloat_AsDouble(py_double_or_int);
 	}
 
 	long PyIntOrLong_AsLong(PyObject* value)
-- 
2.43.0


From d489be0a617d78aa93617a4dd66b65363187f685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 51/55] fix: don't go on with the exception of a progress
 callback set

---
 PyArcWelder/py_arc_welder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 9951afe..147a205 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -138,6 +138,8 @@ bool py_arc_welder::on_progress_(const arc_welder_progress& progress)
   if (pContinueProcessing == NULL)
   {
     // no return value was supply, assume true, but without decrefing pContinueProcessing
+    // The callback raised an exception, which must not be set while calling into python again
+    PyErr_Print();
     continue_processing = true;
   }
   else
@@ -149,6 +151,8 @@ bool py_arc_welder::on_progress_(const arc_welder_progress& progress)
     else
     {
       continue_processing = PyLong_AsLong(pContinueProcessing) > 0;
+      if (PyErr_Occurred())
+        PyErr_Print();
     }
     Py_DECREF(pContinueProcessing);
   }
-- 
2.43.0


From 8437f63065e49cf73dc1b9c13d4d044ce89ab843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 52/55] fix: report a failed conversion by its results only,
 and log that it is complete

---
 PyArcWelder/py_arc_welder_extension.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyArcWelder/py_arc_welder_extension.cpp b/PyArcWelder/py_arc_welder_extension.cpp
index 4ad2518..f05a494 100644
--- a/PyArcWelder/py_arc_welder_extension.cpp
+++ b/PyArcWelder/py_arc_welder_extension.cpp
@@ -202,7 +202,9 @@ extern "C"
 		py_arc_welder arc_welder_obj(args);
 		arc_welder_results results;
 		results = arc_welder_obj.process();
-		
+		// Errors are reported by the results, so they must not be raised as well
+		PyErr_Clear();
+
 		message = "py_gcode_arc_converter.ConvertFile - Arc Conversion Complete.";
 		p_py_logger->log(GCODE_CONVERSION, log_levels::INFO, message);
 		Py_XDECREF(py_progress_callback);
-- 
2.43.0


From 2fc627c862d6fed79216bb25d6215eb76b89c977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 53/55] fix: release the strings of the progress and the
 progress of the results

---
 PyArcWelder/py_arc_welder.cpp           | 4 ++++
 PyArcWelder/py_arc_welder_extension.cpp | 7 +++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 147a205..b912afb 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -112,6 +112,10 @@ PyObject* py_arc_welder::build_py_progress(const arc_welder_progress& progress,
   PyDict_SetItemString(py_progress, "segment_statistics_text", pyMessage);
   PyDict_SetItemString(py_progress, "segment_travel_statistics_text", pyTravelMessage);
   PyDict_SetItemString(py_progress, "guid", pyGuid);
+  // The dictionary holds its own references
+  Py_DECREF(pyMessage);
+  Py_DECREF(pyTravelMessage);
+  Py_DECREF(pyGuid);
   return py_progress;
 }
 
diff --git a/PyArcWelder/py_arc_welder_extension.cpp b/PyArcWelder/py_arc_welder_extension.cpp
index f05a494..809d9be 100644
--- a/PyArcWelder/py_arc_welder_extension.cpp
+++ b/PyArcWelder/py_arc_welder_extension.cpp
@@ -211,9 +211,6 @@ extern "C"
 		// return the arguments
 		PyObject* p_progress = py_arc_welder::build_py_progress(results.progress, args.guid, true);
 		
-		if (p_progress == NULL)
-			p_progress = Py_None;
-
 		PyObject* p_results = Py_BuildValue(
 			"{s:i,s:i,s:s,s:O}",
 			"success",
@@ -223,8 +220,10 @@ extern "C"
 			"message",
 			results.message.c_str(),
 			"progress",
-			p_progress
+			p_progress == NULL ? Py_None : p_progress
 		);
+		// The results hold their own reference
+		Py_XDECREF(p_progress);
 		return p_results;
 	}
 }
-- 
2.43.0


From 991c9a621cf874a2eab40141fad9cb5f66654c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 54/55] fix: pass file sizes and positions of 2 GB and more to
 Python

---
 PyArcWelder/py_arc_welder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index b912afb..3d30c90 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -48,7 +48,7 @@ PyObject* py_arc_welder::build_py_progress(const arc_welder_progress& progress,
   if (pyTravelMessage == NULL)
     return NULL;
   double total_travel_count_reduction_percent = progress.travel_statistics.get_total_count_reduction_percent();
-  PyObject* py_progress = Py_BuildValue("{s:d,s:d,s:d,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:f,s:f,s:f,s:f,s:i,s:i,s:f,s:f,s:f,s:i,s:i,s:f}",
+  PyObject* py_progress = Py_BuildValue("{s:d,s:d,s:d,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:l,s:l,s:l,s:f,s:f,s:f,s:f,s:i,s:i,s:f,s:f,s:f,s:i,s:i,s:f}",
     "percent_complete",
     progress.percent_complete,												//1
     "seconds_elapsed",
-- 
2.43.0


From 8e28842f3ec3db4a04839abaa04135f3e40207dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 55/55] fix: limit the precisions passed from Python before
 they are narrowed to a byte

---
 PyArcWelder/py_arc_welder.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 3d30c90..2d8d64d 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -279,19 +279,23 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
-    args.default_xyz_precision = (unsigned char)gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_xyz_precision);
-    if (args.default_xyz_precision < 3)
+    const double default_xyz_precision = gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_xyz_precision);
+    if (default_xyz_precision < 3)
     {
       std::string message = "ParseArgs - The default XYZ precision received was less than 3, which could cause problems printing arcs.  Setting to 3.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 3;
     }
-    else if (args.default_xyz_precision > 6)
+    else if (default_xyz_precision > 6)
     {
       std::string message = "ParseArgs - The default XYZ precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 6;
     }
+    else
+    {
+      args.default_xyz_precision = (unsigned char)default_xyz_precision;
+    }
   }
 #pragma endregion default_xyz_precision
 #pragma region default_e_precision
@@ -303,19 +307,23 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
-    args.default_e_precision = (unsigned char)gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
-    if (args.default_e_precision < 3)
+    const double default_e_precision = gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
+    if (default_e_precision < 3)
     {
       std::string message = "ParseArgs - The default E precision received was less than 3, which could cause extrusion problems.  Setting to 3.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 3;
     }
-    else if (args.default_e_precision > 6)
+    else if (default_e_precision > 6)
     {
       std::string message = "ParseArgs - The default E precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 6;
     }
+    else
+    {
+      args.default_e_precision = (unsigned char)default_e_precision;
+    }
   }
 #pragma endregion default_e_precision
 #pragma region extrusion_rate_variance_percent
-- 
2.43.0

