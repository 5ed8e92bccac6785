----------------------------- MODULE PyConvert ------------------------------
(* The Python extension: what the arguments of ConvertFile mean, which of    *)
(* them are rejected, which settings the others put in force, and what is    *)
(* logged about them.                                                        *)
(* An argument is a record: k its kind ("absent", "whole", "real", "text",   *)
(* "call", "wrong"), num its value as a decimal.                             *)
EXTENDS Decimals, FiniteSets

Required == { "guid", "source_path", "target_path", "on_progress_received" }
Reals == { "resolution_mm", "path_tolerance_percent", "max_radius_mm", "mm_per_arc_segment", "extrusion_rate_variance_percent" }
Precisions == { "default_xyz_precision", "default_e_precision" }
Wholes == { "min_arc_segments", "max_gcode_length" }
Switches == { "allow_dynamic_precision", "allow_3d_arcs", "allow_travel_arcs", "g90_g91_influences_extruder" }
Optional == Reals \cup Precisions \cup Wholes \cup Switches \cup { "log_level" }
Names == Required \cup Optional

Takes(n) == IF n \in Required \ { "on_progress_received" } THEN { "text" }
            ELSE IF n = "on_progress_received" THEN { "call" }
            ELSE IF n \in Reals \cup Precisions THEN { "whole", "real" }
            ELSE { "whole" }
Given(a, n) == a[n].k # "absent"
Typed(a, n) == ~Given(a, n) \/ a[n].k \in Takes(n)
Acceptable(a) == /\ \A n \in Required : Given(a, n)
                 /\ \A n \in Names : Typed(a, n)

Default == [ resolution_mm |-> D(0, 50000), path_tolerance_percent |-> D(0, 50000), max_radius_mm |-> D(9999, 0), mm_per_arc_segment |-> D(0, 0),
             extrusion_rate_variance_percent |-> D(0, 50000), default_xyz_precision |-> D(3, 0), default_e_precision |-> D(5, 0),
             min_arc_segments |-> D(0, 0), max_gcode_length |-> D(0, 0) ]
\* the value in force: values that make no sense are replaced by the nearest sensible one or the default
InForce(a, n) ==
  IF ~Given(a, n) THEN Default[n]
  ELSE LET v == a[n].num
       IN IF n \in Precisions THEN (IF Less(v, D(3, 0)) THEN D(3, 0) ELSE IF Less(D(6, 0), v) THEN D(6, 0) ELSE D(v.i, 0))
          ELSE IF n = "resolution_mm" THEN (IF Positive(v) THEN v ELSE Default[n])
          ELSE IF n = "max_radius_mm" THEN (IF Less(Default[n], v) THEN Default[n] ELSE v)
          ELSE IF Negative(v) THEN Default[n] ELSE v
IsOn(a, n) == Given(a, n) /\ Positive(a[n].num)

\* the level as a place in the order of levels: 0 everything .. 6 critical only; values that are no level mean everything
Levels == << 0, 5, 10, 20, 30, 40, 50 >>
Level(a) == IF ~Given(a, "log_level") THEN 3
            ELSE IF \E x \in 1..7 : Same(a["log_level"].num, D(Levels[x], 0)) THEN (CHOOSE x \in 1..7 : Same(a["log_level"].num, D(Levels[x], 0))) - 1 ELSE 0
Enabled(a, place) == place >= Level(a)

\* what is logged about the arguments, as << what, argument >>
Warnings(a) == { << "missing", n >> : n \in { x \in Optional : ~Given(a, x) } }
               \cup { << "low", n >> : n \in { x \in Precisions : Given(a, x) /\ Less(a[x].num, D(3, 0)) } }
               \cup { << "high", n >> : n \in { x \in Precisions : Given(a, x) /\ Less(D(6, 0), a[x].num) } }

\* answers of the callback: none goes on as well as whole numbers above zero; other whole numbers stop; what does not answer at all does not stop
Goes == { "true", "none", "one", "two", "many", "raise" }
Stops == { "zero", "false", "minus" }

Absent == [ n \in Names |-> [ k |-> "absent", num |-> D(0, 0) ] ]
LAWS == /\ DOMAIN Default = Optional \ (Switches \cup { "log_level" })
        /\ \A n \in DOMAIN Default : InForce(Absent, n) = Default[n]
        /\ ~Acceptable(Absent)
        /\ Goes \cap Stops = {}
=============================================================================
