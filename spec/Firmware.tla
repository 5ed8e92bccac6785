------------------------------ MODULE Firmware ------------------------------
(* The firmwares the straightener imitates: their types, versions, the      *)
(* settings each version has, and the values these have by default; and     *)
(* what a request made of a type, a version and settings stands for.        *)
(* Lengths and ratios in 10^-5, counts as they are.                         *)
EXTENDS Integers, Sequences, FiniteSets

Types == { "MARLIN_1", "MARLIN_2", "REPETIER", "PRUSA", "SMOOTHIEWARE" }
DefaultType == "MARLIN_2"
LATEST == "LATEST_RELEASE"

Versions(t) == CASE t = "MARLIN_1" -> { "1.1.9.1" }
                 [] t = "MARLIN_2" -> { "2.0.9.1", "2.0.9.2" }
                 [] t = "REPETIER" -> { "1.0.4", "1.0.5" }
                 [] t = "PRUSA" -> { "3.10.0", "3.11.0" }
                 [] t = "SMOOTHIEWARE" -> { "2021-06-19" }
Latest(t) == CASE t = "MARLIN_1" -> "1.1.9.1" [] t = "MARLIN_2" -> "2.0.9.1" [] t = "REPETIER" -> "1.0.4"
               [] t = "PRUSA" -> "3.10.0" [] t = "SMOOTHIEWARE" -> "2021-06-19"
\* the name the models of ArcMoves go by
Model(t, v) == CASE t = "MARLIN_1" -> "M1" [] t = "MARLIN_2" -> (IF v = "2.0.9.2" THEN "M2b" ELSE "M2a")
                 [] t = "REPETIER" -> (IF v = "1.0.5" THEN "R5" ELSE "R4") [] t = "PRUSA" -> (IF v = "3.11.0" THEN "P11" ELSE "P10")
                 [] t = "SMOOTHIEWARE" -> "SM"

MM == "mm-per-arc-segment"          PERR == "arc-segments-per-r"        MINPER == "min-mm-per-arc-segment"
MINSEG == "min-arc-segments"        PERSEC == "arc-segments-per-sec"    NCORR == "n-arc-correction"
G90 == "g90-g91-influences-extruder" ERROR == "mm-max-arc-error"        MINCIRC == "min-circle-segments"
MINMM == "min-arc-segment-mm"       MAXMM == "max-arc-segment-mm"
Settings == { MM, PERR, MINPER, MINSEG, PERSEC, NCORR, G90, ERROR, MINCIRC, MINMM, MAXMM }
Counts == { MINSEG, MINCIRC, NCORR }

Used(m) == { NCORR, G90 } \cup
           CASE m \in { "M1", "R4", "R5", "P10" } -> { MM }
             [] m = "M2a" -> { MM, PERR, MINSEG, PERSEC }
             [] m = "M2b" -> { MINMM, MAXMM, MINCIRC, PERSEC }
             [] m = "P11" -> { MM, MINSEG, MINPER }
             [] m = "SM"  -> { MM, ERROR }

\* G90 and G91 are 1 where they also set the mode of the extruder
Default(m, s) == CASE s = G90 -> (IF m \in { "M2a", "M2b", "SM" } THEN 1 ELSE 0)
                   [] s = NCORR -> (IF m = "SM" THEN 5 ELSE 25)
                   [] s = MM -> (IF m = "SM" THEN 0 ELSE 100000)
                   [] s = MINSEG -> 24
                   [] s = MINCIRC -> 72
                   [] s = MINMM -> 10000
                   [] s = MAXMM -> 100000
                   [] s = ERROR -> 1000
                   [] OTHER -> 0

(* A request: type and ver ("" if not given), g90 ("", TRUE, FALSE or       *)
(* DEFAULT), set: the numbers given to settings by name                     *)
TypeOf(q) == IF q.type = "" THEN DefaultType ELSE q.type
Known(q) == /\ TypeOf(q) \in Types
            /\ q.ver \in { "", LATEST } \cup Versions(TypeOf(q))
VersionOf(q) == IF q.ver \in { "", LATEST } THEN Latest(TypeOf(q)) ELSE q.ver
ModelOf(q) == Model(TypeOf(q), VersionOf(q))
Accepted(q) == /\ Known(q)
               /\ q.g90 \in { "", "TRUE", "FALSE", "DEFAULT" }
               /\ DOMAIN q.set \subseteq Used(ModelOf(q))
\* the settings in force
Effective(q) == [ s \in Used(ModelOf(q)) |->
                    IF s = G90 /\ q.g90 \in { "TRUE", "FALSE" } THEN (IF q.g90 = "TRUE" THEN 1 ELSE 0)
                    ELSE IF s \in DOMAIN q.set THEN q.set[s] ELSE Default(ModelOf(q), s) ]
Value(q, s) == IF s \in Used(ModelOf(q)) THEN Effective(q)[s] ELSE 0
\* in the form ArcMoves takes them
Options(q) == [ mm |-> Value(q, MM), perr |-> Value(q, PERR), minper |-> Value(q, MINPER), minseg |-> Value(q, MINSEG),
                persec |-> Value(q, PERSEC) \div 100, ncorr |-> Value(q, NCORR), err |-> Value(q, ERROR), mincirc |-> Value(q, MINCIRC),
                minmm |-> Value(q, MINMM), maxmm |-> Value(q, MAXMM) ]

(* What should hold of the table itself *)
LAWS == /\ \A t \in Types : Latest(t) \in Versions(t)
        /\ \A t \in Types : \A v \in Versions(t) : Used(Model(t, v)) \subseteq Settings
        /\ \A t, u \in Types : t # u => Versions(t) \cap Versions(u) = {}
        /\ Cardinality({ << t, Model(t, v) >> : t \in Types, v \in UNION { Versions(u) : u \in Types } }) >= 8
=============================================================================
