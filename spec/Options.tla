------------------------------ MODULE Options -------------------------------
(* The command line of the welder: what each word means, which command      *)
(* lines are rejected, which settings the others put in force, and what is  *)
(* then shown on the console.                                               *)
(* A word is a record: w ("opt", "switch", "path", "other", "end", "help"), *)
(* opt its letter, opts the letters of a word of switches, kind of its      *)
(* value ("whole" digits only, "dec" other numbers, "huge" whole and beyond *)
(* 2^31, "text", "none"), num that value as a decimal, t its text.          *)
EXTENDS Decimals, FiniteSets

Reals == { "r", "t", "m", "s", "v" }
Wholes == { "x", "e", "a", "c" }
Switches == { "g", "z", "y", "d" }
Choices == [ p |-> { "NONE", "SIMPLE", "FULL" }, l |-> { "NOSET", "VERBOSE", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL" } ]
Level == [ NOSET |-> 0, VERBOSE |-> 1, DEBUG |-> 2, INFO |-> 3, WARNING |-> 4, ERROR |-> 5, CRITICAL |-> 6 ]

DefaultNumber == [ r |-> D(0, 50000), t |-> D(0, 50000), m |-> D(9999, 0), s |-> D(0, 0), v |-> D(0, 50000),
                   x |-> D(3, 0), e |-> D(5, 0), a |-> D(0, 0), c |-> D(0, 0) ]
DefaultChoice == [ p |-> "SIMPLE", l |-> "INFO" ]

(* Reading the words one after the other *)
Start == [ verdict |-> "going", num |-> << >>, on |-> {}, choice |-> << >>, paths |-> << >>, ended |-> FALSE ]
Put(f, k, v) == (k :> v) @@ f
Typed(opt, wd) == IF opt \in Reals THEN wd.kind \in { "whole", "dec", "huge" } ELSE wd.kind = "whole"
Rejected(ps) == [ ps EXCEPT !.verdict = "reject" ]
Positional(ps, wd) == IF Len(ps.paths) = 2 THEN Rejected(ps) ELSE [ ps EXCEPT !.paths = Append(ps.paths, wd.t) ]
Read(ps, wd) ==
  IF ps.verdict # "going" THEN ps
  \* after -- everything is a path, and more than two are ignored
  ELSE IF ps.ended THEN (IF Len(ps.paths) = 2 THEN ps ELSE Positional(ps, wd))
  ELSE CASE wd.w = "end" -> [ ps EXCEPT !.ended = TRUE ]
         [] wd.w = "help" -> [ ps EXCEPT !.verdict = "help" ]
         [] wd.w = "path" -> Positional(ps, wd)
         [] wd.w = "other" -> Rejected(ps)
         [] wd.w = "switch" -> IF Cardinality({ wd.opts[k] : k \in DOMAIN wd.opts }) < Len(wd.opts) \/ { wd.opts[k] : k \in DOMAIN wd.opts } \cap ps.on # {} THEN Rejected(ps)
                               ELSE [ ps EXCEPT !.on = ps.on \cup { wd.opts[k] : k \in DOMAIN wd.opts } ]
         [] wd.w = "opt" /\ wd.opt \in DOMAIN Choices -> IF wd.opt \in DOMAIN ps.choice \/ wd.kind = "none" \/ wd.t \notin Choices[wd.opt] THEN Rejected(ps)
                                                         ELSE [ ps EXCEPT !.choice = Put(ps.choice, wd.opt, wd.t) ]
         [] OTHER -> IF wd.opt \in DOMAIN ps.num \/ ~Typed(wd.opt, wd) THEN Rejected(ps)
                     ELSE [ ps EXCEPT !.num = Put(ps.num, wd.opt, wd.num) ]

(* The settings in force, and whether they may be *)
Number(ps, o) == IF o \in DOMAIN ps.num THEN ps.num[o] ELSE DefaultNumber[o]
Choice(ps, o) == IF o \in DOMAIN ps.choice THEN ps.choice[o] ELSE DefaultChoice[o]
InRange(ps) ==
  LET n(o) == Number(ps, o)
  IN /\ Positive(n("r")) /\ Positive(n("m"))
     /\ Positive(n("t")) /\ Less(n("t"), D(1, 0))
     /\ ~Negative(n("s")) /\ ~Negative(n("a")) /\ ~Negative(n("v"))
     /\ IsZero(n("s")) = IsZero(n("a"))
     /\ \A o \in { "x", "e" } : ~Less(n(o), D(3, 0)) /\ ~Less(D(6, 0), n(o))
     /\ IsZero(n("c")) \/ ~Less(n("c"), D(31, 0))
Source(ps) == ps.paths[1]
Target(ps) == IF Len(ps.paths) = 2 THEN ps.paths[2] ELSE ps.paths[1]
\* files: the names of files there are; nowhere: target paths at which no file can be made
Outcome(ps, files, nowhere) ==
  IF ps.verdict # "going" THEN ps.verdict
  ELSE IF ps.paths = << >> \/ ~InRange(ps) THEN "reject"
  ELSE IF Source(ps) \notin files THEN "reject"
  ELSE IF Target(ps) \in nowhere THEN "fail"
  ELSE "run"

(* What the console shows of the settings *)
Line(label, texts) == { label \o x : x \in texts }
YesNo(b) == { IF b THEN "True" ELSE "False" }
Shown(ps) ==
  LET n(o) == Number(ps, o)
      on(o) == o \in ps.on
      comp == Positive(n("s")) /\ Positive(n("a"))
  IN << Line("Source File Path=", { Source(ps) }),
        Line(IF Target(ps) = Source(ps) THEN "Target File Path (overwrite)=" ELSE "Target File Path=", { Target(ps) }),
        Line("Resolution=", { x \o "mm (+-" \o y \o "mm)" : x \in Texts(n("r"), 2), y \in Texts(Half(n("r")), 5) \cup Texts(HalfUp(n("r")), 5) }),
        Line("Path Tolerance=", { x \o "%" : x \in Texts(Percent(n("t")), 3) }),
        Line("Maximum Arc Radius=", { x \o "mm" : x \in Texts(n("m"), 1) }),
        Line("Firmware Compensation=", YesNo(comp)) >>
     \o (IF comp THEN << Line("Min Arc Segments=", { ToString(n("a").i) }), Line("MM Per Arc Segment=", Texts(n("s"), 3)) >> ELSE << >>)
     \o << Line("Allow 3D Arcs=", YesNo(on("z"))), Line("Allow Travel Arcs=", YesNo(on("y"))), Line("Allow Dynamic Precision=", YesNo(on("d"))),
           Line("Default XYZ Precision=", { ToString(n("x").i) }), Line("Default E Precision=", { ToString(n("e").i) }),
           Line("Extrusion Rate Variance=", IF IsZero(n("v")) THEN { "Unlimited" } ELSE { x \o "%" : x \in Texts(Percent(n("v")), 0) }),
           Line("G90/G91 Influences Extruder=", YesNo(on("g"))),
           Line("Max Gcode Length=", IF IsZero(n("c")) THEN { "Unlimited" } ELSE { ToString(n("c").i) \o " characters" }),
           Line("Log Level=", { Choice(ps, "l") }) >>
Warnings(ps) ==
  LET n(o) == Number(ps, o)
  IN (IF Less(D(1000000, 0), n("m")) THEN { "radius" } ELSE {})
     \cup (IF Less(D(0, 250000), n("t")) THEN { "high tolerance" } ELSE {})
     \cup (IF Less(n("t"), D(0, 1000)) THEN { "low tolerance" } ELSE {})
     \cup (IF IsZero(n("v")) THEN { "variance" } ELSE {})

(* What should hold of the table itself *)
LAWS == /\ DOMAIN DefaultNumber = Reals \cup Wholes
        /\ InRange(Start)
        /\ Outcome([ Start EXCEPT !.paths = << "a" >> ], { "a" }, {}) = "run"
        /\ Outcome([ Start EXCEPT !.paths = << "b" >> ], { "a" }, {}) = "reject"
        /\ Choices["l"] = DOMAIN Level
=============================================================================
