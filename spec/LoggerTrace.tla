---------------------------- MODULE LoggerTrace ----------------------------
(* The library's logger in lock step with Logger (L01).  An operation holds *)
(* what was printed to either stream after the time stamp (sane: the stamp  *)
(* was one and the output was one whole line, or nothing).                  *)
EXTENDS Logger, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.VF_CASES)
VARIABLES c, i, lv
vars == << c, i, lv >>
Case == Cases[c]
N == Len(Case.names)
Init == c \in 1..Len(Cases) /\ i = 0 /\ lv = [ k \in 1..Len(Cases[c].names) |-> 0 ]
Next == /\ i < Len(Case.ops) /\ i' = i + 1 /\ c' = c
        /\ LET o == Case.ops[i + 1] IN
           lv' = CASE o.op = "all"  -> [ k \in 1..N |-> o.l ]
                   [] o.op = "allv" -> [ k \in 1..N |-> LevelOf(o.l) ]
                   [] o.op = "one"  -> [ lv EXCEPT ![o.k + 1] = o.l ]
                   [] o.op = "onev" -> [ lv EXCEPT ![o.k + 1] = LevelOf(o.l) ]
                   [] OTHER -> lv
Op == Case.ops[i]
OK_L01 == i > 0 =>
  /\ Op.sane
  /\ \A k \in 1..N : Op.on[k] = [ l \in 1..7 |-> Enabled(lv[k], l - 1) ] /\ Op.levels[k] = Names[lv[k] + 1]
  /\ Op.none = "UNKNOWN"
  /\ Op.vals = [ k \in 1..7 |-> << Values[k], k - 1 >> ]
  /\ Op.out = IF Op.op = "log" THEN Printed(lv[Op.k + 1], Case.names[Op.k + 1], Op.l, Op.text) ELSE ""
  /\ Op.err = IF Op.op = "logx" THEN Printed(lv[Op.k + 1], Case.names[Op.k + 1], 5, Op.text) ELSE ""
=============================================================================
