----------------------------- MODULE Interleave -----------------------------
(* Two runs, each as the sequence of operations recorded from it alone, over *)
(* one directory: every interleaving, and a kill of either at any point.     *)
(* A run whose operations go on after it found its source changed writes as  *)
(* much as it reads, so its sizes are scaled by what it read: when it read   *)
(* something else than in the recording, its n-th write of m completes the   *)
(* file exactly when m was complete in the recording.                        *)
EXTENDS Files, Json, IOUtils
Cases == JsonDeserialize(IOEnv.VF_CASES)
VARIABLES c, pos, fs, dead
vars == << c, pos, fs, dead >>
Case == Cases[c]
Runs == DOMAIN Case.runs
Prog(p) == Case.progs[p]
Init == /\ c \in 1..Len(Cases) /\ fs = Fresh(Case.names, Case.tags, Case.lens, Runs)
        /\ pos = [ p \in Runs |-> 0 ] /\ dead = {}

\* the recorded operation, with sizes as of what this run has read
Scaled(p, e) ==
  IF e.op # "write" \/ e.size # Case.whole[p] THEN e
  ELSE LET t == p \o "(" \o fs.base[p] \o ")" IN
       [ e EXCEPT !.size = IF t \in DOMAIN Case.lens THEN Case.lens[t] ELSE @ ]
Do(p) == /\ p \notin dead /\ pos[p] < Len(Prog(p))
         /\ fs' = Apply(fs, Case.lens, Scaled(p, Prog(p)[pos[p] + 1]))
         /\ pos' = [ pos EXCEPT ![p] = @ + 1 ]
         /\ UNCHANGED << c, dead >>
Kill(p) == /\ Case.kills /\ p \notin dead /\ pos[p] < Len(Prog(p)) /\ dead' = dead \cup { p } /\ UNCHANGED << c, pos, fs >>
Next == \E p \in Runs : Do(p) \/ Kill(p)

Done(p) == pos[p] = Len(Prog(p))
Has(s, x) == \E n \in 1..Len(s) : s[n] = x
Kept == \A x \in DOMAIN Case.keep : Has(Case.keep[x], At(fs, Case.lens, x))
\* a run that went through has delivered, and nothing but killed runs leaves files
Delivered == \A p \in Runs : Done(p) => Has(Case.results[p], At(fs, Case.lens, Case.runs[p].target))
Clean == (\A p \in Runs : Done(p) \/ p \in dead) =>
           \A x \in DOMAIN fs.made : fs.made[x] \in dead \/ x = Case.runs[fs.made[x]].target
=============================================================================
