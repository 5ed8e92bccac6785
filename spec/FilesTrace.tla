----------------------------- MODULE FilesTrace -----------------------------
(* Recorded runs of the programs over a directory, operation by operation,   *)
(* judged after every one of them: as a run may be killed at any moment, a   *)
(* state between two operations is what a kill there leaves.                 *)
(* A case: names, tags, lens; runs: p -> [source, target, inplace];          *)
(* events (operations, and the ends of runs); keep: what may be found at a   *)
(* watched name at any time; results: run -> what it may call a success;     *)
(* final: what was found at the end in the real directory.                   *)
EXTENDS Files, Json, IOUtils
Cases == JsonDeserialize(IOEnv.VF_CASES)
VARIABLES c, k, fs, left, errs
Case == Cases[c]
Ev == Case.events[k + 1]
Runs == DOMAIN Case.runs

Init == /\ c \in 1..Len(Cases) /\ k = 0 /\ errs = {}
        /\ fs = Fresh(Case.names, Case.tags, Case.lens, Runs)
        /\ left = [ p \in Runs |-> FALSE ]       \* whether the run could not help leaving a file behind

Has(s, x) == \E n \in 1..Len(s) : s[n] = x
\* the end of run p, reported to its caller
EndOf(e, p) ==
  LET r == Case.runs[p]
      mine == { x \in DOMAIN fs.made : fs.made[x] = p /\ x # r.target } IN
  IF e.rc = 0
  THEN (IF Has(Case.results[p], At(fs, Case.lens, r.target)) THEN {} ELSE { "success without a complete result" })
       \cup (IF mine = {} \/ left[p] THEN {} ELSE { "a file left behind" })
  ELSE (IF e.said THEN {} ELSE { "a failure without a message" })
       \cup (IF Has(Case.before, At(fs, Case.lens, r.source)) THEN {} ELSE { "a failure that changed the source" })
       \cup (IF mine = {} \/ left[p] THEN {} ELSE { "a file left behind" })
       \cup (IF r.inplace \/ e.started \/ ~(r.target \in DOMAIN fs.made) THEN {} ELSE { "a target made by a rejected run" })
\* a run that cannot remove its file, or cannot see whether that is the only copy, may leave it
Excuse(e) == e.rc < 0 /\ (e.op = "unlink" \/ (e.op = "open" /\ e.flags = "r"))

Kept(f) == \A x \in DOMAIN Case.keep : Has(Case.keep[x], At(f, Case.lens, x))
Step ==
  /\ k < Len(Case.events) /\ errs = {}
  /\ k' = k + 1 /\ c' = c
  /\ fs' = IF Ev.op \in { "exit", "killed" } THEN fs ELSE Apply(fs, Case.lens, Ev)
  /\ left' = IF Ev.op \notin { "exit", "killed" } /\ Excuse(Ev) THEN [ left EXCEPT ![Ev.p] = TRUE ] ELSE left
  /\ errs' = (IF Ev.op = "exit" THEN EndOf(Ev, Ev.p) ELSE {})
             \cup (IF Kept(fs') THEN {} ELSE { "not a complete original or result at " \o Ev.op })
\* the real directory at the end is the one the model predicts
Predicted ==
  /\ \A x \in DOMAIN Case.final : x \in DOMAIN fs.names
  /\ \A x \in DOMAIN fs.names : x \in DOMAIN Case.final
  /\ \A x \in DOMAIN fs.names :
       Has(Case.final[x], IF fs.names[x].t = "link" THEN "link" ELSE At(fs, Case.lens, x))
End == /\ k = Len(Case.events) /\ errs = {}
       /\ errs' = (IF Predicted THEN {} ELSE { "the directory is not as the operations leave it" })
       /\ ~Predicted
       /\ UNCHANGED << c, k, fs, left >>
Next == Step \/ End
OK == errs = {}
=============================================================================
