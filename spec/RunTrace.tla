----------------------------- MODULE RunTrace ------------------------------
(* The life of one run of the welder as its caller sees it: a report before  *)
(* the first line, reports while it works, each of which may be answered     *)
(* with a request to stop, a final report, and the result.                   *)
(* A case: n lines, stop = the report answered with "stop" (0: none), events, and what was    *)
(* found in the files afterwards.                                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.VF_CASES)
VARIABLES c, k, phase, line, said
Case == Cases[c]
Ev == Case.events[k + 1]
Init == c \in 1..Len(Cases) /\ k = 0 /\ phase = "new" /\ line = 0 /\ said = 0

Stops == Case.stop = k + 1
Last == k + 2 = Len(Case.events)          \* the report before the result

First == /\ phase = "new" /\ k < Len(Case.events) /\ Ev.kind = "report" /\ Ev.lines = 0 /\ Ev.target = 0
         /\ phase' = IF Stops THEN "stopping" ELSE "working"
         /\ UNCHANGED line /\ said' = Ev.target
Report == /\ phase = "working" /\ k < Len(Case.events) /\ ~Last /\ Ev.kind = "report"
          /\ Ev.lines > line /\ Ev.lines <= Case.n /\ Ev.target >= said
          /\ line' = Ev.lines /\ said' = Ev.target
          /\ phase' = IF Stops THEN "stopping" ELSE "working"
\* the end of the source; nothing was left out
Final == /\ phase = "working" /\ k < Len(Case.events) /\ Last /\ Ev.kind = "report"
         /\ Ev.lines = Case.n /\ Ev.target >= said
         /\ phase' = "completed" /\ line' = Case.n /\ said' = Ev.target
\* a request to stop is obeyed at once: the line has not moved
Stopped == /\ phase = "stopping" /\ k < Len(Case.events) /\ Ev.kind = "report" /\ Ev.lines = line /\ Ev.target >= said
           /\ phase' = "cancelled" /\ UNCHANGED << line, said >>
Result == /\ phase \in { "completed", "cancelled" } /\ k < Len(Case.events) /\ Ev.kind = "result"
          \* a request to stop in answer to the final report comes too late
          /\ Ev.success = (phase = "completed") /\ Ev.cancelled = (phase = "cancelled")
          /\ phase' = (IF phase = "completed" THEN "success" ELSE "stopped")
          /\ UNCHANGED << line, said >>

\* what a cancelled run leaves: the beginning of what the whole run writes, the weld of the lines it has read,
\* and in place the untouched source
Files ==
  /\ phase = "stopped" /\ ~Case.inplace => Case.common >= said /\ Case.partial /\ Case.sourceSame
  /\ phase = "stopped" /\ Case.inplace => Case.sourceSame
  /\ phase = "success" /\ ~Case.inplace => Case.whole /\ Case.sourceSame
  /\ phase = "success" /\ Case.inplace => Case.whole
  /\ Case.others = 0                       \* no other file is left
Done == k = Len(Case.events) /\ phase \in { "success", "stopped" } /\ Files /\ UNCHANGED << c, k, phase, line, said >>

Next == \/ (First \/ Report \/ Final \/ Stopped \/ Result) /\ k' = k + 1 /\ UNCHANGED c
        \/ Done
=============================================================================
