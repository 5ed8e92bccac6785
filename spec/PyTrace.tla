------------------------------ MODULE PyTrace -------------------------------
(* Sessions of the Python extension: calls of ConvertFile one after the      *)
(* other in one process, each followed event by event as its caller sees it: *)
(* messages to the logger, progress reports with the answers to them, and    *)
(* the results or the exception at the end.                                  *)
EXTENDS PyConvert, Json, IOUtils
A == INSTANCE Arith
Cases == JsonDeserialize(IOEnv.VF_CASES)
VARIABLES c, q, k, phase, line, said, reports, warned, detail, errors, odd, errs
vars == << c, q, k, phase, line, said, reports, warned, detail, errors, odd, errs >>
Set(s) == { s[x] : x \in DOMAIN s }
Call == Cases[c][q]
Ev == Call.events[k + 1]
Args == Call.args
OfUse == Call.shape = "dict" /\ Acceptable(Args)
Verdict == IF ~OfUse THEN "raise" ELSE IF Call.files # "ok" THEN "fail" ELSE "run"

If(b, p, t) == IF b THEN {} ELSE { << p, t >> }
Fresh == /\ k' = 0 /\ phase' = "called" /\ line' = 0 /\ said' = [ lines |-> 0, elapsed |-> 0, pct |-> 0 ] /\ reports' = 0 /\ warned' = {} /\ detail' = 0 /\ errors' = 0 /\ odd' = FALSE
Init == /\ c \in 1..Len(Cases) /\ q = 1 /\ k = 0 /\ phase = "called" /\ line = 0 /\ said = [ lines |-> 0, elapsed |-> 0, pct |-> 0 ] /\ reports = 0 /\ warned = {} /\ detail = 0
        /\ errors = 0 /\ odd = FALSE /\ errs = {}

(* Messages *)
AboutArgs == { "missing", "low", "high" }
Log ==
  /\ Ev.e = "log"
  /\ phase' = IF Ev.kind = "begin" /\ phase = "called" THEN "begun" ELSE IF Ev.kind = "complete" /\ phase \in { "begun", "completed", "cancelled" } THEN "logged" ELSE phase
  /\ warned' = IF Ev.kind \in AboutArgs THEN warned \cup { << Ev.kind, Ev.name >> } ELSE warned
  /\ line' = IF Ev.kind = "line" THEN line + 1 ELSE line
  /\ detail' = IF Ev.kind \in { "detail", "line" } THEN detail + 1 ELSE detail
  /\ errors' = IF Ev.kind = "error" THEN errors + 1 ELSE errors
  /\ errs' = errs \cup CASE Ev.kind = "parsing" -> If(phase = "called" /\ Ev.m = "info", "P03", "parsing")
                         [] Ev.kind \in AboutArgs -> If(phase = "called" /\ Ev.m = "warn", "P03", "a warning about an argument") \cup If(<< Ev.kind, Ev.name >> \notin warned, "P03", "warned twice")
                         [] Ev.kind = "begin" -> If(phase = "called" /\ Ev.m = "info" /\ OfUse, "P03", "begin")
                         [] Ev.kind = "complete" -> If(phase \in { "begun", "completed", "cancelled" } /\ Ev.m = "info" /\ OfUse, "P03", "complete")
                         [] Ev.kind = "line" -> If(Ev.m = "verbose" /\ Enabled(Args, 1) /\ phase = "working" /\ line < Call.n, "P03", "a line is logged")
                         [] Ev.kind = "detail" -> If(Ev.m = "debug" /\ Enabled(Args, 2) /\ phase = "working", "P03", "details are logged")
                         [] Ev.kind = "error" -> If(Ev.m = "error" /\ Verdict # "run", "P03", "an error is logged")
                         [] OTHER -> If(Ev.m \in { "verbose", "debug", "info", "warn", "error", "critical" }, "P03", "a message by another way")
                                     \cup If(Ev.m # "verbose" \/ Enabled(Args, 1), "P03", "verbose below the level")
                                     \cup If(Ev.m \notin { "warn", "error", "critical" }, "P03", "a warning about nothing")
  /\ UNCHANGED << said, reports, odd >>

(* Progress *)
First == reports = 0
Reported(n) == n <= Len(Call.lib.reports)
Report ==
  LET t == reports + 1
      stopping == phase = "stopping"
      last == Reported(t) /\ t = Len(Call.lib.reports)
  IN
  /\ Ev.e = "report"
  /\ reports' = t
  /\ said' = [ lines |-> Ev.lines, elapsed |-> Ev.elapsed, pct |-> Ev.pct ]
  /\ phase' = CASE stopping -> "cancelled"
                [] Ev.ans \in Stops /\ ~last -> "stopping"
                [] last -> "completed"
                [] OTHER -> "working"
  /\ odd' = (odd \/ Ev.ans \notin Goes \cup Stops \/ Ev.ans = "raise")
  /\ errs' = errs \cup If(Verdict = "run" /\ phase \in { "begun", "working", "stopping" }, "P02", "a report")
                  \cup If(Ev.keys, "P02", "what a report consists of") \cup If(Ev.guid, "P02", "guid") \cup If(Ev.notext, "P02", "text of a report")
                  \cup If(First => Ev.lines = 0 /\ Ev.pct = 0 /\ Ev.start, "P02", "the first report")
                  \cup If(Reported(t) /\ Ev.ident = Call.lib.reports[t], "P02", "a report is not that of the library")
                  \cup If(Ev.lines >= said.lines /\ Ev.pct >= said.pct /\ Ev.elapsed >= said.elapsed, "P02", "progress goes back")
                  \cup If(stopping => Ev.lines = said.lines, "P02", "lines are read after a request to stop")
                  \cup If(last => Ev.pct = 1000000 /\ (stopping \/ Ev.lines = Call.n), "P02", "the last report")
                  \cup If(Enabled(Args, 1) => line = Ev.lines, "P03", "lines that are not logged")
                  \* the time that remains, at the rate so far
                  \cup (IF Ev.pos = 0 \/ Ev.elapsed > 10000000 THEN {} ELSE If(A!Abs(Ev.remaining - A!MulDiv(Ev.elapsed, Ev.size - Ev.pos, Ev.pos)) <= 2, "P02", "time remaining"))
  /\ UNCHANGED << line, warned, detail, errors >>

(* The end of a call *)
Changed == Set(Call.changed)
Quiet == If(Call.printed => odd, "P03", "printed") \cup If(Call.leaks = << >>, "P02", "references are leaked")
Settings == /\ \A n \in DOMAIN Default : Call.lib.num[n] = InForce(Args, n) \/ (~Less(Call.lib.num[n], InForce(Args, n)) /\ ~Less(InForce(Args, n), Call.lib.num[n]))
            /\ Set(Call.lib.on) = { n \in Switches : IsOn(Args, n) }
Return ==
  /\ Ev.e = "return"
  /\ phase' = "ended"
  /\ errs' = errs \cup Quiet \cup If(OfUse, "P03", "arguments that are not rejected") \cup If(Call.after, "P03", "events after the end")
       \cup (IF ~OfUse THEN {} ELSE
               If(Ev.keys, "P02", "what the results consist of") \cup If(Ev.pguid, "P02", "guid of the results")
               \cup If(warned = Warnings(Args), "P03", "warnings") \cup If(phase = "logged", "P03", "the end is not logged"))
       \cup (IF Verdict = "fail" THEN If(~Ev.success /\ ~Ev.cancelled /\ Ev.message, "P02", "failure") \cup If(reports = 0, "P02", "reports of a failed call")
                                      \cup If(errors > 0, "P03", "the failure is not logged") \cup If(Changed = {}, "P02", "files are changed")
             ELSE IF Verdict = "run" THEN
               LET stopped == Call.lib.cancelled
               IN If(reports = Len(Call.lib.reports), "P02", "number of reports")
                  \cup If(Ev.success = ~stopped /\ Ev.cancelled = stopped /\ ~Ev.message, "P02", "outcome")
                  \cup If(Ev.ident = Call.lib.result /\ Ev.lines = said.lines /\ Ev.elapsed = said.elapsed, "P02", "the progress of the results")
                  \cup If(Ev.tables = Call.lib.tables, "P02", "the statistics of the results")
                  \cup If(Settings, "P01", "HARNESS: other settings")
                  \cup (IF stopped /\ Call.inplace THEN If(Changed = {}, "P01", "files are changed")
                        ELSE If(Changed \subseteq { Call.target } /\ Call.made, "P01", "files are changed") \cup If(Call.body = Call.lib.body, "P01", "the result is not that of the settings in force"))
                  \cup If(stopped \/ ~Enabled(Args, 1) \/ line = Call.n, "P03", "lines that are not logged")
                  \cup If(Enabled(Args, 2) /\ Call.moves /\ ~stopped => detail > 0, "P03", "no details")
             ELSE {})
  /\ UNCHANGED << line, said, reports, warned, detail, errors, odd >>
Raise ==
  /\ Ev.e = "raise"
  /\ phase' = "ended"
  /\ errs' = errs \cup Quiet \cup If(~OfUse /\ Ev.exception, "P03", "an exception") \cup If(Call.after, "P03", "events after the end")
       \cup If(errors > 0, "P03", "the error is not logged") \cup If(reports = 0, "P03", "reports of a rejected call") \cup If(Changed = {}, "P03", "files are changed")
       \cup (IF Call.shape = "dict" /\ \E n \in Required : ~Given(Args, n) THEN If(\E n \in Required : ~Given(Args, n) /\ n \in Set(Ev.names), "P03", "the argument is not named") ELSE {})
  /\ UNCHANGED << line, said, reports, warned, detail, errors, odd >>
Died == /\ Ev.e = "died" /\ phase' = "ended" /\ errs' = errs \cup { << "P01", "crash" >>, << "P02", "crash" >>, << "P03", "crash" >> }
        /\ UNCHANGED << line, said, reports, warned, detail, errors, odd >>

Next == \/ /\ k < Len(Call.events) /\ k' = k + 1 /\ UNCHANGED << c, q >>
           /\ Log \/ Report \/ Return \/ Raise \/ Died
        \/ /\ k = Len(Call.events) /\ phase = "ended" /\ q < Len(Cases[c]) /\ q' = q + 1 /\ Fresh /\ UNCHANGED << c, errs >>
        \/ /\ k = Len(Call.events) /\ phase = "ended" /\ q = Len(Cases[c]) /\ UNCHANGED vars
OK_P01 == \A e \in errs : e[1] # "P01"
OK_P02 == \A e \in errs : e[1] # "P02"
OK_P03 == \A e \in errs : e[1] # "P03"
\* nothing of one call reaches the next, and every call ends once
Ends == [][ (q' # q => phase = "ended" /\ phase' = "called") /\ (phase = "ended" /\ q' = q => k' = k) ]_vars
ASSUME LAWS
=============================================================================
