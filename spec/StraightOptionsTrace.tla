------------------------ MODULE StraightOptionsTrace ------------------------
(* Reads recorded command lines of the real straightener twice, word by     *)
(* word, and judges what came of them.                                      *)
EXTENDS StraightOptions, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.VF_CASES)
N == Len(Cases)
VARIABLES c, k, first, ps, errs
vars == << c, k, first, ps, errs >>
Set(s) == { s[x] : x \in DOMAIN s }

Untouched(q) == q.changed = << >>
Console(q) ==
  LET l == Level[LevelOf(ps)]
      names == << "VERBOSE", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL" >>
      lines == { "Source File Path:" \o Source(ps), "Log Level:" \o LevelOf(ps),
                 (IF Target(ps) = Source(ps) THEN "Target File Path (overwrite):" ELSE "Target File File:") \o Target(ps) }
  IN (IF \E x \in 1..6 : q.levels[x] > 0 /\ Level[names[x]] < l THEN { "messages below the level" } ELSE {})
     \cup (IF q.levels[3] = 0 /\ l <= 3 THEN { "no messages of an enabled level" } ELSE {})
     \cup (IF q.levels[4] + q.levels[5] + q.levels[6] > 0 THEN { "errors in a run that succeeds" } ELSE {})
     \cup (IF q.success = (l <= 3) THEN {} ELSE { "success" })
     \cup (IF l <= 3 THEN lines \ Set(q.shown) ELSE IF q.shown = << >> THEN {} ELSE { "settings shown above their level" })
\* the library run beside it was given the settings that should be in force
InForce(q) == LET r == Request(ps) IN q.lib.type = TypeOf(r) /\ q.lib.ver = VersionOf(r) /\ q.lib.set = Effective(r)
Judge(q) ==
  LET o == Outcome(first, ps, q.words, Set(q.files), Set(q.nowhere))
  IN CASE o = "reject" -> (IF q.exit # 0 THEN {} ELSE { "accepted" }) \cup (IF q.said THEN {} ELSE { "no message" }) \cup (IF Untouched(q) THEN {} ELSE { "files changed" })
                          \cup (IF q.running THEN { "processed" } ELSE {})
       [] o \in { "help", "print" } -> (IF q.exit = 0 THEN {} ELSE { "rejected" }) \cup (IF Untouched(q) /\ ~q.running THEN {} ELSE { "files changed" }) \cup (IF q.printed THEN {} ELSE { "nothing printed" })
       [] o = "fail" -> (IF q.exit # 0 THEN {} ELSE { "success without a target" }) \cup (IF Untouched(q) THEN {} ELSE { "files changed" })
                        \cup (IF q.said \/ Level[LevelOf(ps)] > 3 THEN {} ELSE { "no message" })
       [] OTHER -> IF q.exit # 0 THEN { "rejected" }
                   ELSE IF Set(q.changed) \notin { {}, { Target(ps) } } \/ ~q.made THEN { "files changed" }
                   ELSE (IF ~InForce(q) THEN { "HARNESS: other settings" } ELSE IF q.body = q.lib.body THEN {} ELSE { "the result is not that of the settings in force" })
                        \cup Console(q)

Init == c \in 1..N /\ k = 0 /\ first = Start /\ ps = Start /\ errs = {}
Next == LET q == Cases[c]  n == Len(q.words)
        IN \/ /\ k < n
              /\ k' = k + 1 /\ first' = Scan(first, q.words[k + 1]) /\ UNCHANGED << c, ps, errs >>
           \/ /\ k >= n /\ k < 2 * n
              /\ k' = k + 1 /\ ps' = Read(ps, q.words[k + 1 - n]) /\ UNCHANGED << c, first, errs >>
           \/ /\ k = 2 * n
              /\ k' = k + 1 /\ errs' = Judge(q) /\ UNCHANGED << c, first, ps >>
OK == errs = {}
\* a verdict is final, and what the first reading found the second finds
Final == [][ (ps.verdict # "going" => ps' = ps) /\ (first.verdict # "going" => first' = first) /\ Len(ps'.paths) >= Len(ps.paths) ]_vars
Twice == k < 2 * Len(Cases[c].words) \/ ps.verdict # "going" \/ first.verdict # "going" \/ (ps.type = first.type /\ ps.ver = first.ver)
ASSUME LAWS /\ ClLAWS
=============================================================================
