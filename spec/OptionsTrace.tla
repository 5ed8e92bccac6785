---------------------------- MODULE OptionsTrace ----------------------------
(* Reads recorded command lines of the real welder word by word and judges  *)
(* what came of them.                                                       *)
EXTENDS Options, Json, IOUtils
Cases == JsonDeserialize(IOEnv.VF_CASES)
N == Len(Cases)
VARIABLES c, k, ps, errs
vars == << c, k, ps, errs >>
Set(s) == { s[x] : x \in DOMAIN s }

Untouched(q) == q.changed = << >>
Quiet(q) == /\ q.progress.simple = 0 /\ q.progress.full = 0
Console(q) ==
  LET l == Level[Choice(ps, "l")]
      p == Choice(ps, "p")
      names == << "VERBOSE", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL" >>
  IN (IF \E x \in 1..6 : q.levels[x] > 0 /\ Level[names[x]] < l THEN { "messages below the level" } ELSE {})
     \cup (IF \E x \in { 1, 2, 3 } : q.levels[x] = 0 /\ Level[names[x]] >= l THEN { "no messages of an enabled level" } ELSE {})
     \cup (IF q.levels[4] + q.levels[5] + q.levels[6] > 0 THEN { "errors in a run that succeeds" } ELSE {})
     \cup (IF l > 3 \/ q.success THEN {} ELSE { "success not said" })
     \cup (IF CASE p = "NONE" -> q.progress.simple = 0 /\ q.progress.full = 0
                [] p = "SIMPLE" -> q.progress.simple >= 2 /\ q.progress.full = 0
                [] p = "FULL" -> q.progress.simple = 0 /\ q.progress.full >= 2
           THEN {} ELSE { "progress" })
     \cup (IF l > 3 THEN (IF q.shown = << >> THEN {} ELSE { "settings shown above their level" })
           ELSE IF Len(q.shown) # Len(Shown(ps)) THEN { "settings shown" }
           ELSE { CHOOSE z \in Shown(ps)[x] : TRUE : x \in { y \in DOMAIN Shown(ps) : Set(q.shown) \cap Shown(ps)[y] = {} } })
     \cup (IF Set(q.warned) = Warnings(ps) /\ Len(q.warned) = Cardinality(Warnings(ps)) THEN {} ELSE { "warnings" })
\* the library run beside it was given the settings that should be in force
InForce(q) == /\ \A o \in Reals \cup Wholes : Same(q.lib.num[o], Number(ps, o))
              /\ Set(q.lib.on) = ps.on
Judge(q) ==
  LET o == Outcome(ps, Set(q.files), Set(q.nowhere))
  IN CASE o = "reject" -> (IF q.exit # 0 THEN {} ELSE { "accepted" }) \cup (IF q.said THEN {} ELSE { "no message" }) \cup (IF Untouched(q) THEN {} ELSE { "files changed" })
                          \cup (IF Quiet(q) THEN {} ELSE { "processed" })
       [] o = "help" -> (IF q.exit = 0 THEN {} ELSE { "help fails" }) \cup (IF Untouched(q) THEN {} ELSE { "files changed" }) \cup (IF q.printed THEN {} ELSE { "no help" })
       [] o = "fail" -> (IF q.exit # 0 THEN {} ELSE { "success without a target" }) \cup (IF Untouched(q) THEN {} ELSE { "files changed" })
                        \cup (IF q.said \/ Level[Choice(ps, "l")] > 5 THEN {} ELSE { "no message" })
       [] OTHER -> IF q.exit # 0 THEN { "rejected" }
                   ELSE IF Set(q.changed) \notin { {}, { Target(ps) } } \/ ~q.made THEN { "files changed" }
                   ELSE (IF ~InForce(q) THEN { "HARNESS: other settings" } ELSE IF q.body = q.lib.body THEN {} ELSE { "the result is not that of the settings in force" })
                        \cup Console(q)

Init == c \in 1..N /\ k = 0 /\ ps = Start /\ errs = {}
Next == LET q == Cases[c]
        IN \/ /\ k < Len(q.words)
              /\ k' = k + 1 /\ ps' = Read(ps, q.words[k + 1]) /\ UNCHANGED << c, errs >>
           \/ /\ k = Len(q.words)
              /\ k' = k + 1 /\ errs' = Judge(q) /\ UNCHANGED << c, ps >>
OK == errs = {}
\* a verdict is final, and no path is forgotten
Final == [][ (ps.verdict # "going" => ps' = ps) /\ Len(ps'.paths) >= Len(ps.paths) /\ ps.on \subseteq ps'.on ]_vars
ASSUME LAWS
=============================================================================
