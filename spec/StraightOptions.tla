--------------------------- MODULE StraightOptions --------------------------
(* The command line of the straightener. It is read twice: first only for   *)
(* the firmware, its version and whether their settings are to be printed,  *)
(* then word by word for everything. Words are those of Options.            *)
EXTENDS Firmware, Decimals

Name == [ m |-> MM, d |-> MAXMM, i |-> PERR, n |-> MINPER, b |-> MINMM, r |-> MINSEG, a |-> MINCIRC, c |-> NCORR, s |-> PERSEC, e |-> ERROR ]
Wholes == { "r", "a", "c" }
Level == [ NOSET |-> 0, VERBOSE |-> 1, DEBUG |-> 2, INFO |-> 3, WARNING |-> 4, ERROR |-> 5, CRITICAL |-> 6 ]

Start == [ verdict |-> "going", type |-> "", ver |-> "", g90 |-> "", level |-> "", print |-> FALSE, num |-> << >>, paths |-> << >> ]
Rejected(ps) == [ ps EXCEPT !.verdict = "reject" ]
Given(ps, o) == CASE o = "f" -> ps.type # "" [] o = "v" -> ps.ver # "" [] o = "g" -> ps.g90 # "" [] o = "l" -> ps.level # "" [] OTHER -> o \in DOMAIN ps.num
Valid(wd) == CASE wd.opt = "f" -> wd.kind # "none" /\ wd.t \in Types
               [] wd.opt = "v" -> wd.kind # "none"
               [] wd.opt = "g" -> wd.kind # "none" /\ wd.t \in { "TRUE", "FALSE", "DEFAULT" }
               [] wd.opt = "l" -> wd.kind # "none" /\ wd.t \in DOMAIN Level
               [] wd.opt \in Wholes -> wd.kind = "whole"
               [] OTHER -> wd.kind \in { "whole", "dec", "huge" }
Take(ps, wd) == IF Given(ps, wd.opt) \/ ~Valid(wd) THEN Rejected(ps)
                ELSE CASE wd.opt = "f" -> [ ps EXCEPT !.type = wd.t ]
                       [] wd.opt = "v" -> [ ps EXCEPT !.ver = wd.t ]
                       [] wd.opt = "g" -> [ ps EXCEPT !.g90 = wd.t ]
                       [] wd.opt = "l" -> [ ps EXCEPT !.level = wd.t ]
                       [] OTHER -> [ ps EXCEPT !.num = (wd.opt :> wd.num) @@ ps.num ]
\* the first reading
Scan(ps, wd) ==
  IF ps.verdict # "going" THEN ps
  ELSE CASE wd.w = "opt" /\ wd.opt \in { "f", "v" } -> Take(ps, wd)
         [] wd.w = "switch" -> IF ps.print \/ Len(wd.opts) > 1 THEN Rejected(ps) ELSE [ ps EXCEPT !.print = TRUE ]
         [] OTHER -> ps
\* where settings are printed only words for the firmware and its version may be given
Foreign(wd) == ~(wd.w = "switch" \/ (wd.w = "opt" /\ wd.opt \in { "f", "v" }))
\* the second
Read(ps, wd) ==
  IF ps.verdict # "going" THEN ps
  ELSE CASE wd.w = "help" -> [ ps EXCEPT !.verdict = "help" ]
         [] wd.w = "path" -> IF Len(ps.paths) = 2 THEN Rejected(ps) ELSE [ ps EXCEPT !.paths = Append(ps.paths, wd.t) ]
         [] wd.w = "opt" -> Take(ps, wd)
         [] OTHER -> Rejected(ps)

Request(ps) == [ type |-> ps.type, ver |-> ps.ver, g90 |-> ps.g90,
                 set |-> [ s \in { Name[o] : o \in DOMAIN ps.num } |->
                             LET o == CHOOSE x \in DOMAIN Name : Name[x] = s
                                 v == IF s \in Counts THEN ps.num[o].i ELSE ps.num[o].i * 100000 + ps.num[o].u \div 10
                             IN IF ps.num[o].neg THEN -v ELSE v ] ]
LevelOf(ps) == IF ps.level = "" THEN "INFO" ELSE ps.level
Source(ps) == ps.paths[1]
Target(ps) == IF Len(ps.paths) = 2 THEN ps.paths[2] ELSE ps.paths[1]
\* first, ps: the states after the first and the second reading of words
Outcome(first, ps, words, files, nowhere) ==
  IF first.verdict # "going" THEN "reject"
  ELSE IF first.print THEN (IF (\E k \in DOMAIN words : Foreign(words[k])) \/ ~Known(Request(first)) THEN "reject" ELSE "print")
  ELSE IF ps.verdict # "going" THEN ps.verdict
  ELSE IF ps.paths = << >> \/ ~Accepted(Request(ps)) THEN "reject"
  ELSE IF Source(ps) \notin files THEN "reject"
  ELSE IF Target(ps) \in nowhere THEN "fail"
  ELSE "run"
ClLAWS == /\ { Name[o] : o \in DOMAIN Name } = Settings \ { G90 }
          /\ \A t \in Types : Outcome(Start, [ Start EXCEPT !.paths = << "a" >>, !.type = t ], << >>, { "a" }, {}) = "run"
=============================================================================
