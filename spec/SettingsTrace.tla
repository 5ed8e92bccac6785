--------------------------- MODULE SettingsTrace ----------------------------
(* Checks recorded answers of the real straightener to requests for a       *)
(* firmware, a version and settings against the table of Firmware and, by   *)
(* the number and the places of the moves it made of probe arcs, that the   *)
(* settings in force are the ones it says.                                  *)
EXTENDS Firmware, ArcMoves, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VF_CASES)
N == Len(Cases)
VARIABLES c, done, errs
vars == << c, done, errs >>

\* names and values as they are shown: two decimals, counts without
Rounded(s, v) == IF s \in Counts \cup { G90 } THEN { v } ELSE { (v + 500) \div 1000, (v + 499) \div 1000 }
Shows(q, shown, what) ==
  LET e == Effective(q)
  IN (IF DOMAIN shown.set = DOMAIN e THEN {} ELSE { what \o " names" })
     \cup { what \o " " \o s : s \in { x \in DOMAIN shown.set \cap DOMAIN e : shown.set[x] \notin Rounded(x, e[x]) } }
     \cup (IF shown.type = TypeOf(q) THEN {} ELSE { what \o " type" })
     \cup (IF shown.ver = VersionOf(q) /\ shown.latest = (VersionOf(q) = Latest(TypeOf(q))) THEN {} ELSE { what \o " version" })

\* when a probe's point is off the circle by what the approximation makes of it
Drift(m, r, a, k) == (IF SecondOrder(m) THEN 1 ELSE -1) * MulDiv(r, k * (Pow4(a) \div (IF SecondOrder(m) THEN 8 ELSE 24)), 134217728)
Probe(q, p) ==
  LET m == ModelOf(q)  o == Options(q)
      r == Hypot(p.i, p.j)
      sw == Sweeps(m, p.dir, p.i, p.j, p.x - p.i, p.y - p.j, p.closed, TRUE)
      t == CHOOSE v \in sw : TRUE
      mv == Moves(m, o, r, t, p.closed, 0, p.f)
      n == Len(p.pts) + 1
      a == IF mv.segs = { 0 } THEN t \div n ELSE 0
      off(k) == Hypot(p.pts[k][1], p.pts[k][2]) - r
      exp(k) == Drift(m, r, a, Corrected(m, o, k))
      clear == a > 0 /\ a < 90000000
      wrong == { k \in 1..(n - 1) : Abs(off(k) - exp(k)) > 80 + Abs(exp(k)) \div 4 }
      \* the filament of the moves, in the mode the extruder is in after M83 and G90
      abs == Effective(q)[G90] = 1
  IN (IF n >= mv.lo /\ n <= mv.hi THEN {} ELSE { "moves" })
     \cup (IF clear /\ wrong # {} THEN { "correction" } ELSE {})
     \cup (IF abs THEN (IF Abs(p.elast - p.e) <= 2 THEN {} ELSE { "G90 should set the extruder" })
                  ELSE (IF Abs(p.esum - p.e) <= n + 2 THEN {} ELSE { "G90 should leave the extruder" }))

Judge(k) ==
  LET q == k.q  ok == Accepted(q) /\ ~k.wrong
  IN IF k.print THEN
       IF ~ok THEN (IF k.exit # 0 /\ k.said THEN {} ELSE { "accepted" })
       ELSE IF k.exit # 0 THEN { "rejected" }
       ELSE Shows(q, k.shown, "shown")
            \cup (IF { k.avail[x] : x \in DOMAIN k.avail } = Used(ModelOf(q)) /\ Len(k.avail) = Cardinality(Used(ModelOf(q))) THEN {} ELSE { "available" })
            \cup (IF { k.unavail[x] : x \in DOMAIN k.unavail } = Settings \ Used(ModelOf(q)) THEN {} ELSE { "unavailable" })
     ELSE IF ~ok THEN (IF k.exit # 0 /\ k.said /\ ~k.target THEN {} ELSE { "accepted" })
     ELSE IF k.exit # 0 \/ ~k.target THEN { "rejected" }
     ELSE Shows(q, k.shown, "shown") \cup Shows(q, k.head, "header")
          \cup UNION { Probe(q, k.probes[x]) : x \in DOMAIN k.probes }

Init == c \in 1..N /\ done = FALSE /\ errs = {}
Next == ~done /\ done' = TRUE /\ errs' = Judge(Cases[c]) /\ UNCHANGED c
OK == errs = {}
ASSUME LAWS
=============================================================================
