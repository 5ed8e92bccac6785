--------------------------- MODULE StraightTrace ----------------------------
(* Checks recorded runs of the real straightener: every case holds the      *)
(* lines of a source file, the lines of the target file really written, a   *)
(* witness saying how many of them replace each arc, and the firmware and   *)
(* settings in force.  Source and target are executed side by side on two   *)
(* model printers (Tracker); the moves replacing an arc are compared with   *)
(* what the model of the firmware (ArcMoves) allows.                        *)
EXTENDS Tracker, ArcMoves, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VF_CASES)
N == Len(Cases)

VARIABLES c,      \* case
          i,      \* lines of the source consumed
          j,      \* lines of the target consumed
          st,     \* steps of the witness consumed
          S,      \* printer executing the source
          O,      \* printer executing the target
          w,      \* the arc being replaced
          a,      \* accumulated rounding: slack of X, Y, Z and of E
          errs
vars == << c, i, j, st, S, O, w, a, errs >>

Case == Cases[c]
Opt == Case.o
Fw == Case.fw
\* the properties looked at: all, or the one named in the environment
Wanted(id) == "VF_PROP" \notin DOMAIN IOEnv \/ IOEnv.VF_PROP = id
Err(ok, id) == IF ~Wanted(id) \/ ok THEN {} ELSE { id }
NoArc == [ on |-> FALSE ]

Init == /\ c \in 1..N
        /\ i = 0 /\ j = 0 /\ st = 0
        /\ S = InitialState(Cases[c].cfg)
        /\ O = InitialState(Cases[c].cfg)
        /\ w = NoArc
        /\ a = [ p |-> 0, e |-> 0 ]
        /\ errs = {}

Within(p, q, t) == Abs(p - q) <= t
HALF == 50                                  \* half a unit of the third decimal
Single(v) == 1 + Abs(v) \div 8388608        \* what single precision does to v
SamePlace(s, o, p) ==
  LET h == HALF + 2 + p
  IN /\ Within(GX(s), GX(o), h + Single(GX(s))) /\ Within(GY(s), GY(o), h + Single(GY(s))) /\ Within(GZ(s), GZ(o), h)
     /\ s.xn = o.xn /\ s.yn = o.yn /\ s.zn = o.zn
     /\ s.rel = o.rel /\ s.erel = o.erel /\ s.tool = o.tool
     \* a coordinate reset turns the rounding of the position before it into an offset
     /\ Within(s.xo, o.xo, h + Single(s.xo)) /\ Within(s.yo, o.yo, h + Single(s.yo)) /\ Within(s.zo, o.zo, h)
SameE(s, o, e) == \A k \in DOMAIN s.ex :
          /\ Within(s.ex[k].e - s.ex[k].eo, o.ex[k].e - o.ex[k].eo, 2 + e + Single(s.ex[k].e - s.ex[k].eo))
          /\ s.ex[k].fx = o.ex[k].fx /\ s.ex[k].fy = o.ex[k].fy /\ s.ex[k].fz = o.ex[k].fz
SameF(s, o) == s.fn = o.fn /\ Within(s.f, o.f, 501)      \* feedrates are written without decimals

IsArc(ln) == ln.c \in { "G2", "G3" }
Step == Case.steps[st + 1]

(* --------------------------- copied lines ------------------------------ *)
Copy ==
  /\ ~w.on /\ st < Len(Case.steps) /\ Step.op = "copy"
  /\ LET ln == Case.src[i + 1]
         s1 == ExecMotion(Case.cfg, S, ln)
         o1 == ExecMotion(Case.cfg, O, Case.out[j + 1])
         a1 == IF ln.c = "G92" THEN [a EXCEPT !.p = @ + 2 * HALF + 4] ELSE a
     IN /\ S' = s1 /\ O' = o1
        /\ a' = a1
        /\ errs' = errs
             \cup Err(~IsArc(ln) /\ ln.t = Case.out[j + 1].t, "S01")
             \cup Err(SamePlace(s1, o1, a1.p), "S01")
             \cup Err(SameE(s1, o1, a1.e), "S01")
             \cup Err(SameF(s1, o1), "S01")
  /\ i' = i + 1 /\ j' = j + 1 /\ st' = st + 1
  /\ UNCHANGED << c, w >>

(* A source line missing from the target, or a target line without source *)
Drop ==
  /\ ~w.on /\ st < Len(Case.steps) /\ Step.op = "drop"
  /\ S' = ExecMotion(Case.cfg, S, Case.src[i + 1])
  /\ i' = i + 1 /\ st' = st + 1 /\ errs' = errs \cup { "S01" }
  /\ UNCHANGED << c, j, w, O, a >>
Insert ==
  /\ ~w.on /\ st < Len(Case.steps) /\ Step.op = "ins"
  /\ j' = j + 1 /\ st' = st + 1 /\ errs' = errs \cup { "S01" }
  /\ UNCHANGED << c, i, w, S, O, a >>

(* ------------------------------ an arc --------------------------------- *)
Par(ln, l) == IF Has(ln, l) THEN ln.p[l] ELSE 0
Eighth(v) == v % 12500 = 0
ArcBegin ==
  /\ ~w.on /\ st < Len(Case.steps) /\ Step.op = "arc"
  /\ LET ln == Case.src[i + 1]
         s1 == ExecMotion(Case.cfg, S, ln)
         I  == Par(ln, "I")   J == Par(ln, "J")
         r  == Hypot(I, J)
         dir == IF ln.c = "G2" THEN -1 ELSE 1
         x0 == GX(S)   y0 == GY(S)   x1 == GX(s1)   y1 == GY(s1)
         closed == x0 = x1 /\ y0 = y1
         exact == Eighth(I) /\ Eighth(J) /\ Eighth(x0) /\ Eighth(y0)
         dz == GZ(s1) - GZ(S)
         sw == Sweeps(Fw, dir, I, J, x1 - x0 - I, y1 - y0 - J, closed, exact)
         noFeed == Fw = "SM" /\ (s1.fn \/ s1.f <= 0)           \* rejected by that firmware
         t  == CHOOSE v \in sw : \A u \in sw : v >= u
         nothing == noFeed \/ 0 \in sw \/ PathLength(Fw, r, t, dz) < 110
         something == ~noFeed /\ PathLength(Fw, r, t, dz) > 90
         m  == IF something THEN Moves(Fw, Opt, r, t, closed, dz, s1.f) ELSE [ lo |-> 1, hi |-> 1, segs |-> { 0 } ]
         n  == Step.n
         \* the angle of one move; where the last is shorter, that of the others
         fl == Along(r, t)
         th == CHOOSE v \in { IF g = 0 THEN t \div Max2(1, n) ELSE IF g >= fl THEN t ELSE MulDiv(t, g, fl) : g \in m.segs }
               : \A g \in m.segs : v >= (IF g = 0 THEN t \div Max2(1, n) ELSE IF g >= fl THEN t ELSE MulDiv(t, g, fl))
         \* distances start from wherever roundings have led the target
         dp == IF S.rel THEN Max2(Abs(GX(S) - GX(O)), Max2(Abs(GY(S) - GY(O)), Abs(GZ(S) - GZ(O)))) ELSE 0
     IN /\ w' = [ on |-> TRUE, dp |-> dp, n |-> n, k |-> 0, cx |-> x0 + I, cy |-> y0 + J, r |-> r, t |-> t, th |-> th,
                  a0 |-> Atan2(-J, -I), z0 |-> GZ(S), dz |-> dz, e0 |-> GE(S), de |-> GE(s1) - GE(S), flat |-> Along(r, t),
                  fit |-> m.segs, dirs |-> Directions(Fw, dir, closed, exact), s1 |-> s1, emax |-> Max2(Abs(GE(S)), Abs(GE(s1))) ]
        /\ errs' = errs
             \cup Err(IF n = 0 THEN nothing ELSE something /\ n >= m.lo /\ n <= m.hi, "S03")
             \cup (IF n > 0 \/ nothing THEN {} ELSE { "S01", "S02", "S04" })
  /\ st' = st + 1
  /\ UNCHANGED << c, i, j, S, O, a >>

MovesOnly(ln) == ln.c = "G1" /\ DOMAIN ln.p \subseteq { "X", "Y", "Z", "E", "F" } /\ ln.cs = "" /\ Len(ln.n) = Cardinality(DOMAIN ln.p)

\* the part k moves of n are of a whole v
Part(v, k, n, g) == IF g = 0 \/ k * g > w.flat THEN (IF g = 0 THEN Sgn(v) * MulDiv(Abs(v), k, n) ELSE v)
                    ELSE Sgn(v) * MulDiv(Abs(v), k * g, Max2(1, w.flat))

Turn(x) == WrapPi(WrapPi(WrapPi(x)))
ETol(k) == 2 + a.e + (1 + w.emax \div 8388608) * (k + 2)
ZTol(k) == HALF + 2 + w.dp + k \div 16

ArcMove ==
  /\ w.on /\ w.k < w.n
  /\ LET ln == Case.out[j + 1]
         o1 == ExecMotion(Case.cfg, O, ln)
         k  == w.k + 1
         last == k = w.n
         ux == GX(o1) - w.cx   uy == GY(o1) - w.cy
         m  == Corrected(Fw, Opt, k)
         known == DriftKnown(w.th, m)
         tol == HALF + (HALF \div 2) + 12 + w.dp
         trad == tol + DriftRadius(Fw, w.r, w.th, m) + (w.r \div 300000) + MulDiv(w.r, m, 8000000)
         tang == IF tol > w.r \div 4 THEN PI27 ELSE MulDiv(tol, 134217728, w.r) + DriftAngle(Fw, w.th, m) + 600 + 8 * m
         an == Atan2(uy, ux)
         angok(g, v) == Abs(Turn(an - (w.a0 + v * Part(w.t, k, w.n, g)))) <= tang
         sane == Abs(ux) <= 2 * w.r + 100000 /\ Abs(uy) <= 2 * w.r + 100000
         geo == Wanted("S02") /\ ~last /\ known
         fits == IF geo THEN { g \in w.fit : \E v \in w.dirs : angok(g, v) } ELSE w.fit
         dirs == IF geo THEN { v \in w.dirs : \E g \in w.fit : angok(g, v) } ELSE w.dirs
         \* single precision leaves the length of the arc uncertain by a few units
         unsure(v, g) == IF g = 0 THEN 0 ELSE MulDiv(Abs(v), 5, Max2(w.flat, 5))
         zok(g) == Within(GZ(o1), w.z0 + Part(w.dz, k, w.n, g), ZTol(k) + Abs(w.dz) \div 100000 + unsure(w.dz, g))
         eok(g) == Within(GE(o1), w.e0 + Part(w.de, k, w.n, g), ETol(k) + Abs(w.de) \div 100000 + unsure(w.de, g))
         even == { g \in w.fit : zok(g) /\ eok(g) }
     IN /\ O' = o1
        /\ w' = [w EXCEPT !.k = k, !.fit = IF last \/ even \cap fits = {} THEN @ ELSE even \cap fits,
                       !.dirs = IF dirs = {} THEN @ ELSE dirs ]
        /\ errs' = errs
             \cup Err(MovesOnly(ln), "S01")
             \cup Err(~geo \/ (sane /\ Within(Hypot(ux, uy), w.r, trad)), "S02")
             \cup Err(fits # {}, "S02")
             \cup Err(last \/ even # {}, "S04")
             \cup Err(w.s1.fn \/ Within(o1.f, w.s1.f, 501), "S04")
  /\ j' = j + 1
  /\ UNCHANGED << c, i, st, S, a >>

ArcEnd ==
  /\ w.on /\ w.k = w.n
  /\ LET s1 == w.s1
         moved == w.n > 0
         a1 == [ p |-> a.p + (IF s1.rel /\ moved THEN HALF + 2 ELSE 0), e |-> a.e + (IF s1.erel /\ moved THEN 1 + Single(w.emax) ELSE 0) ]
     IN /\ S' = s1
        \* what an arc its firmware drops leaves undone is no longer looked at
        /\ O' = IF moved THEN O ELSE s1
        /\ a' = a1
        /\ errs' = errs
             \cup (IF w.n = 0 \/ SamePlace(s1, O, a1.p) THEN {} ELSE { "S01", "S02" })
             \cup Err(w.n = 0 \/ SameE(s1, O, a1.e), "S04")
             \cup Err(w.n = 0 \/ SameE(s1, O, a1.e), "S01")
             \cup Err(w.n = 0 \/ SameF(s1, O), "S01")
  /\ i' = i + 1
  /\ w' = NoArc
  /\ UNCHANGED << c, j, st >>

Done ==
  /\ ~w.on /\ st = Len(Case.steps) /\ i = Len(Case.src) /\ j = Len(Case.out)
  /\ UNCHANGED vars

Next == Copy \/ Drop \/ Insert \/ ArcBegin \/ ArcMove \/ ArcEnd \/ Done
OK_S01 == "S01" \notin errs
OK_S02 == "S02" \notin errs
OK_S03 == "S03" \notin errs
OK_S04 == "S04" \notin errs
Place == << c, i, j, st, w.on, IF w.on THEN w.k ELSE 0 >>
=============================================================================
