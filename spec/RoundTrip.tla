----------------------------- MODULE RoundTrip ------------------------------
(* Welding and then straightening: every case holds the lines of a source,  *)
(* the lines of what the straightener made of the file the welder made of   *)
(* it, and a witness saying which lines survived both and which runs of     *)
(* lines became which moves (through which arc). Both files are executed    *)
(* side by side; the moves have to follow the path of the lines they stand  *)
(* for, in order. plain holds what became of the source when straightened   *)
(* without having been welded.                                              *)
EXTENDS Tracker, ArcMoves, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VF_CASES)
N == Len(Cases)
VARIABLES c, i, j, st, S, O, w, a, errs
vars == << c, i, j, st, S, O, w, a, errs >>

Case == Cases[c]
Weld == Case.w          \* the welder's options
Opt == Case.o           \* the firmware's settings
Fw == Case.fw
Err(ok, what) == IF ok THEN {} ELSE { what }
NoRun == [ on |-> FALSE ]

Init == /\ c \in 1..N
        /\ i = 0 /\ j = 0 /\ st = 0
        /\ S = InitialState(Cases[c].cfg)
        /\ O = InitialState(Cases[c].cfg)
        /\ w = NoRun
        /\ a = [ resets |-> 0, e |-> 0 ]
        /\ errs = Err(Cases[c].plain = Cases[c].raw, "a file without arcs was changed")

Within(p, q, t) == Abs(p - q) <= t
Half(d) == IF d >= 5 THEN 0 ELSE P10(5 - d) \div 2
Single(v) == 1 + Abs(v) \div 8388608        \* what single precision does to v
HALF == 50                                  \* the straightener writes three decimals
H == Half(Weld.px) + HALF + 3
SamePlace(s, o, acc) ==
  LET h == H + acc.resets * (2 * H + 2)
  IN /\ Within(GX(s), GX(o), h + Single(GX(s))) /\ Within(GY(s), GY(o), h + Single(GY(s))) /\ Within(GZ(s), GZ(o), h)
     /\ s.xn = o.xn /\ s.yn = o.yn /\ s.zn = o.zn
     /\ s.rel = o.rel /\ s.erel = o.erel /\ s.tool = o.tool
     /\ Within(s.xo, o.xo, h + Single(s.xo)) /\ Within(s.yo, o.yo, h + Single(s.yo)) /\ Within(s.zo, o.zo, h)
SameE(s, o, acc) == \A k \in DOMAIN s.ex :
  Within(s.ex[k].e - s.ex[k].eo, o.ex[k].e - o.ex[k].eo, Half(Weld.pe) + 3 + acc.e + 2 * Single(s.ex[k].e - s.ex[k].eo))
SameF(s, o) == s.fn = o.fn /\ Within(s.f, o.f, 501)

Step == Case.steps[st + 1]
Next_Copy ==
  /\ ~w.on /\ st < Len(Case.steps) /\ Step.op = "copy"
  /\ LET ln == Case.src[i + 1]
         s1 == ExecMotion(Case.cfg, S, ln)
         o1 == ExecMotion(Case.cfg, O, Case.out[j + 1])
         a1 == IF ln.c = "G92" THEN [a EXCEPT !.resets = @ + 1] ELSE a
     IN /\ S' = s1 /\ O' = o1 /\ a' = a1
        /\ errs' = errs \cup Err(ln.t = Case.out[j + 1].t, "another line")
                        \cup Err(SamePlace(s1, o1, a1), "another place") \cup Err(SameE(s1, o1, a1), "other filament") \cup Err(SameF(s1, o1), "another feedrate")
  /\ i' = i + 1 /\ j' = j + 1 /\ st' = st + 1
  /\ UNCHANGED << c, w >>
Next_Odd ==
  /\ ~w.on /\ st < Len(Case.steps) /\ Step.op \in { "drop", "ins" }
  /\ i' = i + (IF Step.op = "drop" THEN 1 ELSE 0) /\ j' = j + (IF Step.op = "ins" THEN 1 ELSE 0) /\ st' = st + 1
  /\ errs' = errs \cup { "a line without counterpart" }
  /\ UNCHANGED << c, w, S, O, a >>

(* --------------------- lines that became an arc ------------------------ *)
Par(ln, l) == IF l \in DOMAIN ln.p THEN ln.p[l] ELSE 0
Begin ==
  /\ ~w.on /\ st < Len(Case.steps) /\ Step.op = "run"
  /\ LET ar == Step.arc
         x0 == GX(O)  y0 == GY(O)
         I == Par(ar, "I")  J == Par(ar, "J")
         dir == IF ar.c = "G2" THEN -1 ELSE 1
         closed == ar.p.X = x0 /\ ar.p.Y = y0
         sw == Sweeps(Fw, dir, I, J, ar.p.X - x0 - I, ar.p.Y - y0 - J, closed, FALSE)
         t == CHOOSE v \in sw : \A u \in sw : v >= u
     IN w' = [ on |-> TRUE, left |-> Step.n, m |-> Step.m, k |-> 0, at |-> 1, pts |-> << << GX(S), GY(S) >> >>, r |-> Hypot(I, J),
               th |-> IF Fw = "M2b" THEN t \div Max2(1, Step.m - 1) ELSE t \div Max2(1, Step.m), ih |-> Half(ar.d.I) ]
  /\ st' = st + 1
  /\ UNCHANGED << c, i, j, S, O, a, errs >>
Take ==
  /\ w.on /\ w.left > 0
  /\ LET ln == Case.src[i + 1]
         s1 == ExecMotion(Case.cfg, S, ln)
     IN /\ S' = s1
        /\ w' = [w EXCEPT !.left = @ - 1, !.pts = IF GX(s1) = GX(S) /\ GY(s1) = GY(S) THEN @ ELSE Append(@, << GX(s1), GY(s1) >>)]
  /\ i' = i + 1
  /\ UNCHANGED << c, j, st, O, a, errs >>

\* the gain of a length t <= 2^27
GainOf(t) == IF t < 1000000 THEN (t * 1647) \div 1000 + 1 ELSE (t \div 1000) * 1647 + 1647
\* is p within t of the line from p0 to p1
Near(p0, p1, p, t) ==
  LET vx == p1[1] - p0[1]  vy == p1[2] - p0[2]
      ux == p[1] - p0[1]   uy == p[2] - p0[2]
      box == /\ p[1] >= Min2(p0[1], p1[1]) - t /\ p[1] <= Max2(p0[1], p1[1]) + t
             /\ p[2] >= Min2(p0[2], p1[2]) - t /\ p[2] <= Max2(p0[2], p1[2]) + t
      sc == NormShift(Max2(Max2(Max2(Abs(ux), Abs(uy)), Max2(Abs(vx), Abs(vy))), t))
      lim == GainOf(Min2(t * P2(sc), 134217727)) + 100
      flip == IF vx < 0 THEN -1 ELSE 1
      f == flip * P2(sc)
      r == Vec(0, vx * f, vy * f, ux * f, uy * f)
  IN box /\ \/ GainS(ux, uy, sc) <= lim
            \/ GainS(p[1] - p1[1], p[2] - p1[2], sc) <= lim
            \/ r[3] >= 0 /\ r[3] <= r[1] /\ Abs(r[4]) <= lim
\* the first part of the path from part k on that p is near to (0: none)
RECURSIVE Follow(_, _, _)
Follow(k, p, t) == IF k >= Len(w.pts) THEN 0 ELSE IF Near(w.pts[k], w.pts[k + 1], p, t) THEN k ELSE Follow(k + 1, p, t)
MovesOnly(ln) == ln.c = "G1" /\ DOMAIN ln.p \subseteq { "X", "Y", "Z", "E", "F" } /\ ln.cs = ""
Out ==
  /\ w.on /\ w.left = 0 /\ w.k < w.m
  /\ LET ln == Case.out[j + 1]
         o1 == ExecMotion(Case.cfg, O, ln)
         k == w.k + 1
         m == Corrected(Fw, Opt, k)
         tol == Weld.half + 5 * w.ih + 4 + H + 35 + w.r \div 200000 + a.resets * (2 * H + 2) + DriftRadius(Fw, w.r, w.th, m)
         known == DriftKnown(w.th, m) /\ k < w.m
         f == IF known THEN Follow(w.at, << GX(o1), GY(o1) >>, tol) ELSE w.at
     IN /\ O' = o1
        /\ w' = [w EXCEPT !.k = k, !.at = IF f = 0 THEN @ ELSE f]
        /\ errs' = errs \cup Err(MovesOnly(ln), "another command") \cup Err(f # 0, "off the path")
  /\ j' = j + 1
  /\ UNCHANGED << c, i, st, S, a >>
End ==
  /\ w.on /\ w.left = 0 /\ w.k = w.m
  /\ LET a1 == [a EXCEPT !.e = @ + (IF S.erel THEN Half(Weld.pe) + 3 + Single(GE(S)) ELSE 0)]
     IN /\ a' = a1
        /\ errs' = errs \cup Err(w.m > 0, "an arc was dropped") \cup Err(SamePlace(S, O, a1), "the end is another place")
                        \cup Err(SameE(S, O, a1), "other filament at the end") \cup Err(SameF(S, O), "another feedrate at the end")
  /\ w' = NoRun
  /\ UNCHANGED << c, i, j, st, S, O >>
Done == ~w.on /\ st = Len(Case.steps) /\ i = Len(Case.src) /\ j = Len(Case.out) /\ UNCHANGED vars

Next == Next_Copy \/ Next_Odd \/ Begin \/ Take \/ Out \/ End \/ Done
OK == errs = {}
Place == << c, i, j, st, w.on, IF w.on THEN << w.left, w.k >> ELSE << >> >>
=============================================================================
