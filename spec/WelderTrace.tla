---------------------------- MODULE WelderTrace ----------------------------
(* Checks recorded runs of the real welder: every case holds the lines of a *)
(* source file, the items of the target file that was really written, and a *)
(* witness saying which items are copies of lines and which are arcs        *)
(* replacing runs of lines.  The specification executes the source and the  *)
(* target side by side on two printers (Tracker) and collects, in errs, the *)
(* properties that a step breaks.  A case is a deterministic behaviour; its *)
(* only good end is Done, where both files are consumed completely.         *)
EXTENDS Tracker, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VF_CASES)
N == Len(Cases)

VARIABLES c,      \* case
          i,      \* lines of the source consumed
          j,      \* steps of the target consumed
          S,      \* printer executing the source
          O,      \* printer executing the target
          w,      \* the arc being checked
          a,      \* accumulators: precision in force, E slack, counters
          errs
vars == << c, i, j, S, O, w, a, errs >>

Case == Cases[c]
Opt == Case.o
Err(ok, id) == IF ok THEN {} ELSE { id }

NoArc == [ on |-> FALSE ]

Init == /\ c \in 1..N
        /\ i = 0 /\ j = 0
        /\ S = InitialState(Cases[c].cfg)
        /\ O = InitialState(Cases[c].cfg)
        /\ w = NoArc
        /\ a = [ px |-> Cases[c].o.px, pe |-> Cases[c].o.pe, eslack |-> 0, resets |-> 0, arcs |-> 0, pts |-> 0 ]
        /\ errs = {}

(* ------------------------- comparing the printers ---------------------- *)
Half(d) == IF d >= 5 THEN 0 ELSE P10(5 - d) \div 2        \* half a unit of the d-th decimal
Within(p, q, t) == Abs(p - q) <= t
SameState(s, o, acc) ==
  LET h == Half(Opt.px) + 1
  IN /\ Within(GX(s), GX(o), h) /\ Within(GY(s), GY(o), h) /\ Within(GZ(s), GZ(o), h)
     /\ s.xn = o.xn /\ s.yn = o.yn /\ s.zn = o.zn
     /\ s.rel = o.rel /\ s.erel = o.erel /\ s.tool = o.tool
     \* a coordinate reset turns the rounding of the position before it into an offset
     /\ Within(s.xo, o.xo, h * acc.resets) /\ Within(s.yo, o.yo, h * acc.resets) /\ Within(s.zo, o.zo, h * acc.resets)
     /\ s.xf = o.xf /\ s.yf = o.yf /\ s.zf = o.zf
     /\ \A k \in DOMAIN s.ex :
          /\ Within(s.ex[k].e - s.ex[k].eo, o.ex[k].e - o.ex[k].eo, Half(Opt.pe) + 1 + acc.eslack)
          /\ s.ex[k].fx = o.ex[k].fx /\ s.ex[k].fy = o.ex[k].fy /\ s.ex[k].fz = o.ex[k].fz

SeePrecision(acc, ln) ==
  IF Opt.dyn /\ ln.c \in { "G0", "G1" }
  THEN [acc EXCEPT !.px = Min2(6, Max2(@, ln.dx)), !.pe = Min2(6, Max2(@, ln.de))]
  ELSE acc

(* --------------------------- copied lines ------------------------------ *)
Step == Case.steps[j + 1]

Copy ==
  /\ ~w.on /\ j < Len(Case.steps) /\ Step.op = "copy"
  /\ LET ln == Case.src[i + 1]
         s1 == ExecMotion(Case.cfg, S, ln)
         o1 == ExecMotion(Case.cfg, O, ln)
         a1 == [SeePrecision(a, ln) EXCEPT !.resets = IF ln.c = "G92" THEN @ + 1 ELSE @]
     IN /\ S' = s1 /\ O' = o1 /\ a' = a1
        /\ errs' = errs
             \cup Err(ln.t = Case.out[Step.o].t, "W01")
             \cup Err(SameState(s1, o1, a1), "W02")
             \cup Err(s1.f = o1.f, "W04")
  /\ i' = i + 1 /\ j' = j + 1
  /\ UNCHANGED << c, w >>

(* A source line missing from the target, or a target line without source *)
Drop ==
  /\ ~w.on /\ j < Len(Case.steps) /\ Step.op = "drop"
  /\ S' = ExecMotion(Case.cfg, S, Case.src[i + 1])
  /\ i' = i + 1 /\ j' = j + 1 /\ errs' = errs \cup { "W01" }
  /\ UNCHANGED << c, w, O, a >>
Insert ==
  /\ ~w.on /\ j < Len(Case.steps) /\ Step.op = "ins"
  /\ j' = j + 1 /\ errs' = errs \cup { "W01" }
  /\ UNCHANGED << c, i, w, S, O, a >>

(* ------------------------------ an arc --------------------------------- *)
(* Slack for the rounding of the written numbers: the centre is off by up  *)
(* to half a unit in I and in J, and so is the radius derived from them.   *)
Slack(ar) == 5 * Half(ar.d.I) + 4

ArcBegin ==
  /\ ~w.on /\ j < Len(Case.steps) /\ Step.op = "arc"
  /\ LET ar == Case.out[Step.o]
         I  == ar.p.I
         J  == ar.p.J
         cap == Abs(I) + Abs(J) + Opt.half + Slack(ar)
         sc == NormShift(cap)
     IN w' = [ on |-> TRUE, left |-> Step.n, o |-> Step.o, n |-> 0,
               cx |-> GX(S) + I, cy |-> GY(S) + J, I |-> I, J |-> J,
               cap |-> cap, sc |-> sc, rg |-> GainS(I, J, sc), r |-> Hypot(I, J),
               ang |-> Atan2(-J, -I), ang0 |-> Atan2(-J, -I), sweep |-> 0,
               x |-> GX(S), y |-> GY(S), z0 |-> S.z,
               len |-> 0, zs |-> << >>, e |-> 0, kind |-> 0, f |-> 0, tag |-> 0,
               rate |-> 0, rated |-> 0, cms |-> << >>, near |-> FALSE ]
  /\ UNCHANGED << c, i, j, S, O, a, errs >>

\* the gain of a length t <= 2^27 (relative error below 10^-3)
GainOf(t) == IF t < 1000000 THEN (t * 1647) \div 1000 + 1 ELSE (t \div 1000) * 1647 + 1647

(* is point (x, y) within the tolerance of the arc's circle?               *)
OnCircle(ar, x, y) ==
  LET ux == x - w.cx  uy == y - w.cy
      tol == Opt.half + Slack(ar)
  IN /\ Abs(ux) <= w.cap /\ Abs(uy) <= w.cap
     /\ Within(GainS(ux, uy, w.sc), w.rg, GainOf(Min2(tol * P2(w.sc), 134217727)) + 100)

(* the closest approach of segment (x0,y0)-(x1,y1) to the centre, if it is *)
(* inside the segment, is within the tolerance of the radius               *)
ChordOk(ar, x0, y0, x1, y1) ==
  LET vx == x1 - x0  vy == y1 - y0
      ux == x0 - w.cx  uy == y0 - w.cy
      sv == NormShift(Max2(Abs(vx), Abs(vy)))
      flip == IF vx < 0 THEN -1 ELSE 1
      big == P2(w.sc)
      r  == Vec(0, flip * vx * P2(sv), flip * vy * P2(sv), flip * ux * big, flip * uy * big)
      \* r[1] = K |v| 2^sv, r[3] = K u_parallel 2^sc, r[4] = K u_perpendicular 2^sc
      back == r[3]
      fwd == IF sv >= w.sc THEN r[3] + (r[1] \div P2(sv - w.sc))
                           ELSE (r[3] \div P2(w.sc - sv)) + r[1]
      tol == Opt.half + Slack(ar)
  IN \/ vx = 0 /\ vy = 0
     \/ Abs(ux) > w.cap \/ Abs(uy) > w.cap          \* reported by OnCircle
     \/ back >= 0 \/ fwd <= 0                        \* the foot is not inside
     \/ w.rg - Abs(r[4]) <= GainOf(Min2(tol * P2(w.sc), 134217727)) + 100

(* filament per millimetre, units of 2^-24 *)
RateOf(e, d) == IF d = 0 THEN 0 ELSE IF e \div 64 >= d THEN -1 ELSE MulDiv(e, 16777216, d)
RateOk(r1, d1, r2, d2) ==
  LET lim == MulDiv(r1, Opt.var, 1000000)
      slack == 4 + (r1 \div 100000) + 2 * (r1 \div d1) + 2 * (r2 \div d2)
  IN r1 <= 0 \/ r2 < 0 \/ Abs(r2 - r1) <= lim + slack

\* a comment equal to everything collected so far is not repeated
Collect(cms, cs) == IF cs = "" \/ cms = << cs >> THEN cms ELSE Append(cms, cs)

ArcMove ==
  /\ w.on /\ w.left > 0
  /\ LET ar == Case.out[w.o]
         ln == Case.src[i + 1]
         s1 == ExecMotion(Case.cfg, S, ln)
         x1 == GX(s1)  y1 == GY(s1)
         blank == ln.c = "" /\ ln.empty /\ ln.cs = ""
         er == Cur(s1).er
         n1 == w.n + 1
         an == Atan2(y1 - w.cy, x1 - w.cx)
         dxy == Hypot(x1 - w.x, y1 - w.y)
         d  == IF Opt.d3 THEN Hypot(dxy, s1.z - S.z) ELSE dxy
         rt == IF er > 0 THEN RateOf(er, d) ELSE 0
         kind == Sgn(er)
     IN IF blank
        THEN /\ S' = s1 /\ w' = [w EXCEPT !.left = @ - 1] /\ errs' = errs /\ a' = a
        ELSE
        /\ S' = s1
        /\ a' = SeePrecision(a, ln)
        /\ w' = [w EXCEPT !.left = @ - 1, !.n = n1, !.x = x1, !.y = y1,
                          !.ang = an, !.sweep = @ + WrapPi(an - w.ang),
                          !.near = @ \/ (Abs(x1 - w.cx) + Abs(y1 - w.cy) < w.r \div 2),
                          !.len = @ + d, !.zs = Append(@, << w.len + d, s1.z >>),
                          !.e = @ + er, !.kind = IF n1 = 1 THEN kind ELSE @,
                          !.f = IF n1 = 1 THEN s1.f ELSE @,
                          !.tag = TagOf(ln), !.rate = rt, !.rated = d,
                          !.cms = Collect(@, ln.cs)]
        /\ errs' = errs
             \cup Err(ln.c \in { "G0", "G1" }, "W08")
             \cup Err(~S.rel /\ ~s1.rel, "W08")
             \cup Err(~S.xn /\ ~S.yn /\ S.zn = s1.zn, "W08")
             \cup Err(S.xo = s1.xo /\ S.yo = s1.yo /\ S.zo = s1.zo /\ S.xf = s1.xf /\ S.yf = s1.yf
                       /\ S.zf = s1.zf /\ S.erel = s1.erel /\ S.tool = s1.tool, "W08")
             \cup Err(n1 = 1 \/ TagOf(ln) = w.tag, "W08")
             \cup Err(n1 = 1 \/ s1.f = w.f, "W04")
             \cup Err(n1 = 1 \/ kind = w.kind, "W07")
             \cup Err(kind # 0 \/ (Opt.travel /\ s1.trav), "W07")
             \cup Err(Opt.d3 \/ s1.z = S.z, "W09")
             \cup Err(Opt.var = 0 \/ n1 = 1 \/ kind <= 0 \/ w.kind <= 0 \/ RateOk(w.rate, w.rated, rt, d), "W10")
             \cup Err(OnCircle(ar, x1, y1) /\ ChordOk(ar, w.x, w.y, x1, y1), "W05")
  /\ i' = i + 1
  /\ UNCHANGED << c, j, O >>

(* the arc as a whole *)
Dir(ar) == IF ar.c = "G2" THEN -1 ELSE 1
TurnOk(ar) ==
  LET t == Dir(ar) * w.sweep
      ex == ar.p.X - GX(O) - ar.p.I
      ey == ar.p.Y - GY(O) - ar.p.J
      closed == ar.p.X = GX(O) /\ ar.p.Y = GY(O)
      q == Dir(ar) * WrapPi(Atan2(ey, ex) - w.ang0)
      \* what a controller makes of it, which starts where it is
      arcturn == IF closed THEN TWOPI27 ELSE IF q < 0 THEN q + TWOPI27 ELSE q
      \* angle error from the rounding of the written numbers: (5 half units) / radius
      eps == 1342177 + IF w.r < 2000 THEN PI27 \div 8 ELSE MulDiv(5 * Half(ar.d.I) + 4, 134217728, w.r)
  IN \/ w.near \/ w.r < 2 * Opt.half + 20 * Half(ar.d.I)     \* the turn is not defined
     \/ (t >= -eps /\ t <= TWOPI27 + eps /\ Abs(t - arcturn) <= eps)

(* An arc that ends where it starts, in the numbers written, is executed as *)
(* a full circle (or not at all), and one without an offset is none.       *)
ClosedOk(ar) ==
  LET closed == ar.p.X = GX(O) /\ ar.p.Y = GY(O)
  IN /\ ar.p.I # 0 \/ ar.p.J # 0
     /\ closed => w.near \/ w.r < 20 * Half(ar.d.I) \/ Abs(w.sweep) >= PI27
(* r * angle for an angle in 2^-27 rad, as a length *)
ArcLen(r, t) == IF (r \div 65536) * (t \div 65536) > 60000000 THEN 2000000000 ELSE MulDiv(r, t, 134217728)
LengthOk(ar) ==
  LET t == Abs(w.sweep)
      al2 == ArcLen(w.r, t)
      dz == IF Opt.d3 THEN S.z - w.z0 ELSE 0
      al == Hypot(al2, dz)
      tol == MulDiv(al, Opt.tol, 1000000)
      h == Half(ar.d.I)
  IN \/ w.near \/ w.r < 2 * Opt.half + 20 * h
     \/ Abs(al - w.len) <= tol + (al \div 1000) + 10 * h + 10

HelixOk(ar) ==
  LET n == Len(w.zs)
      L == w.zs[n][1]
      dz == w.zs[n][2] - w.z0
      unit == 2 * Half(Opt.px) + 2
  IN ~Opt.d3 \/ L = 0 \/
     \A k \in 1..n : Abs(w.z0 + Sgn(dz) * MulDiv(Abs(dz), w.zs[k][1], L) - w.zs[k][2])
                       <= unit + 4 + (Abs(dz) \div 2000)

CompensationOk(ar) ==
  \/ Opt.minseg = 0 \/ Opt.mmseg = 0
  \/ LET need(s) == IF (s \div 1000) * Opt.minseg > 12000000 THEN 2000000000
                      ELSE MulDiv(s, Opt.minseg * 1000000, 6283185)
         r == w.r + Slack(ar) + (w.r \div 100000)
     IN r >= need(Opt.mmseg) \/ r >= need(w.len)

\* zero may be written without decimals
DecimalsOk(ar, l, d) == ar.d[l] = d \/ (ar.p[l] = 0 /\ ar.d[l] = 0)

ArcEnd ==
  /\ w.on /\ w.left = 0
  /\ LET ar == Case.out[w.o]
         o1 == ExecMotion(Case.cfg, O, ar)
         hasE == Has(ar, "E")
         hasZ == Has(ar, "Z")
         hasF == Has(ar, "F")
         he == IF hasE THEN Half(ar.d.E) + 1 ELSE 1
         a1 == [a EXCEPT !.eslack = @ + (IF S.erel THEN he ELSE 0), !.arcs = @ + 1, !.pts = @ + w.n - 1]
     IN /\ O' = o1
        /\ a' = a1
        /\ w' = NoArc
        /\ errs' = errs
             \cup Err(w.n >= 2, "W08")
             \cup Err(~ar.big, "W12")
             \cup Err(SameState(S, o1, a1), "W02")
             \cup Err(~o1.rel, "W02")
             \cup Err(hasE <=> w.e # 0, "W03")
             \cup Err(~hasE \/ IF S.erel THEN Within(ar.p.E, w.e, he) ELSE Within(ar.p.E, GE(S), he), "W03")
             \cup Err(o1.f = S.f, "W04")
             \cup Err(~hasF \/ O.f # S.f, "W04")
             \cup Err(TurnOk(ar), "W06")
             \cup Err(LengthOk(ar), "W06")
             \cup Err(ClosedOk(ar), "W06")
             \cup Err(Opt.d3 \/ ~hasZ, "W09")
             \cup Err(HelixOk(ar), "W09")
             \cup Err(hasZ \/ S.z = w.z0, "W09")
             \cup Err(~hasZ \/ Within(ar.p.Z, GZ(S), Half(ar.d.Z) + 1), "W09")
             \cup Err(\A l \in { "X", "Y", "Z", "I", "J" } \cap DOMAIN ar.d : DecimalsOk(ar, l, a.px), "W11")
             \cup Err(~hasE \/ DecimalsOk(ar, "E", a.pe), "W11")
             \cup Err(Opt.maxlen = 0 \/ ar.len <= Opt.maxlen, "W11")
             \cup Err(w.r <= Opt.maxr + Slack(ar) + (w.r \div 100000), "W12")
             \cup Err(CompensationOk(ar), "W13")
             \cup Err(ar.cms = w.cms, "W15")
  /\ j' = j + 1
  /\ UNCHANGED << c, i, S >>

Done ==
  /\ ~w.on /\ j = Len(Case.steps) /\ i = Len(Case.src)
  /\ UNCHANGED vars

Next == Copy \/ Drop \/ Insert \/ ArcBegin \/ ArcMove \/ ArcEnd \/ Done
Spec == Init /\ [][Next]_vars

\* properties broken by step so far; a check names its own
Broken == errs
OK_W01 == "W01" \notin errs
OK_W02 == "W02" \notin errs
OK_W03 == "W03" \notin errs
OK_W04 == "W04" \notin errs
OK_W05 == "W05" \notin errs
OK_W06 == "W06" \notin errs
OK_W07 == "W07" \notin errs
OK_W08 == "W08" \notin errs
OK_W09 == "W09" \notin errs
OK_W10 == "W10" \notin errs
OK_W11 == "W11" \notin errs
OK_W12 == "W12" \notin errs
OK_W13 == "W13" \notin errs
OK_W15 == "W15" \notin errs
\* the chains are deterministic: a position identifies the state
Place == << c, i, j, w.on, IF w.on THEN w.left ELSE 0 >>
=============================================================================

