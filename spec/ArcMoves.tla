------------------------------ MODULE ArcMoves ------------------------------
(* How a firmware splits an arc into moves: the angle swept, the number of  *)
(* moves, where each ends, and how far the firmware's small angle           *)
(* approximation may drift.  Every number is an interval wide enough for    *)
(* the single precision arithmetic of the firmwares, and no wider.          *)
(* Firmwares: M1 = Marlin 1.1.9.1, M2a/M2b = Marlin 2.0.9.1/2.0.9.2,        *)
(* R4/R5 = Repetier 1.0.4/1.0.5, P10/P11 = Prusa 3.10.0/3.11.0,             *)
(* SM = Smoothieware 2021-06-19.                                            *)
(* Settings o: mm, minmm, maxmm, minper, perr, err (10^-5 mm),              *)
(* persec (10^-3), minseg, mincirc, ncorr.                                  *)
EXTENDS Arith

Clip(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
FloorDiv(x, m) == IF x <= 0 THEN 0 ELSE x \div m
CeilDiv(x, m) == IF x <= 0 THEN 0 ELSE (x + m - 1) \div m

\* r * t for an angle t in 2^-27 rad
Along(r, t) == IF (r \div 65536) * (t \div 65536) > 60000000 THEN 2000000000 ELSE MulDiv(r, t, 134217728)

\* what single precision coordinates can do to an angle seen from distance r
AngleError(r) == 300 + MulDiv(10, 134217728, Max2(r, 100))

(* ----------------------------- the sweep ------------------------------- *)
(* The angles an arc may sweep.  (i, j): start to centre; (x, y): centre to *)
(* end; closed: it ends where it starts; exact: in numbers which single     *)
(* precision represents, so that firmwares comparing an angle with zero see *)
(* the zero.                                                                *)
Full(fw, exact) == fw \in { "M2a", "M2b", "R5", "SM" } \/ exact
Sweeps(fw, dir, i, j, x, y, closed, exact) ==
  LET d == dir * WrapPi(Atan2(y, x) - Atan2(-j, -i))
      t == IF d < 0 THEN d + TWOPI27 ELSE d
  IN IF ~closed THEN { t }
     ELSE IF Full(fw, exact) THEN { TWOPI27 }
     ELSE { 0, TWOPI27 }                       \* these take a rounded zero for an arc of no length

(* The directions an arc may turn in: the firmwares that compare a rounded  *)
(* angle with zero may also take a closed clockwise circle for a            *)
(* counterclockwise one.                                                    *)
Directions(fw, dir, closed, exact) == IF closed /\ ~Full(fw, exact) THEN { dir, -dir } ELSE { dir }

(* ------------------------- the number of moves ------------------------- *)
\* speed in 10^-5 mm/s from a feedrate in 10^-3 mm/min
Speed(f) == (f \div 3) * 5

\* lowest and highest value of ceil(m * t / 2 pi)
MinLo(m, t, e) == Max2(1, MulDiv(Max2(t - e, 0), m, TWOPI27) + 1)
MinHi(m, t, e) == Max2(1, MulDiv(t + e, m, TWOPI27) + 1)

\* the chord of a circle of radius r whose sagitta is e:  2 sqrt(r^2 - (r - e)^2)
RECURSIVE Root(_, _, _, _)
Root(lo, hi, r, q) ==      \* the largest h in lo..hi-1 with q^2 + h^2 <= r^2
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2
       IN IF CmpSq(q, m, r) <= 0 THEN Root(m, hi, r, q) ELSE Root(lo, m, r, q)
ChordOf(r, e) == 2 * Root(0, r + 1, r, Abs(r - e))

(* ceil of a length in pieces, the last of which must be longer than 10^-4 mm *)
PiecesLo(x, m, d) == LET y == Max2(x - d, 0) IN Max2(1, (y \div m) + (IF (y % m) > 10 + d THEN 1 ELSE 0))
PiecesHi(x, m, d) == LET y == x + d IN Max2(1, (y \div m) + (IF (y % m) > Max2(0, 10 - 2 * d) THEN 1 ELSE 0))

(* The interval lo..hi of the number of moves, and, for firmwares whose     *)
(* last move may be shorter, the lengths all moves but the last may have    *)
(* (0: all are equally long).                                               *)
Moves(fw, o, r, t, closed, dz, f) ==
  LET flat == Along(r, t)
      T  == IF fw = "R4" THEN flat ELSE Hypot(flat, dz)
      d  == 20 + (T \div 300000)
      e  == AngleError(r)
      v  == IF o.persec > 0 THEN MulDiv(Speed(f), 1000, o.persec) ELSE 0
      Floors(s, w) == [ lo |-> Max2(1, FloorDiv(T - d, s + w)), hi |-> Max2(1, FloorDiv(T + d, Max2(1, s - w))), segs |-> { 0 } ]
      Ceils(s, w)  == [ lo |-> Max2(1, CeilDiv(T - d, s + w)), hi |-> Max2(1, CeilDiv(T + d, Max2(1, s - w))), segs |-> { 0 } ]
  IN CASE fw \in { "M1", "P10", "R4" } -> Floors(o.mm, 0)
       [] fw = "R5" -> Ceils(o.mm, 0)
       [] fw = "M2a" ->
            LET s  == IF o.perr > 0 THEN (IF (o.mm \div 1000) * (r \div 1000) > 100000000 THEN o.perr
                                          ELSE Clip(MulDiv(o.mm, r, 100000), o.mm, o.perr))
                      ELSE IF o.persec > 0 THEN Max2(v, o.mm) ELSE o.mm
                w  == IF s = o.mm \/ s = o.perr THEN 0 ELSE 2 + s \div 100000
                m  == Max2(1, o.minseg)
                ml == IF closed \/ m = 1 THEN m ELSE MinLo(m, t, e)
                mh == IF closed \/ m = 1 THEN m ELSE MinHi(m, t, e)
                b  == Floors(s, w)
            IN [ b EXCEPT !.lo = Max2(@, ml), !.hi = Max2(@, mh) ]
       [] fw = "M2b" ->
            LET s  == IF o.persec > 0 THEN Clip(v, o.minmm, o.maxmm) ELSE o.maxmm
                w  == IF s = o.minmm \/ s = o.maxmm THEN 0 ELSE 2 + s \div 100000
                c  == Max2(1, o.mincirc)
                nl == Max2(IF closed THEN c ELSE MinLo(c, t, e), FloorDiv(flat - d, s + w))
                nh == Max2(IF closed THEN c ELSE MinHi(c, t, e), FloorDiv(flat + d, Max2(1, s - w)))
                \* with n moves asked for, each would be q long
                q(n)  == flat \div n
                dq(n) == (d \div n) + 1
                atMax(n) == q(n) > o.maxmm - dq(n)       \* may have to be shortened to maxmm
                atMin(n) == q(n) < o.minmm + dq(n)       \* may have to be lengthened to minmm
                free(n)  == q(n) <= o.maxmm + dq(n) /\ q(n) >= o.minmm - dq(n)
                los(n) == (IF atMax(n) THEN { PiecesLo(flat, o.maxmm, d) } ELSE {}) \cup (IF free(n) THEN { n } ELSE {})
                          \cup (IF atMin(n) THEN { PiecesLo(flat, o.minmm, d) } ELSE {})
                his(n) == (IF atMax(n) THEN { PiecesHi(flat, o.maxmm, d) } ELSE {}) \cup (IF free(n) THEN { n } ELSE {})
                          \cup (IF atMin(n) THEN { PiecesHi(flat, o.minmm, d) } ELSE {})
                sg(n)  == (IF atMax(n) THEN { o.maxmm } ELSE {}) \cup (IF free(n) THEN { 0 } ELSE {})
                          \cup (IF atMin(n) THEN { o.minmm } ELSE {})
                L == los(nl) \cup los(nh)
                H == his(nl) \cup his(nh)
            IN [ lo |-> CHOOSE x \in L : \A y \in L : x <= y, hi |-> CHOOSE x \in H : \A y \in H : x >= y,
                 segs |-> sg(nl) \cup sg(nh) ]
       [] fw = "P11" ->
            LET a == IF o.minseg > 0 THEN MulDiv(r, 6283185, 1000000 * o.minseg) ELSE o.mm
                s == IF a < o.minper THEN o.minper ELSE IF a > o.mm THEN o.mm ELSE a
                w == IF s = o.minper \/ s = o.mm THEN 0 ELSE 2 + s \div 100000
            IN Ceils(s, w)
       [] fw = "SM" ->
            LET ch == IF o.err > 0 /\ 2 * r > o.err THEN ChordOf(r, o.err) ELSE 0
                a  == IF o.mm < ch THEN ch ELSE o.mm
                s  == IF a < 10 THEN 50000 ELSE a
                w  == IF s = ch THEN 6 + s \div 20000 ELSE 0
            IN Floors(s, w)

\* the length of the path; below 10^-3 mm there is no move at all
PathLength(fw, r, t, dz) == IF fw = "R4" THEN Along(r, t) ELSE Hypot(Along(r, t), dz)

(* -------------------------------- drift -------------------------------- *)
\* the square and powers of an angle below one radian
Pow2(a) == MulDiv(a, a, 134217728)
Pow3(a) == MulDiv(Pow2(a), a, 134217728)
Pow4(a) == MulDiv(Pow2(a), Pow2(a), 134217728)
Pow5(a) == MulDiv(Pow4(a), a, 134217728)
SecondOrder(fw) == fw \in { "M1", "P10", "R4", "SM" }
\* every how many moves the place is computed exactly
Period(fw, n) == IF n <= 0 THEN 1 ELSE IF fw \in { "M1", "M2a", "M2b" } THEN n ELSE n + 1
\* the moves approximated since the last exact one
Corrected(fw, o, k) == IF o.ncorr > 100 THEN k ELSE k % Period(fw, o.ncorr)
\* after m approximated moves by the angle a
DriftKnown(a, m) == m = 0 \/ (a < 134217728 /\ m * (Pow4(a) \div 128) < 524288)
DriftAngle(fw, a, m) == IF m = 0 THEN 0 ELSE IF SecondOrder(fw) THEN m * (Pow3(a) \div 5 + 1) ELSE m * (Pow5(a) \div 20 + 1)
DriftRadius(fw, r, a, m) == IF m = 0 THEN 0
                            ELSE 2 + MulDiv(r, m * (Pow4(a) \div (IF SecondOrder(fw) THEN 7 ELSE 20) + 1), 134217728)
=============================================================================
