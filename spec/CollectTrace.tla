--------------------------- MODULE CollectTrace ----------------------------
(* How the welder must collect moves: a model of greedy collection beside    *)
(* the recorded run (WelderTrace).  Whether two moves were joined is read    *)
(* from the run; the model says where a join had to happen: when the moves   *)
(* collected so far and the next one certainly lie on one circle (a hint     *)
(* with the circle, which the specification verifies point by point) with a  *)
(* margin within every limit.  Where the model is unsure it demands nothing. *)
EXTENDS WelderTrace

VARIABLES g,      \* the collection
          F       \* the source's printer with filament ledger and layers
cvars == << vars, g, F >>

Off(pr, pd) == [ on |-> "no", n |-> 0, prate |-> pr, pdist |-> pd, miss |-> FALSE, nm |-> 0 ]
Unsure == [ on |-> "?", n |-> 0, prate |-> 0, pdist |-> 1, miss |-> FALSE, nm |-> 0 ]

DELTA == 80       \* a point rounded to 3 decimals
DistXY(s0, s1) == Hypot(s1.x - s0.x, s1.y - s0.y)
RateHere(s0, s1) ==
  LET dxy == DistXY(s0, s1)
      d == IF Opt.d3 THEN Hypot(dxy, s1.z - s0.z) ELSE dxy
      q == RateOf(Abs(Cur(s1).er), d)                       \* -1: too large to say
  IN << IF q = -1 THEN -1 ELSE Sgn(Cur(s1).er) * q, d >>

\* a move that may be collected, whatever was before it
Plain(s0, s1, ln) ==
  /\ ln.c \in { "G0", "G1" }
  /\ ~s0.xn /\ ~s0.yn /\ s0.zn = s1.zn
  /\ ~s1.rel
  /\ s0.xf = s1.xf /\ s0.yf = s1.yf /\ s0.zf = s1.zf
  /\ Opt.d3 \/ s0.z = s1.z
\* how far it goes: nowhere, somewhere, or too little to say
Goes(s0, s1) == IF ~s1.chxy THEN "no" ELSE IF DistXY(s0, s1) >= 10 THEN "yes" ELSE "?"
\* is a rate within the variance of the one before it?
RateIs(r1, d1, r2, d2) ==
  LET lim == MulDiv(r1, Opt.var, 1000000)
      slack == 4 + (r1 \div 100000) + 2 * (r1 \div d1) + 2 * (Abs(r2) \div d2)
  IN IF Opt.var = 0 \/ r1 = 0 \/ r1 < -1 \/ r2 = 0 \/ d2 = 0 THEN "yes"
     ELSE IF r1 = -1 \/ r2 = -1 THEN "?"
     ELSE IF Abs(r2 - r1) <= lim - slack THEN "yes" ELSE IF Abs(r2 - r1) > lim + slack THEN "no" ELSE "?"
\* while an arc is being collected
Fitting(s0, s1, f1, ln) ==
  /\ s0.f = s1.f
  /\ g.tag = TagOf(ln)
  /\ Cur(f1).xg \/ Cur(f1).rg \/ (Opt.travel /\ s1.trav)

Circle(k) == Case.circ[k]
On(k, x, y) == LET dx == x - Circle(k)[1]  dy == y - Circle(k)[2]
               IN /\ Abs(dx) <= Circle(k)[3] + DELTA /\ Abs(dy) <= Circle(k)[3] + DELTA
                  /\ Within(Hypot(dx, dy), Circle(k)[3], DELTA)
AngleAt(k, x, y) == Atan2(y - Circle(k)[2], x - Circle(k)[1])

\* start a collection with one move
Begin(s0, s1, ln) ==
  LET h == Case.hint[i + 1]
      r == RateHere(s0, s1)
      a0 == IF h = 0 THEN 0 ELSE AngleAt(h, GX(s0), GY(s0))
      a1 == IF h = 0 THEN 0 ELSE AngleAt(h, GX(s1), GY(s1))
  IN [ on |-> "yes", n |-> 1, kind |-> Sgn(Cur(s1).er), tag |-> TagOf(ln), rate |-> r[1], rated |-> IF r[2] = 0 THEN 1 ELSE r[2],
       prate |-> r[1], pdist |-> IF r[2] = 0 THEN 1 ELSE r[2], miss |-> FALSE, nm |-> 0,
       h |-> h, ok |-> h # 0 /\ On(h, GX(s0), GY(s0)) /\ On(h, GX(s1), GY(s1)),
       x0 |-> GX(s0), y0 |-> GY(s0), z0 |-> s0.z, ang |-> a1, sweep |-> WrapPi(a1 - a0),
       lo |-> Abs(WrapPi(a1 - a0)), hi |-> Abs(WrapPi(a1 - a0)), seg |-> DistXY(s0, s1), big |-> DistXY(s0, s1),
       zs |-> << << DistXY(s0, s1), s1.z >> >> ]
\* one more move joins
Extend(s0, s1, ln) ==
  LET h == Case.hint[i + 1]
      r == RateHere(s0, s1)
      good == g.ok /\ h = g.h
      a1 == IF good THEN AngleAt(h, GX(s1), GY(s1)) ELSE 0
      t == WrapPi(a1 - g.ang)
      d == DistXY(s0, s1)
  IN [g EXCEPT !.n = @ + 1, !.rate = r[1], !.rated = IF r[2] = 0 THEN 1 ELSE r[2], !.prate = r[1], !.pdist = IF r[2] = 0 THEN 1 ELSE r[2],
               !.tag = TagOf(ln),
               !.ok = good /\ On(h, GX(s1), GY(s1)) /\ Sgn(t) = Sgn(g.sweep),
               !.ang = a1, !.sweep = IF good THEN @ + t ELSE @, !.lo = Min2(@, Abs(t)), !.hi = Max2(@, Abs(t)),
               !.seg = Min2(@, d), !.big = Max2(@, d), !.zs = Append(@, << @[Len(@)][1] + d, s1.z >>)]

\* the moves of q certainly fit one arc, with a margin in every limit
Fits(q, x1, y1, px) ==
  LET r == Circle(q.h)[3]
      chord == Hypot(x1 - q.x0, y1 - q.y0)
      need == IF (Opt.mmseg \div 1000) * Opt.minseg > 12000000 THEN 1000000000 ELSE MulDiv(Opt.mmseg, Opt.minseg * 1000000, 6283185)
      L == q.zs[Len(q.zs)][1]
      dz == q.zs[Len(q.zs)][2] - q.z0
  IN /\ q.ok
     /\ Opt.half >= 10 * DELTA /\ Opt.tol >= 10000 /\ Opt.maxlen = 0
     /\ r >= 10000 /\ r <= Opt.maxr \div 2 /\ r <= 100000000
     /\ q.seg >= 5000 /\ q.hi <= 40265318 /\ q.hi <= 3 * q.lo
     /\ MulDiv(q.big, q.big, 8 * r) <= Opt.half \div 3
     /\ Abs(q.sweep) <= 671088640
     /\ Abs(q.sweep) >= PI27 \/ MulDiv(chord, chord, 8 * r) >= 8 * DELTA
     /\ Opt.minseg = 0 \/ Opt.mmseg = 0 \/ r >= need + (need \div 2)
     /\ \/ \A k \in DOMAIN q.zs : q.zs[k][2] = q.z0
        \/ /\ px <= 4
           /\ Abs(dz) <= L
           /\ \A k \in DOMAIN q.zs : Abs(q.z0 + Sgn(dz) * MulDiv(Abs(dz), q.zs[k][1], L) - q.zs[k][2]) <= (P10(5 - px) * 6) \div 10

Blank(ln) == ln.c = "" /\ ln.empty /\ ln.cs = ""

Collected(s0, s1, f1, ln, joined, first, px) ==
  IF Blank(ln) THEN g
  ELSE LET r == RateHere(s0, s1)
           pd == IF r[2] = 0 THEN 1 ELSE r[2]
           yes == g.on = "yes"
           plain == Plain(s0, s1, ln)
           goes == Goes(s0, s1)
           rate == RateIs(IF yes THEN g.rate ELSE g.prate, IF yes THEN g.rated ELSE g.pdist, r[1], r[2])
           kind == yes /\ Sgn(Cur(s1).er) = g.kind
           must == /\ yes /\ plain /\ Fitting(s0, s1, f1, ln) /\ kind /\ goes = "yes" /\ rate = "yes"
                   /\ g.h # 0 /\ g.h = Case.hint[i + 1] /\ Fits(Extend(s0, s1, ln), GX(s1), GY(s1), px)
           next == CASE first -> Begin(s0, s1, ln)
                     \* after an arc the move that ended it is tried afresh
                     [] ~first /\ g.n >= 2 ->
                          IF ~plain THEN Off(0, 1) ELSE IF goes = "yes" THEN Begin(s0, s1, ln) ELSE IF goes = "no" THEN Off(0, 1) ELSE Unsure
                     [] ~first /\ g.n < 2 /\ g.on = "?" ->
                          IF ln.c \in { "G0", "G1" } THEN Unsure ELSE Off(0, 1)
                     [] ~first /\ g.n = 1 /\ yes ->
                          IF ~plain \/ ~Fitting(s0, s1, f1, ln) \/ rate = "no" THEN Off(0, 1)
                          ELSE IF rate = "?" \/ goes = "?" THEN Unsure
                          ELSE IF goes = "no" THEN Off(0, 1)
                          ELSE IF ~kind THEN Off(r[1], pd)
                          ELSE Begin(s0, s1, ln)                            \* the collection slides
                     [] OTHER ->
                          IF ~plain \/ rate = "no" THEN Off(0, 1)
                          ELSE IF rate = "?" \/ goes = "?" THEN Unsure
                          ELSE IF goes = "no" THEN Off(0, 1) ELSE Begin(s0, s1, ln)
       IN IF joined THEN IF yes THEN [Extend(s0, s1, ln) EXCEPT !.nm = g.nm + IF must THEN 1 ELSE 0]
                         ELSE [Unsure EXCEPT !.n = 2, !.miss = g.miss, !.nm = g.nm]
          ELSE [next EXCEPT !.miss = g.miss \/ must, !.nm = g.nm]

CInit == Init /\ g = Off(0, 1) /\ F = InitialState(Cases[c].cfg)
CNext ==
  /\ Next
  /\ IF i' = i THEN UNCHANGED << g, F >>
     ELSE LET ln == Case.src[i + 1]
              f1 == ExecFull(Case.cfg, F, ln)
          IN /\ F' = f1
             /\ g' = Collected(S, S', f1, ln, w.on /\ w.n >= 1, w.on /\ w.n = 0, a'.px)
OK_W14 == ~g.miss
=============================================================================
