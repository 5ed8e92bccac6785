---------------------------- MODULE StatsTrace -----------------------------
(* What the welder says about a run, compared with the run itself: while the *)
(* two files are executed (WelderTrace), the counters a report must show are *)
(* kept, and every recorded progress report is compared at the point of the  *)
(* source and of the target it speaks about.                                 *)
EXTENDS WelderTrace

VARIABLES st,     \* counters
          bad     \* broken properties

EDGES == << 200, 500, 1000, 5000, 10000, 50000, 100000, 500000, 1000000, 2000000, 5000000, 10000000 >>
NE == Len(EDGES)
\* a length is known up to a tolerance: lo and hi count the lengths certainly and possibly below each edge
NewClass == [ n |-> 0, sum |-> 0, tol |-> 0, lo |-> [k \in 1..NE |-> 0], hi |-> [k \in 1..NE |-> 0] ]
Count(cl, len, tol) ==
  [ n |-> cl.n + 1, sum |-> cl.sum + len, tol |-> cl.tol + tol,
    lo |-> [k \in 1..NE |-> cl.lo[k] + IF len + tol < EDGES[k] THEN 1 ELSE 0],
    hi |-> [k \in 1..NE |-> cl.hi[k] + IF len - tol < EDGES[k] THEN 1 ELSE 0] ]
Classes == { "ex", "re", "tr" }
NewSide == [k \in Classes |-> NewClass]
ClassOf(e) == IF e > 0 THEN "ex" ELSE IF e < 0 THEN "re" ELSE "tr"

Moves4 == { "G0", "G1", "G2", "G3" }
\* the length of a source line (<<length, tolerance>>)
ArcTravel(s0, s1, ln) ==
  LET I == IF Has(ln, "I") THEN ln.p.I ELSE 0
      J == IF Has(ln, "J") THEN ln.p.J ELSE 0
      r == Hypot(I, J)
      q == WrapPi(Atan2(s1.y - s0.y - J, s1.x - s0.x - I) - Atan2(-J, -I)) * (IF ln.c = "G2" THEN -1 ELSE 1)
      t == IF q < 0 THEN q + TWOPI27 ELSE q
  IN Hypot(ArcLen(r, t), s1.z - s0.z)
Travelled(s0, s1, ln) ==
  LET xy == Hypot(s1.x - s0.x, s1.y - s0.y)
      l == IF ln.c \in { "G2", "G3" } THEN ArcTravel(s0, s1, ln)
           ELSE IF Opt.d3 THEN Hypot(xy, s1.z - s0.z) ELSE xy
  IN << l, IF ln.c \in { "G2", "G3" } THEN 20 + (l \div 5000) ELSE 3 + (l \div 100000) >>

Note(side, s0, s1, ln) ==
  LET cl == ClassOf(Cur(s1).er)
      t == Travelled(s0, s1, ln)
  IN IF ln.c \notin Moves4 \/ ~s1.chxy \/ (cl = "tr" /\ ~Opt.travel) THEN side
     ELSE [side EXCEPT ![cl] = Count(@, t[1], t[2])]
\* an arc of the target
NoteArc(side, wi, z1) ==
  LET al2 == ArcLen(wi.r, Abs(wi.sweep))
      dz == IF Opt.d3 THEN z1 - wi.z0 ELSE 0
      known == ~wi.near /\ wi.r > 20 * Opt.half
      \* where the written circle is too coarse, the path it replaces stands in for its length
      len == IF known THEN Hypot(al2, dz) ELSE wi.len
      tol == IF known THEN 20 + 10 * Half(Opt.px) + (len \div 1000)
                      ELSE 20 + MulDiv(len, Opt.tol, IF Opt.tol > 900000 THEN 100000 ELSE 1000000 - Opt.tol) + (len \div 500)
      cl == ClassOf(wi.e)
  IN IF cl = "tr" /\ ~Opt.travel THEN side ELSE [side EXCEPT ![cl] = Count(@, len, tol)]

(* ------------------------------ reports -------------------------------- *)
Rep == Case.reports
NewStats == [ s |-> NewSide, t |-> NewSide, g |-> 0, blank |-> 0, arcs |-> 0, moves |-> 0 ]

RECURSIVE Below(_, _)
Below(h, k) == IF k = 0 THEN 0 ELSE h[k] + Below(h, k - 1)
ClassOk(cl, n, sum, h) ==
  /\ cl.n = n /\ Below(h, NE + 1) = n
  /\ Abs(cl.sum - sum) <= cl.tol + 10
  /\ \A k \in 1..NE : cl.lo[k] <= Below(h, k) /\ Below(h, k) <= cl.hi[k]
Both(x, y) == [ n |-> x.n + y.n, sum |-> x.sum + y.sum, tol |-> x.tol + y.tol,
                lo |-> [k \in 1..NE |-> x.lo[k] + y.lo[k]], hi |-> [k \in 1..NE |-> x.hi[k] + y.hi[k]] ]

SourceOk(v, r, n) ==
  /\ r.lines = n
  /\ r.gcodes >= v.g /\ r.gcodes <= v.g + v.blank   \* a line of blanks may count
  /\ r.pos = Case.srcEnd[n + 1] \/ (n = Len(Case.src) /\ r.pos = r.size)
  /\ r.size = Case.size
  /\ \A k \in Classes : ClassOk(v.s[k], r.st[k].cs, r.st[k].ls, r.st[k].s)
  /\ LET b == Both(v.s["ex"], v.s["re"]) IN ClassOk(b, r.st["both"].cs, r.st["both"].ls, r.st["both"].s)
TargetOk(v, r, n) ==
  /\ r.arcs = v.arcs /\ r.points = v.moves
  /\ \A k \in Classes : ClassOk(v.t[k], r.st[k].ct, r.st[k].lt, r.st[k].t)
  /\ LET b == Both(v.t["ex"], v.t["re"]) IN ClassOk(b, r.st["both"].ct, r.st["both"].lt, r.st["both"].t)
\* sizes, percentages and ratios
RatioOk(r) ==
  /\ r.size = 0 \/ Abs(r.pct - MulDiv(r.pos, 1000000, r.size)) <= 1
  /\ IF r.pos <= 0 \/ r.target <= 0 THEN TRUE
     ELSE /\ Abs(r.ratio - MulDiv(r.pos, 1000000, r.target)) <= 2 + (r.ratio \div 500000)
          /\ Abs((1000000 - r.cpct) - MulDiv(r.target, 1000000, r.pos)) <= 2 + ((1000000 - r.cpct) \div 500000)

\* the reports never go back
Ordered ==
  \A k \in 1..(Len(Rep) - 1) :
    LET p == Rep[k]  q == Rep[k + 1]
    IN /\ p.lines <= q.lines /\ p.gcodes <= q.gcodes /\ p.points <= q.points /\ p.arcs <= q.arcs
       /\ p.pos <= q.pos /\ p.target <= q.target /\ p.pct <= q.pct /\ p.size = q.size
       /\ p.fw <= q.fw /\ p.len <= q.len /\ p.aborted <= q.aborted
       /\ \A c2 \in Classes : p.st[c2].cs <= q.st[c2].cs /\ p.st[c2].ct <= q.st[c2].ct
\* every report speaks about a point of both files; the last two (the final report and the result) about their ends
Placed ==
  \A k \in 1..Len(Rep) :
    /\ Rep[k].lines \in 0..Len(Case.src)
    /\ Rep[k].target \in { Case.outEnd[q] : q \in 1..Len(Case.outEnd) } \cup { 0 }
Finished ==
  LET r == Rep[Len(Rep)]
  IN /\ Len(Rep) >= 3 /\ Rep[1].lines = 0 /\ Rep[1].target = 0
     /\ r.success /\ ~r.cancelled
     /\ r.lines = Len(Case.src) /\ r.pos = r.size /\ r.size = Case.size
     /\ r.target = Case.outEnd[Len(Case.outEnd)]
     /\ r.lines = 0 \/ r.pct = 1000000
\* the tables on the console say the same as the result: <<source, target, tenths of a percent>> per row, then the totals
INF == 999999999
ChangeOk(p, from, to) ==
  IF from = 0 THEN p = (IF to > 0 THEN INF ELSE 0)
  ELSE IF p = INF \/ Abs(p) > 1000000 THEN FALSE
  ELSE 2 * Abs(p * from - 1000 * (to - from)) <= from + 2
TableOk(T, cl) ==
  LET r == Rep[Len(Rep)].st[cl]
  IN T.rows = << >> \/ (/\ Len(T.rows) = NE + 1
                        /\ \A k \in 1..(NE + 1) : /\ T.rows[k][1] = r.s[k] /\ T.rows[k][2] = r.t[k]
                                                  /\ ChangeOk(T.rows[k][3], r.s[k], r.t[k])
                        /\ T.cs = r.cs /\ T.ct = r.ct /\ ChangeOk(T.pct, r.cs, r.ct)
                        /\ Abs(T.ls - r.ls) <= 152 /\ Abs(T.lt - r.lt) <= 152)
TablesOk ==
  LET r == Rep[Len(Rep)]
      tr == r.st["tr"]
  IN /\ TableOk(Case.table, "both")
     /\ Case.table.rows # << >>
     /\ \A k \in 1..Len(Case.ttable) : TableOk(Case.ttable[k], "tr") /\ Case.ttable[k].rows # << >>
     /\ (Opt.travel /\ tr.cs # tr.ct) => Case.ttable # << >>
     /\ Case.fin = << r.gcodes, r.lines, r.points, r.arcs >>

SInit == /\ Init
         /\ st = NewStats
         /\ bad = Err(Ordered, "W17order") \cup Err(Placed, "W17place") \cup Err(Finished, "W17end")
                  \cup Err(\A k \in 1..Len(Rep) : RatioOk(Rep[k]), "W17ratio")
                  \cup Err(TablesOk, "W17table")
                  \cup Err(\A k \in 1..Len(Rep) : Rep[k].lines # 0 \/ SourceOk(NewStats, Rep[k], 0), "W17source")
                  \cup Err(\A k \in 1..Len(Rep) : Rep[k].target \notin { 0, Case.outEnd[1] } \/ TargetOk(NewStats, Rep[k], 0), "W17target")

SNext ==
  /\ Next
  /\ LET ln == Case.src[i']
         v1 == IF i' = i THEN st
               ELSE [st EXCEPT !.s = Note(@, S, S', ln), !.g = @ + (IF ln.empty THEN 0 ELSE 1), !.blank = @ + (IF ln.empty /\ Case.bl[i'] THEN 1 ELSE 0)]
         v2 == IF j' = j THEN v1
               ELSE IF Step.op = "copy" THEN [v1 EXCEPT !.t = Note(@, S, S', ln)]
               ELSE IF Step.op = "arc" THEN [v1 EXCEPT !.t = NoteArc(@, w, S.z), !.arcs = @ + 1, !.moves = @ + w.n]
               ELSE v1
     IN /\ st' = v2
        /\ bad' = bad
             \cup Err(i' = i \/ \A k \in 1..Len(Rep) : Rep[k].lines # i' \/ SourceOk(v2, Rep[k], i'), "W17source")
             \cup Err(j' = j \/ \A k \in 1..Len(Rep) : Rep[k].target # Case.outEnd[j' + 1] \/ TargetOk(v2, Rep[k], j'), "W17target")
OK_W17 == bad = {}
=============================================================================
