----------------------------- MODULE ParserTrace -----------------------------
(* Recorded results of the real parser against Parser (G01).  Cases are in  *)
(* blocks; a case holds a line, whether the format was preserved, and what  *)
(* the parser returned for it.  The laws of G01 about letter case and blanks*)
(* are checked on the specification itself, on every one of the lines.      *)
EXTENDS Parser, TLC, Json, IOUtils
Blocks == JsonDeserialize(IOEnv.VF_CASES)
VARIABLES c, i
vars == << c, i >>
Init == c \in 1..Len(Blocks) /\ i = 1
Next == i < Len(Blocks[c]) /\ i' = i + 1 /\ c' = c
Case == Blocks[c][i]
Same(want, got) ==
  /\ want.k = got.k /\ got.r = got.k
  /\ want.e = got.e
  /\ want.c = got.c
  /\ want.g = got.g
  /\ want.m = got.m
  /\ Len(want.p) = Len(got.p)
  /\ \A k \in DOMAIN want.p :
       /\ want.p[k].n = got.p[k].n /\ want.p[k].t = got.p[k].t /\ want.p[k].v = got.p[k].v
       /\ want.p[k].q = got.p[k].q /\ want.p[k].neg = got.p[k].neg /\ want.p[k].s = got.p[k].s /\ got.p[k].x
OK_G01 == Same(Parse(Case.l, Case.pf), Case.r)

(* ---------------- laws of the specification itself --------------------- *)
Kernel(pr) == [ k |-> pr.k, e |-> pr.e, c |-> pr.c, p |-> [ j \in DOMAIN pr.p |-> [ pr.p[j] EXCEPT !.s = UpAll(SelectSeq(@, LAMBDA ch : ch # SP)) ] ] ]
LowAll(l) == [ k \in DOMAIN l |-> IF l[k] >= 65 /\ l[k] <= 90 THEN l[k] + 32 ELSE l[k] ]
CaseLaw == LET b == Body(Case.l) IN Kernel(Parse(LowAll(b), TRUE)) = Kernel(Parse(UpAll(b), TRUE))
\* another blank next to a blank, and a blank in front of the line, changes nothing
Widen(b, q) == SubSeq(b, 1, q) \o << SP >> \o SubSeq(b, q + 1, Len(b))
BlankLaw ==
  LET b == Body(Case.l) IN
  (Len(b) <= 12 /\ At(b, Skip(b, 1)) # AT) => \A q \in 0..Len(b) :
    (q = 0 \/ At(b, q) = SP) => Kernel(Parse(Widen(b, q), TRUE)) = Kernel(Parse(b, TRUE))
\* a comment never changes what stands before it
CommentLaw == LET w == Parse(Case.l, TRUE)  v == Parse(Body(Case.l), TRUE)
              IN w.k = v.k /\ w.e = v.e /\ w.c = v.c /\ w.p = v.p /\ w.g = v.g
LAWS == CaseLaw /\ BlankLaw /\ CommentLaw
=============================================================================
