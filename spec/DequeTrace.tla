---------------------------- MODULE DequeTrace ----------------------------
(* The containers as double-ended sequences (D01).  kind "array" grows, is  *)
(* of fixed size "fixed" (a push into a full one is refused), and "ring"    *)
(* forgets the item at the other end when it is full.                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.VF_CASES)
VARIABLES c, i, q, max, omax, thrown, got
vars == << c, i, q, max, omax, thrown, got >>
Case == Cases[c]
Init == /\ c \in 1..Len(Cases) /\ i = 0 /\ q = << >> /\ thrown = FALSE /\ got = -1
        /\ max = Cases[c].max /\ omax = Cases[c].max
Full == Len(q) = max
Front(s) == SubSeq(s, 1, Len(s) - 1)
Push(o) ==
  /\ got' = -1 /\ omax' = omax
  /\ LET room == IF o.op = "pushf" THEN << o.v >> \o q ELSE Append(q, o.v)
         over == IF o.op = "pushf" THEN << o.v >> \o Front(q) ELSE Append(Tail(q), o.v)
     IN CASE ~Full -> q' = room /\ max' = max /\ thrown' = FALSE
          [] Full /\ Case.kind = "array" -> q' = room /\ max' = 2 * max /\ thrown' = FALSE
          [] Full /\ Case.kind = "fixed" -> q' = q /\ max' = max /\ thrown' = TRUE
          [] OTHER -> q' = over /\ max' = max /\ thrown' = FALSE
Pop(o) ==
  /\ UNCHANGED << max, omax >>
  /\ IF q = << >> THEN q' = q /\ thrown' = TRUE /\ got' = -1
     ELSE IF o.op = "popf" THEN q' = Tail(q) /\ thrown' = FALSE /\ got' = q[1]
     ELSE q' = Front(q) /\ thrown' = FALSE /\ got' = q[Len(q)]
Next == /\ i < Len(Case.ops) /\ i' = i + 1 /\ c' = c
        /\ LET o == Case.ops[i + 1] IN
           CASE o.op \in { "pushf", "pushb" } -> Push(o)
             [] o.op \in { "popf", "popb" } -> Pop(o)
             [] o.op = "clear" -> q' = << >> /\ thrown' = FALSE /\ got' = -1 /\ UNCHANGED << max, omax >>
             [] o.op = "resize" -> q' = q /\ max' = o.v /\ thrown' = FALSE /\ got' = -1 /\ UNCHANGED omax
             \* another container of the same kind takes the content over
             [] o.op = "copy" -> q' = q /\ max' = (IF omax < max THEN max ELSE omax) /\ omax' = max /\ thrown' = FALSE /\ got' = -1
Op == Case.ops[i]
OK_D01 == i > 0 =>
  /\ Op.n = Len(q) /\ Op.items = q /\ Op.got = got /\ Op.thrown = thrown /\ Op.max = max
LAWS == Len(q) <= max
=============================================================================
