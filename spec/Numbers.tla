------------------------------- MODULE Numbers ------------------------------
(* How numbers are written: x, given by its decimal digits, with p decimals *)
(* is the integer nearest to |x| * 10^p with a point before its last p      *)
(* digits.  Works on sequences of digits, so that size does not matter.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.VF_CASES)
N == Len(Cases)
VARIABLES c, i, bad
vars == << c, i, bad >>

\* |x| = 0.d1 d2 ... dn * 10^e
Digit(d, k) == IF k \in DOMAIN d THEN d[k] ELSE 0
\* the digits before the cut, the cut being after place n (n may be negative)
Kept(d, n) == [ k \in 1..(IF n < 0 THEN 0 ELSE n) |-> Digit(d, k) ]
AllZero(d, from) == \A k \in DOMAIN d : k >= from => d[k] = 0
\* adding one in the last place
RECURSIVE Carry(_, _)
Carry(d, k) == IF k = 0 THEN << 1 >> \o d
               ELSE IF d[k] = 9 THEN Carry([d EXCEPT ![k] = 0], k - 1) ELSE [d EXCEPT ![k] = @ + 1]
RECURSIVE Bare(_)
Bare(d) == IF d = << >> THEN d ELSE IF Head(d) = 0 THEN Bare(Tail(d)) ELSE d
\* the integers that may be written: two when x is half way between them
Nearest(d, e, p) ==
  LET n == e + p
      down == Kept(d, n)
      up == Carry(down, Len(down))
      next == IF n < 0 THEN 0 ELSE Digit(d, n + 1)
      half == n >= 0 /\ next = 5 /\ AllZero(d, n + 2)
  IN { Bare(v) : v \in IF half THEN { down, up } ELSE IF next >= 5 THEN { up } ELSE { down } }
Padded(v, w) == [ k \in 1..(IF Len(v) > w THEN Len(v) ELSE w) |-> IF k <= (IF Len(v) > w THEN 0 ELSE w - Len(v)) THEN 0 ELSE v[k - (IF Len(v) > w THEN 0 ELSE w - Len(v))] ]
POINT == 10
MINUS == 11
Text(v, p) == LET w == Padded(v, p + 1) IN IF p = 0 THEN w ELSE SubSeq(w, 1, Len(w) - p) \o << POINT >> \o SubSeq(w, Len(w) - p + 1, Len(w))
\* zero may be written as a bare 0, and the sign of a zero may be kept or dropped
Texts(o) == LET ns == Nearest(o.d, o.e, o.p)
                ts == { Text(v, o.p) : v \in ns } \cup (IF AllZero(o.d, 1) THEN { << 0 >> } ELSE {})
                zero == << >> \in ns
            IN (IF o.neg THEN { << MINUS >> \o t : t \in ts } ELSE ts) \cup (IF zero THEN ts \cup { << MINUS >> \o t : t \in ts } ELSE {})

(* Beyond 15 digits the digits of a double are not those of the number it   *)
(* was made from: only the size and the leading digits are compared then.   *)
RECURSIVE Lead(_, _, _)
Lead(d, k, n) == IF k > n THEN 0 ELSE Digit(d, k) * 10 ^ (n - k) + Lead(d, k + 1, n)
Roughly(o) ==
  LET t == IF o.neg THEN Tail(o.out) ELSE o.out
      whole == SelectSeq(t, LAMBDA x : x # POINT)
  IN /\ Len(o.out) > 1 /\ (o.neg <=> o.out[1] = MINUS)
     /\ Len(whole) = o.e + o.p
     /\ o.p > 0 => Len(t) > o.e /\ t[o.e + 1] = POINT
     /\ \A k \in DOMAIN whole : whole[k] \in 0..9
     /\ Lead(whole, 1, 9) - Lead(o.d, 1, 9) \in { -1, 0, 1 }
Right(o) == IF o.e + o.p > 15 THEN Roughly(o) ELSE o.out \in Texts(o)

Init == c \in 1..N /\ i = 0 /\ bad = FALSE
Next == /\ i < Len(Cases[c]) /\ i' = i + 1
        /\ bad' = ~Right(Cases[c][i + 1])
        /\ UNCHANGED c
OK_N01 == ~bad

(* what the specification itself has to satisfy *)
ASSUME /\ Nearest(<< 1, 2, 5 >>, 1, 1) = { << 1, 2 >>, << 1, 3 >> }
       /\ Nearest(<< 9, 9, 9, 6 >>, 0, 3) = { << 1, 0, 0, 0 >> }
       /\ Nearest(<< 4 >>, -8, 3) = { << >> }
       /\ Text(<< 1, 0, 0, 0 >>, 3) = << 1, 10, 0, 0, 0 >>
       /\ Text(<< >>, 2) = << 0, 10, 0, 0 >>
       /\ \A a \in 0..9, b \in 0..9, p \in 0..2 : \A v \in Nearest(<< a, b >>, 1, p) : Len(v) <= p + 2
=============================================================================
