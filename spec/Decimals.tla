------------------------------ MODULE Decimals ------------------------------
(* Decimal numbers with six decimals: [neg, i, u], i the whole part (at     *)
(* most 2^30), u the millionths; and how they are shown with fewer.         *)
EXTENDS Integers, Sequences, TLC

D(i, u) == [ neg |-> FALSE, i |-> i, u |-> u ]
IsZero(a) == a.i = 0 /\ a.u = 0
Positive(a) == ~a.neg /\ ~IsZero(a)
Negative(a) == a.neg /\ ~IsZero(a)
Less(a, b) == IF Negative(a) # Negative(b) THEN Negative(a)
              ELSE LET l == a.i < b.i \/ (a.i = b.i /\ a.u < b.u)
                       e == a.i = b.i /\ a.u = b.u
                   IN IF Negative(a) THEN ~l /\ ~e ELSE l
Same(a, b) == ~Less(a, b) /\ ~Less(b, a)
Half(a) == [ a EXCEPT !.i = a.i \div 2, !.u = ((a.i % 2) * 1000000 + a.u) \div 2 ]
\* half a millionth that Half drops
HalfUp(a) == [ a EXCEPT !.i = a.i \div 2, !.u = ((a.i % 2) * 1000000 + a.u + 1) \div 2 ]
Percent(a) == [ a EXCEPT !.i = a.i * 100 + a.u \div 10000, !.u = (a.u % 10000) * 100 ]

P10(k) == << 1, 10, 100, 1000, 10000, 100000, 1000000 >>[k + 1]
RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad("0" \o s, n)
Text(i, q, d) == LET n == i + q \div P10(d) IN ToString(n) \o (IF d = 0 THEN "" ELSE "." \o Pad(ToString(q % P10(d)), d))
\* the texts with d decimals (two where the value is half way between them)
Texts(a, d) == LET w == P10(6 - d)  q == a.u \div w  r == a.u % w
               IN IF 2 * r < w THEN { Text(a.i, q, d) } ELSE IF 2 * r > w THEN { Text(a.i, q + 1, d) } ELSE { Text(a.i, q, d), Text(a.i, q + 1, d) }
=============================================================================
