------------------------------- MODULE Parser -------------------------------
(* What a line of gcode means (G01): how it is split into its command, its  *)
(* parameters and its comment.  A line is a sequence of character codes.    *)
EXTENDS Integers, Sequences

SP == 32  TAB == 9  SEMI == 59  DOT == 46  MINUS == 45  PLUS == 43  AT == 64  QUEST == 63
LG == 71  LM == 77  LT == 84  LC == 67  LX == 88
Digit(ch) == ch >= 48 /\ ch <= 57
Lower(ch) == ch >= 97 /\ ch <= 122
Letter(ch) == Lower(ch) \/ (ch >= 65 /\ ch <= 90)
Up(ch) == IF Lower(ch) THEN ch - 32 ELSE ch
UpAll(l) == [k \in DOMAIN l |-> Up(l[k])]
At(l, p) == IF p <= Len(l) THEN l[p] ELSE 0          \* 0: the end of the line

RECURSIVE IndexOf(_, _, _)
IndexOf(l, ch, p) == IF p > Len(l) THEN Len(l) + 1 ELSE IF l[p] = ch THEN p ELSE IndexOf(l, ch, p + 1)
Body(l) == SubSeq(l, 1, IndexOf(l, SEMI, 1) - 1)
CommentOf(l) == SelectSeq(SubSeq(l, IndexOf(l, SEMI, 1) + 1, Len(l)), LAMBDA ch : ch # 13 /\ ch # 10)

RECURSIVE SkipTabs(_, _)
SkipTabs(l, p) == IF At(l, p) \in { SP, TAB } THEN SkipTabs(l, p + 1) ELSE p
RECURSIVE Skip(_, _)
Skip(l, p) == IF At(l, p) = SP THEN Skip(l, p + 1) ELSE p
\* the digits from p on, up to the first character that is none; blanks are skipped if inside
RECURSIVE Digits(_, _, _, _)
Digits(l, p, inside, acc) ==
  IF Digit(At(l, p)) THEN Digits(l, p + 1, inside, Append(acc, l[p]))
  ELSE IF inside /\ At(l, p) = SP THEN Digits(l, p + 1, inside, acc)
  ELSE << acc, p >>
RECURSIVE Word(_, _, _)
Word(l, p, acc) == IF At(l, p) \in { 0, SP } THEN << acc, p >> ELSE Word(l, p + 1, Append(acc, Up(l[p])))

(* ------------------------------ the command ---------------------------- *)
\* << known, command, where the parameters start >>;  b is the line up to its comment
NoCommand == << FALSE, << >>, 1 >>
Numbered(b, p) ==
  LET d == Digits(b, Skip(b, p + 1), FALSE, << >>)          \* a blank ends the number of a command
      q == Skip(b, d[2])
      frac == At(b, q) = DOT
      f == Digits(b, q + 1, TRUE, << >>)
  IN IF frac THEN << Len(f[1]) > 0, << Up(b[p]) >> \o d[1] \o << DOT >> \o f[1], f[2] >>
     ELSE << Len(d[1]) > 0, << Up(b[p]) >> \o d[1], q >>
Tool(b, p) ==
  LET q == SkipTabs(b, p + 1)  ch == Up(At(b, q))
  IN << IF ch \in { LC, LX, QUEST } THEN At(b, SkipTabs(b, q + 1)) = 0 ELSE Digit(ch), << LT >>, p + 1 >>
Command(b) ==
  LET p == Skip(b, 1)  ch == Up(At(b, p))
      r == IF ch = AT THEN LET w == Word(b, p, << >>) IN << TRUE, w[1], w[2] >>
           ELSE IF ch \in { LG, LM } THEN Numbered(b, p)
           ELSE IF ch = LT THEN Tool(b, p)
           ELSE NoCommand
  IN IF r[1] THEN r ELSE NoCommand

(* ----------------------------- parameters ------------------------------ *)
Decimal(n) == IF n < 10 THEN << 48 + n >> ELSE IF n < 100 THEN << 48 + (n \div 10), 48 + (n % 10) >>
              ELSE << 48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10) >>
WithParameters ==
  { << LG >> \o Decimal(n) : n \in { 0, 1, 2, 3, 10, 11, 20, 21, 28, 29, 80, 90, 91, 92 } }
  \cup { << LM >> \o Decimal(n) : n \in { 82, 83, 104, 105, 106, 109, 114, 116, 140, 141, 190, 191, 207, 208, 218, 240, 400, 563 } }
  \cup { << LT >> }
Octolapse == << 64, 79, 67, 84, 79, 76, 65, 80, 83, 69 >>
TextCommand == << 77, 49, 49, 55 >>              \* M117
KN == << 78 >>  KF == << 70 >>  KS == << 83 >>  KU == << 85 >>          \* kinds: none, number, text, whole number

Parm(name, kind, v, q, neg, s) == [ n |-> name, t |-> kind, v |-> v, q |-> q, neg |-> neg, s |-> s ]
RECURSIVE NoZeros(_)
NoZeros(d) == IF Len(d) > 0 /\ d[1] = 48 THEN NoZeros(Tail(d)) ELSE d
Whole(d) == LET n == NoZeros(d) IN IF Len(n) = 0 THEN << 48 >> ELSE n
Zero(d) == \A k \in DOMAIN d : d[k] = 48

\* << found, negative, digits before the point, digits after it, next >>
Number(b, p) ==
  LET s0 == Skip(b, p)
      signed == At(b, s0) \in { MINUS, PLUS }
      i == Digits(b, IF signed THEN Skip(b, s0 + 1) ELSE s0, TRUE, << >>)
      point == At(b, i[2]) = DOT
      f == Digits(b, i[2] + 1, TRUE, << >>)
      fr == IF point THEN f[1] ELSE << >>
  IN << Len(i[1]) + Len(fr) > 0, At(b, s0) = MINUS, i[1], fr, IF point THEN f[2] ELSE i[2] >>

RECURSIVE Params(_, _, _)
Params(b, p0, acc) ==
  LET p == Skip(b, p0)
      n == Number(b, p + 1)
      name == << Up(At(b, p)) >>
  IN IF ~Letter(At(b, p)) THEN acc
     ELSE IF n[1]
     THEN Params(b, n[5], Append(acc, Parm(name, KF, Whole(n[3]) \o (IF Len(n[4]) = 0 THEN << >> ELSE << DOT >> \o n[4]), Len(n[4]),
                                           n[2] /\ ~(Zero(n[3]) /\ Zero(n[4])), << >>)))
     ELSE Append(acc, Parm(name, KS, << >>, 0, FALSE, SubSeq(b, Skip(b, p + 1), Len(b))))     \* the rest is its text

ToolParam(b, p0) ==
  LET p == Skip(b, p0)
  IN IF Up(At(b, p)) \in { LC, LX, QUEST } THEN << Parm(<< LT >>, KS, << >>, 0, FALSE, << Up(b[p]) >>) >>
     ELSE IF ~Digit(At(b, p)) THEN << >>
     ELSE << Parm(<< LT >>, KU, Whole(Digits(b, p, TRUE, << >>)[1]), 0, FALSE, << >>) >>
OctoParams(b, p0) ==
  LET w == Word(b, Skip(b, p0), << >>)
  IN IF Len(w[1]) = 0 THEN << >> ELSE Params(b, w[2], << Parm(w[1], KN, << >>, 0, FALSE, << >>) >>)

ParamsOf(b, cmd) ==
  IF ~cmd[1] THEN << >>
  ELSE IF cmd[2] = Octolapse THEN OctoParams(b, cmd[3])
  ELSE IF cmd[2] \notin WithParameters THEN << >>
  ELSE IF cmd[2] = << LT >> THEN ToolParam(b, cmd[3])
  ELSE Params(b, cmd[3], << >>)

(* ------------------------- the stored text ----------------------------- *)
Blankish(ch) == ch <= 32
RECURSIVE LTrim(_)
LTrim(s) == IF Len(s) > 0 /\ Blankish(s[1]) THEN LTrim(Tail(s)) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF Len(s) > 0 /\ Blankish(s[Len(s)]) THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Stored(b, cmd, preserve) ==
  IF preserve THEN b
  ELSE LET t == RTrim(LTrim(SelectSeq(b, LAMBDA ch : ch >= 32)))       \* control characters are left out
       IN IF cmd[1] /\ cmd[2] = TextCommand THEN t ELSE UpAll(t)

Empty(b) == \A k \in DOMAIN b : Blankish(b[k])

Parse(line, preserve) ==
  LET b == Body(line)
      cmd == Command(b)
  IN [ k |-> cmd[1], e |-> ~cmd[1] /\ Empty(b), c |-> cmd[2], g |-> Stored(b, cmd, preserve),
       m |-> CommentOf(line), p |-> ParamsOf(b, cmd) ]
=============================================================================
