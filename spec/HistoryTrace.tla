---------------------------- MODULE HistoryTrace ----------------------------
(* The history of tracked states (G06).  The ideal history is the whole     *)
(* sequence of states, latest first; the tracker holds the latest `max` of  *)
(* it, and `d` of those are still there after undos.  States are identified *)
(* by a digest of everything they contain.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.VF_CASES)
VARIABLES c, i,
          s,      \* the ideal history, latest first, without the initial state
          d,      \* how many of the latest states the tracker still holds
          cnt,    \* how many updates the tracker can undo
          max,    \* its capacity
          memo    \* what each update did: << state, line, new state >>
vars == << c, i, s, d, cnt, max, memo >>
Case == Cases[c]
Op == Case.ops[i]
Init == /\ c \in 1..Len(Cases) /\ i = 0 /\ s = << >> /\ cnt = 0 /\ memo = {}
        /\ max = Cases[c].max /\ d = Cases[c].max
State(q, k) == IF k <= Len(q) THEN q[k] ELSE Case.id0      \* the k-th latest state; beneath all updates lies the initial one
Min(a, b) == IF a <= b THEN a ELSE b
Drop(q, k) == SubSeq(q, k + 1, Len(q))

Update(o) == /\ s' = << o.id >> \o s /\ d' = Min(max, d + 1) /\ cnt' = Min(max, cnt + 1) /\ max' = max
             /\ memo' = IF d >= 1 THEN memo \cup { << State(s, 1), o.line, o.id >> } ELSE memo
Undo(k) == /\ k <= cnt /\ s' = Drop(s, k) /\ d' = d - k /\ cnt' = cnt - k /\ UNCHANGED << max, memo >>
\* a larger history keeps what can be undone; beneath it are initial states again
Grow(k) == /\ max' = IF k > max THEN k ELSE max
           /\ d' = IF k < max THEN d ELSE IF cnt = Len(s) THEN max' ELSE cnt
           /\ UNCHANGED << s, cnt, memo >>
Next == /\ i < Len(Case.ops) /\ i' = i + 1 /\ c' = c
        /\ LET o == Case.ops[i + 1] IN
           CASE o.op = "line" -> Update(o)
             [] o.op = "undo" -> Undo(1)
             [] o.op = "undon" -> Undo(o.k)
             [] o.op = "grow" -> Grow(o.k)

OK_G06 == i > 0 =>
  /\ d >= 1 => Op.id = State(s, 1) /\ Op.cid = State(s, 1)
  /\ d >= 2 => Op.pid = State(s, 2) /\ Op.cpid = State(s, 2)
  /\ Op.n = cnt /\ Op.max = max
  \* the same command on the same state gives the same state
  /\ \A a, b \in memo : (a[1] = b[1] /\ a[2] = b[2]) => a[3] = b[3]
LAWS == d >= cnt /\ d <= max /\ cnt <= Len(s)
=============================================================================
