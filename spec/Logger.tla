------------------------------- MODULE Logger -------------------------------
(* The log levels (L01).                                                    *)
EXTENDS Integers, Sequences
Names == << "NOSET", "VERBOSE", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL" >>
Values == << 0, 5, 10, 20, 30, 40, 50 >>
LevelOf(v) == IF \E k \in 1..7 : Values[k] = v THEN (CHOOSE k \in 1..7 : Values[k] = v) - 1 ELSE 0
Enabled(set, level) == level >= set
\* what is printed for a message: nothing, or one line
Printed(set, name, level, text) == IF Enabled(set, level) THEN " - " \o name \o " - " \o Names[level + 1] \o " - " \o text ELSE ""
=============================================================================
