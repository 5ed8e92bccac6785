---------------------------- MODULE HeaderTrace ----------------------------
(* The head of a welded file: a block of comment lines closed by a blank     *)
(* line which states the settings of the run, put before everything except a *)
(* first line that tells another program what the file is.                   *)
(* Settings are integers: lengths in 10^-5 mm, percentages in 10^-6.         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.VF_CASES)
VARIABLES c, bad
P10(k) == << 1, 10, 100, 1000, 10000, 100000, 1000000 >>[k + 1]
RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad("0" \o s, n)
\* the decimal texts of v * 10^-s with d < s decimals (two where the value is half way between them)
Text(q, d) == ToString(q \div P10(d)) \o (IF d = 0 THEN "" ELSE "." \o Pad(ToString(q % P10(d)), d))
Texts(v, s, d) ==
  LET u == P10(s - d)
      q == v \div u
      r == v % u
  IN IF 2 * r < u THEN { Text(q, d) } ELSE IF 2 * r > u THEN { Text(q + 1, d) } ELSE { Text(q, d), Text(q + 1, d) }
One(s) == { s }
Around(a, set, b) == { a \o x \o b : x \in set }
\* the lines of the header, each a set of allowed texts
Lines(o) ==
     << One("; Postprocessed by [ArcWelder](https://github.com/FormerLurker/ArcWelderLib)"), { }, { } >>
  \o << Around("; resolution=", Texts(o.r, 5, 2), "mm"),
        Around("; path_tolerance=", Texts(o.t, 4, 1), "%"),
        Around("; max_radius=", Texts(o.m, 5, 2), "mm") >>
  \o (IF o.g THEN << One("; g90_influences_extruder=True") >> ELSE << >>)
  \o (IF o.s > 0 /\ o.a > 0 THEN << One("; firmware_compensation=True"), Around("; mm_per_arc_segment=", Texts(o.s, 5, 2), "mm"),
                                    One("; min_arc_segments=" \o ToString(o.a)) >> ELSE << >>)
  \o (IF o.z THEN << One("; allow_3d_arcs=True") >> ELSE << >>)
  \o (IF o.y THEN << One("; allow_travel_arcs=True") >> ELSE << >>)
  \o (IF o.d THEN << One("; allow_dynamic_precision=True") >> ELSE << >>)
  \o << One("; default_xyz_precision=" \o ToString(o.x)), One("; default_e_precision=" \o ToString(o.e)) >>
  \o (IF o.v > 0 THEN << Around("; extrusion_rate_variance=", Texts(o.v, 4, 1), "%") >> ELSE << >>)
  \o << One("") >>
Recognised(l) == l.text = ";FLAVOR:UltiGCode" \/ l.start26 = "; generated by PrusaSlicer"
Good(k) ==
  LET keep == Recognised(k.first)
      h == Lines(k.o)
      at == IF keep THEN 1 ELSE 0
  IN /\ Len(k.out) >= at + Len(h)
     /\ keep => k.out[1] = k.first.full
     /\ \A q \in 1..Len(h) : h[q] = { } \/ k.out[at + q] \in h[q]
     /\ k.out[at + 2] = "; Copyright(C) 2021 - Brad Hochgesang"
     /\ k.version
     \* exactly one header, and the source follows it
     /\ k.heads = 1
     /\ k.next = k.second
Init == c \in 1..Len(Cases) /\ bad = ~Good(Cases[c])
Next == UNCHANGED << c, bad >>
OK_W16 == ~bad
=============================================================================
