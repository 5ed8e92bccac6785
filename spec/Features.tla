------------------------------ MODULE Features ------------------------------
(* Feature types announced by slicer comments (G07).  `t` is the slicer     *)
(* recognised so far and `sec` the section announced ("" for none).         *)
EXTENDS Integers, Sequences
FeatureNumber == [ unknown |-> 0, bridge |-> 1, outer |-> 2, perimeter |-> 3, inner |-> 4, skirt |-> 5,
                   gap |-> 6, solid |-> 7, ooze |-> 8, infill |-> 9, pillar |-> 10 ]
Cura == [ k \in { "TYPE:WALL-OUTER", "TYPE:WALL-INNER", "TYPE:FILL", "TYPE:SKIN", "TYPE:SKIRT" } |->
           CASE k = "TYPE:WALL-OUTER" -> "outer" [] k = "TYPE:WALL-INNER" -> "inner" [] k = "TYPE:FILL" -> "infill"
             [] k = "TYPE:SKIN" -> "solid" [] k = "TYPE:SKIRT" -> "skirt" ]
S3DWords == [ k \in { "outer perimeter", "inner perimeter", "infill", "solid layer", "skirt", "ooze shield", "prime pillar", "gap fill" } |->
           CASE k = "outer perimeter" -> "outer" [] k = "inner perimeter" -> "inner" [] k = "infill" -> "infill" [] k = "solid layer" -> "solid"
             [] k = "skirt" -> "skirt" [] k = "ooze shield" -> "ooze" [] k = "prime pillar" -> "pillar" [] k = "gap fill" -> "gap" ]
S3D == [ k \in DOMAIN S3DWords \cup { "feature " \o w : w \in DOMAIN S3DWords } |->
           IF k \in DOMAIN S3DWords THEN S3DWords[k] ELSE LET w == CHOOSE w \in DOMAIN S3DWords : k = "feature " \o w IN S3DWords[w] ]
Slic3r == [ k \in { "CP TOOLCHANGE WIPE", "CP TOOLCHANGE END" } |-> IF k = "CP TOOLCHANGE WIPE" THEN "pillar" ELSE "" ]
OnCommand == [ k \in { "perimeter", "move to first perimeter point", "infill", "move to first infill point",
                       "infill(bridge)", "move to first infill(bridge) point", "skirt", "move to first skirt point" } |->
           CASE k \in { "perimeter", "move to first perimeter point" } -> "perimeter"
             [] k \in { "infill", "move to first infill point" } -> "infill"
             [] k \in { "infill(bridge)", "move to first infill(bridge) point" } -> "bridge"
             [] OTHER -> "skirt" ]
Nothing == [ t |-> "unknown", sec |-> "" ]
\* a layer comment ends the section (layer: the comment starts with "LAYER:")
Announce(f, text, layer) ==
  CASE f.t \in { "unknown", "cura" } /\ text \in DOMAIN Cura -> [ t |-> "cura", sec |-> Cura[text] ]
    [] f.t = "cura" /\ layer -> [ f EXCEPT !.sec = "" ]
    [] f.t \in { "unknown", "s3d" } /\ text \in DOMAIN S3D -> [ t |-> "s3d", sec |-> S3D[text] ]
    [] f.t \in { "unknown", "slic3r" } /\ text \in DOMAIN Slic3r -> [ t |-> "slic3r", sec |-> Slic3r[text] ]
    [] OTHER -> f
\* the slicer recognised by, and the feature of, a command with a comment
Recognise(f, text) == IF f.t = "unknown" /\ f.sec = "" /\ text \in DOMAIN OnCommand THEN [ f EXCEPT !.t = "slic3r" ] ELSE f
FeatureOf(f, text) ==
  FeatureNumber[ IF f.sec # "" THEN f.sec
                 ELSE IF f.t \in { "unknown", "slic3r" } /\ text \in DOMAIN OnCommand THEN OnCommand[text] ELSE "unknown" ]
TypeNumber == [ off |-> 0, unknown |-> 1, slic3r |-> 2, cura |-> 3, s3d |-> 4 ]
=============================================================================
