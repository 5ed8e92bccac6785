--------------------------- MODULE FeaturesTrace ---------------------------
(* The library's comment processor in lock step with Features (G07): a case *)
(* is a sequence of comments on lines of their own (sec) and on commands.   *)
EXTENDS Features, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.VF_CASES)
VARIABLES c, i, f
vars == << c, i, f >>
Case == Cases[c]
Init == c \in 1..Len(Cases) /\ i = 0 /\ f = Nothing
Next == /\ i < Len(Case) /\ i' = i + 1 /\ c' = c
        /\ LET o == Case[i + 1] IN f' = IF o.sec THEN Announce(f, o.text, o.layer) ELSE Recognise(f, o.text)
OK_G07 == i > 0 =>
  LET o == Case[i] IN
  /\ o.type = TypeNumber[f.t]
  /\ ~o.sec => o.tag = FeatureOf(f, o.text)
\* once a slicer is recognised it stays, and an unrecognised comment changes nothing
LAWS == [][ /\ f.t # "unknown" => f'.t = f.t
            /\ Case[i + 1].text \notin DOMAIN Cura \cup DOMAIN S3D \cup DOMAIN Slic3r \cup DOMAIN OnCommand => (Case[i + 1].layer \/ f' = f) ]_vars
=============================================================================
