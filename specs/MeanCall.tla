------------------------------ MODULE MeanCall ------------------------------
(* Calls of Grid.mean: which are refused and what the others reduce.       *)
EXTENDS Integers, Sequences, TLC, Json
Axes == {"absent", "None", "0", "-2", "meridional", "1", "-1", "zonal", "2", "-3", "lat", "lon", "both", "0.5", "Zonal", ""}
Fields == {"full", "extracted", "transposed", "profile lat", "profile lon", "3d", "other"}
Regions == {"none", "part", "whole"}
VARIABLES axis, field, region
vars == <<axis, field, region>>
Init == axis \in Axes /\ field \in Fields /\ region \in Regions
Spec == Init /\ [][FALSE]_vars
Reduce == CASE axis \in {"absent", "None"} -> "both"
            [] axis \in {"0", "-2", "meridional"} -> "meridional"
            [] axis \in {"1", "-1", "zonal"} -> "zonal"
            [] OTHER -> "refused"
\* extracted: the shape of the region (which may be that of the grid)
FieldOk == field = "full" \/ (field = "extracted" /\ region # "none")
Outcome == IF FieldOk THEN Reduce ELSE "refused"
Where == IF region = "part" THEN "region" ELSE "globe"
Decided == Outcome \in {"both", "meridional", "zonal", "refused"}
Emit == PrintT("@@" \o ToJson([axis |-> axis, field |-> field, region |-> region, outcome |-> Outcome, where |-> Where]))
=============================================================================
