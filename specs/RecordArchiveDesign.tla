------------------------ MODULE RecordArchiveDesign ------------------------
EXTENDS RecordArchive, TLC, Json
CONSTANTS MaxChanged, Variants, EmitAt
VARIABLES rec, arch, back, n
Base == [f \in FieldSet |-> 0]
NoArch == [version |-> -1]
NoRec == <<>>
Init == rec = Base /\ arch = NoArch /\ back = NoRec /\ n = 0
AsSeq(r) == [k \in 1 .. Len(Fields) |-> r[Fields[k]]]
Change == /\ n < MaxChanged /\ arch.version = -1
          /\ \E f \in FieldSet, v \in Variants : rec[f] = 0 /\ rec' = [rec EXCEPT ![f] = v]
          /\ n' = n + 1 /\ UNCHANGED <<arch, back>>
          /\ (IF n' = EmitAt THEN PrintT(<<"EMIT", ToJson(AsSeq(rec'))>>) ELSE TRUE)
Save == /\ EmitAt = 99 /\ arch.version = -1 /\ arch' \in {SaveV0(rec), SaveV1(rec)} /\ UNCHANGED <<rec, back, n>>
Reload == /\ arch.version # -1 /\ back = NoRec /\ back' = Load(arch) /\ UNCHANGED <<rec, arch, n>>
Next == Change \/ Save \/ Reload
Faithful == back # NoRec =>
    /\ (arch.version = 1 => back = rec)
    /\ (arch.version = 0 => \A f \in FieldSet : back[f] = IF f \in TimeFields THEN Default ELSE rec[f])
=============================================================================
