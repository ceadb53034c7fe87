--------------------------- MODULE RecordArchive ---------------------------
(* Event records and their archives.  A record maps each field to a value      *)
(* (here: the number of the variant the driver stores in it); an archive of    *)
(* format version 1 holds every field, one of version 0 holds all but times.   *)
EXTENDS Integers, Sequences, FiniteSets
Fields == <<"primary_type", "target_type", "secondary_types", "primary_id", "primary_initial_position", "primary_initial_time",
            "primary_mass", "primary_momentum", "primary_helicity", "target_id", "target_mass", "target_helicity",
            "interaction_vertex", "interaction_time", "secondary_ids", "secondary_masses", "secondary_momenta",
            "secondary_helicities", "secondary_times", "interaction_parameters">>
FieldSet == {Fields[k] : k \in 1 .. Len(Fields)}
TimeFields == {"primary_initial_time", "interaction_time", "secondary_times"}
Default == -1
SaveV1(r) == [version |-> 1, data |-> r]
SaveV0(r) == [version |-> 0, data |-> [f \in FieldSet \ TimeFields |-> r[f]]]
\* loading replaces everything the target held
Load(a) == [f \in FieldSet |-> IF f \in DOMAIN a.data THEN a.data[f] ELSE Default]
=============================================================================
