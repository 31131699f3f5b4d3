------------------------------- MODULE MCName -------------------------------
EXTENDS FileName, Json
CONSTANTS Words, MaxLen, Gen
VARIABLES step
Init == /\ step = 0 /\ name = <<>> /\ typ = "osm" /\ enc = "pbf"
Grow == /\ step = 0 /\ Len(name) < MaxLen /\ \E w \in Words : name' = Append(name, w)
        /\ (Gen => PrintT("GEN " \o ToJson(name'))) /\ UNCHANGED <<typ, enc, step>>
Make == step = 0 /\ ~Gen /\ New(name) /\ step' = 1
Change == /\ step \in {1, 2}
          /\ \/ \E x \in {"osm", "osh", "change", "pbf", ""} : SetType(x) \/ BadType(x)
             \/ \E x \in {"pbf", "xml", "gz", "xmlbz2", "osm"} : SetEnc(x) \/ BadEnc(x)
             \/ \E x \in {"osc.gz", "osh", "zip"} : SetSuffix(x)
          /\ step' = step + 1
Next == Grow \/ Make \/ Change
Spec == Init /\ [][Next]_<<fvars, step>>
Inv == step > 0 => MapsBack /\ KeepsBase
=============================================================================
