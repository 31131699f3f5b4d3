------------------------------ MODULE FileKind ------------------------------
(* C09: which files are accepted under which file description.  The header is  *)
(* scanned feature by feature as in the reader; Outcome is the declarative     *)
(* statement.  Results: "ok", "osm" (ordinary OSM file expected), "history",   *)
(* "std" (refused), "refuse" (several reasons to refuse: any of the errors).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Features, MaxLen, Gen, Fault
Known == {"OsmSchema-V0.6", "DenseNodes", "HistoricalInformation"}
Types == {"osm", "history", "change"}
Set(fs) == {fs[k] : k \in 1..Len(fs)}
Outcome(fs, typ) ==
    LET hist == "HistoricalInformation" \in Set(fs)
        unknown == Set(fs) \ Known # {}
        mismatch == (typ = "osm" /\ hist) \/ (typ = "history" /\ ~hist)
    IN CASE unknown /\ mismatch -> "refuse"
         [] unknown -> "std"
         [] ~unknown /\ mismatch -> typ
         [] OTHER -> "ok"

VARIABLES fs, typ, i, hist, phase, result
vars == <<fs, typ, i, hist, phase, result>>
Init == fs = <<>> /\ typ \in Types /\ i = 1 /\ hist = FALSE /\ phase = "header" /\ result = "-"
Announce == /\ phase = "header" /\ Len(fs) < MaxLen /\ \E f \in Features : fs' = Append(fs, f)
            /\ UNCHANGED <<typ, i, hist, phase, result>>
Open == /\ phase = "header" /\ phase' = "scan"
        /\ (Gen => PrintT("GEN " \o ToJson([fs |-> fs, typ |-> typ, out |-> Outcome(fs, typ)])))
        /\ UNCHANGED <<fs, typ, i, hist, result>>
Scan == /\ phase = "scan" /\ i <= Len(fs)
        /\ IF fs[i] \in Known
           THEN hist' = (IF "last" \in Fault THEN fs[i] = "HistoricalInformation" ELSE (hist \/ fs[i] = "HistoricalInformation")) /\ i' = i + 1 /\ UNCHANGED <<phase, result>>
           ELSE phase' = "done" /\ result' = "std" /\ UNCHANGED <<hist, i>>
        /\ UNCHANGED <<fs, typ>>
Decide == /\ phase = "scan" /\ i > Len(fs) /\ phase' = "done"
          /\ result' = (CASE typ = "osm" /\ hist -> "osm" [] typ = "history" /\ ~hist -> "history" [] OTHER -> "ok")
          /\ UNCHANGED <<fs, typ, i, hist>>
Next == Announce \/ Open \/ Scan \/ Decide
Spec == Init /\ [][Next]_vars
Right == phase = "done" => result = Outcome(fs, typ) \/ (Outcome(fs, typ) = "refuse" /\ result # "ok")
Bound == Gen => phase = "header"
=============================================================================
