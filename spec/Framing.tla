------------------------------ MODULE Framing -------------------------------
(* C08: reading a framed file that may end at any byte, directly or through a  *)
(* decompression/download child.  Reads return any positive number of bytes    *)
(* that is available; a failing read always closes the input and reaps the     *)
(* child.  Units are size field, header and data of a blob.                    *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxBlobs, SizeLen, HdrLen, DataLen, Fault
VARIABLES cut, src, childOk, pos, stage, got, delivered, fd, child, phase, result
vars == <<cut, src, childOk, pos, stage, got, delivered, fd, child, phase, result>>
BlobLen == SizeLen + HdrLen + DataLen
Need == CASE stage = "size" -> SizeLen [] stage = "hdr" -> HdrLen [] stage = "data" -> DataLen
Init == /\ cut \in 0..(MaxBlobs * BlobLen) /\ src \in {"file", "child"} /\ childOk \in BOOLEAN
        /\ src = "file" => childOk
        /\ pos = 0 /\ stage = "size" /\ got = 0 /\ delivered = 0
        /\ fd = TRUE /\ child = (IF src = "child" THEN "running" ELSE "none")
        /\ phase = "reading" /\ result = "-"
ReadSome == /\ phase = "reading" /\ pos < cut
            /\ \E n \in 1..(Need - got) : /\ n <= cut - pos
                  /\ pos' = pos + n
                  /\ IF got + n < Need THEN got' = got + n /\ UNCHANGED <<stage, delivered>>
                     ELSE /\ got' = 0
                          /\ stage' = (CASE stage = "size" -> "hdr" [] stage = "hdr" -> "data" [] OTHER -> "size")
                          /\ delivered' = IF stage = "data" THEN delivered + 1 ELSE delivered
            /\ UNCHANGED <<cut, src, childOk, fd, child, phase, result>>
(* the read returns 0: all was read, and a child has closed its end *)
Eof == /\ phase = "reading" /\ pos = cut
       /\ phase' = (IF stage = "size" /\ (got = 0 \/ "partial" \in Fault) THEN "closing" ELSE "failing")
       /\ UNCHANGED <<cut, src, childOk, pos, stage, got, delivered, fd, child, result>>
(* a child may exit once all its output is read, or when nobody reads any more *)
ChildExits == /\ child = "running" /\ (pos = cut \/ ~fd)
              /\ child' = "zombie"
              /\ childOk' = (childOk /\ pos = cut)
              /\ UNCHANGED <<cut, src, pos, stage, got, delivered, fd, phase, result>>
CloseFd == /\ phase \in {"closing", "failing"} /\ fd
           /\ ~("leak" \in Fault /\ phase = "failing")
           /\ fd' = FALSE /\ UNCHANGED <<cut, src, childOk, pos, stage, got, delivered, child, phase, result>>
Reap == /\ phase \in {"closing", "failing"} /\ ~fd /\ child = "zombie"
        /\ child' = "reaped" /\ UNCHANGED <<cut, src, childOk, pos, stage, got, delivered, fd, phase, result>>
Report == /\ phase \in {"closing", "failing"} /\ (~fd \/ "leak" \in Fault) /\ child \in {"none", "reaped"}
          /\ result' = (IF phase = "closing" /\ (childOk \/ "nostatus" \in Fault) THEN "ok" ELSE "throw")
          /\ phase' = "done" /\ UNCHANGED <<cut, src, childOk, pos, stage, got, delivered, fd, child>>
Next == ReadSome \/ Eof \/ ChildExits \/ CloseFd \/ Reap \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Complete == cut % BlobLen = 0
NotSilent == result = "ok" => Complete /\ childOk /\ delivered = cut \div BlobLen
NoFalseAlarm == result = "throw" => ~Complete \/ ~childOk
Genuine == delivered <= cut \div BlobLen
Released == phase = "done" => ~fd /\ child \in {"none", "reaped"}
Terminates == <>(phase = "done")
=============================================================================
