------------------------------ MODULE FileName ------------------------------
(* C12: names, type and encoding of OSM files.  A name is a sequence of words; *)
(* "." "/" ":" are words of their own.                                         *)
EXTENDS Integers, Sequences, TLC
RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE Head(s) \o Text(Tail(s))
LastSlash(s) == LET P == {k \in 1..Len(s) : s[k] = "/"} IN IF P = {} THEN 0 ELSE CHOOSE k \in P : \A m \in P : m <= k
(* position of the first dot of the last path component, Len + 1 if there is none *)
Dot(s) == LET P == {k \in (LastSlash(s) + 1)..Len(s) : s[k] = "."} IN IF P = {} THEN Len(s) + 1 ELSE CHOOSE k \in P : \A m \in P : k <= m
Suffix(s) == Text(SubSeq(s, Dot(s) + 1, Len(s)))
Std(s) == Text(s) = "" \/ Text(s) = "-"
Url(s) == LET P == {k \in 1..Len(s) : s[k] = ":"} IN
          P # {} /\ Text(SubSeq(s, 1, (CHOOSE k \in P : \A m \in P : k <= m) - 1)) \in {"http", "https"}
Documented ==
    [x \in {"pbf", "osm.pbf"} |-> <<"osm", "pbf">>] @@ [x \in {"osm"} |-> <<"osm", "xml">>]
    @@ [x \in {"osm.bz2"} |-> <<"osm", "bz2">>] @@ [x \in {"osm.gz"} |-> <<"osm", "gz">>]
    @@ [x \in {"osh.pbf"} |-> <<"history", "pbf">>] @@ [x \in {"osh"} |-> <<"history", "xml">>]
    @@ [x \in {"osh.bz2"} |-> <<"history", "bz2">>] @@ [x \in {"osh.gz"} |-> <<"history", "gz">>]
    @@ [x \in {"osc"} |-> <<"change", "xml">>] @@ [x \in {"osc.bz2"} |-> <<"change", "bz2">>]
    @@ [x \in {"osc.gz"} |-> <<"change", "gz">>]
OfSuffix(x) == IF x \in DOMAIN Documented THEN Documented[x] ELSE <<"osm", "pbf">>
OfName(s) == IF Std(s) THEN <<"osm", "pbf">> ELSE IF Url(s) THEN <<"osm", "xml">> ELSE OfSuffix(Suffix(s))
TypeNames == [x \in {"osm"} |-> "osm"] @@ [x \in {"history", "osh"} |-> "history"] @@ [x \in {"change", "osc"} |-> "change"]
EncNames == [x \in {"pbf"} |-> "pbf"] @@ [x \in {"xml"} |-> "xml"] @@ [x \in {"xmlgz", "gz"} |-> "gz"] @@ [x \in {"xmlbz2", "bz2"} |-> "bz2"]
TypeSuffix(t) == CASE t = "osm" -> <<".", "osm">> [] t = "history" -> <<".", "osh">> [] t = "change" -> <<".", "osc">>
EncSuffix(x) == CASE x = "pbf" -> <<".", "pbf">> [] x = "xml" -> <<>> [] x = "gz" -> <<".", "gz">> [] x = "bz2" -> <<".", "bz2">>
Base(s) == SubSeq(s, 1, Dot(s) - 1)
Default(s, t, x) == Base(s) \o TypeSuffix(t) \o EncSuffix(x)

VARIABLES name, typ, enc
fvars == <<name, typ, enc>>
Stored(s) == IF Text(s) = "-" THEN <<>> ELSE s
New(s) == name' = Stored(s) /\ typ' = OfName(s)[1] /\ enc' = OfName(s)[2]
SetName(s) == name' = Stored(s) /\ UNCHANGED <<typ, enc>>
SetType(x) == x \in DOMAIN TypeNames /\ typ' = TypeNames[x] /\ UNCHANGED <<name, enc>>
BadType(x) == x \notin DOMAIN TypeNames /\ UNCHANGED fvars
SetEnc(x) == x \in DOMAIN EncNames /\ enc' = EncNames[x] /\ UNCHANGED <<name, typ>>
BadEnc(x) == x \notin DOMAIN EncNames /\ UNCHANGED fvars
SetSuffix(x) == typ' = OfSuffix(x)[1] /\ enc' = OfSuffix(x)[2] /\ UNCHANGED name
(* what opening needs: "stdin" / "curl" / a file, directly or through a program *)
Input == CASE enc = "gz" -> "zcat" [] enc = "bz2" -> "bzcat"
           [] OTHER -> IF name = <<>> THEN "stdin" ELSE IF Url(name) THEN "curl" ELSE "file"
MapsBack == Url(name) \/ (typ = "change" /\ enc = "pbf") \/ OfName(Default(name, typ, enc)) = <<typ, enc>>
KeepsBase == Base(Default(name, typ, enc)) = Base(name)
=============================================================================
