------------------------------ MODULE NameTrace -----------------------------
EXTENDS FileName, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<l, fvars>>
Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.e = n /\ l' = l + 1
(* after each operation the object shows name, type and encoding, and the derived names *)
Shows == /\ Ev.name = Text(name') /\ Ev.typ = typ' /\ Ev.enc = enc'
         /\ Ev.base = Text(Base(name')) /\ Ev.def = Text(Default(name', typ', enc'))
         /\ Ev.multi = (typ' # "osm")
Init == l = 1 /\ name = <<>> /\ typ = "osm" /\ enc = "pbf"
Begin == Is("begin") /\ UNCHANGED fvars
TNew == Is("new") /\ ~Ev.thrown /\ New(Ev.s) /\ Shows
TName == Is("name") /\ ~Ev.thrown /\ SetName(Ev.s) /\ Shows
TType == Is("type") /\ IF Ev.thrown THEN BadType(Ev.x) /\ Shows ELSE SetType(Ev.x) /\ Shows
TEnc == Is("enc") /\ IF Ev.thrown THEN BadEnc(Ev.x) /\ Shows ELSE SetEnc(Ev.x) /\ Shows
TSuffix == Is("suffix") /\ ~Ev.thrown /\ SetSuffix(Ev.x) /\ Shows
TCopy == Is("copy") /\ ~Ev.thrown /\ UNCHANGED fvars /\ Shows
(* the derived name, made into a new description *)
TBack == /\ Is("back") /\ ~Ev.thrown /\ MapsBack /\ UNCHANGED fvars
         /\ Ev.typ = OfName(Default(name, typ, enc))[1] /\ Ev.enc = OfName(Default(name, typ, enc))[2]
TOpen == /\ Is("opened") /\ Ev.how = Input /\ (Input \in {"curl", "zcat", "bzcat"} => Ev.arg = Text(name)) /\ UNCHANGED fvars
Next == Begin \/ TNew \/ TName \/ TType \/ TEnc \/ TSuffix \/ TCopy \/ TBack \/ TOpen
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
ASSUME TLCSet(1, 1)
Accepted == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(1)>>) /\ FALSE
=============================================================================
