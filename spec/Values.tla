------------------------------- MODULE Values -----------------------------
(* A reader looks up every value a module exports.  The value is a legal one *)
(* of its type, and two modules that give a value the same name mean the     *)
(* same value, save where the RFCs themselves differ.                        *)
EXTENDS Probes, Json

CONSTANT StartModules
VARIABLES at, phase
vars == <<at, phase>>

Init == /\ phase = "idle"
        /\ at \in {[m |-> m, n |-> ""] : m \in StartModules}
Look == /\ phase = "idle"
        /\ phase' = "seen"
        /\ \E n \in DOMAIN ValueTab[at.m] \ {"NoValues__"} :
             /\ at' = [m |-> at.m, n |-> n]
             /\ LET c == Val(at.m, n) IN
                PrintT("VALUE " \o ToJson([m |-> at.m, n |-> n, part |-> c.set /\ Template(c.t, c.v), set |-> c.set, k |-> Res(c.t).k,
                   v |-> IF c.set THEN Full(c.t, c.v) ELSE VNULL,
                   der |-> IF c.set THEN Enc(c.t, c.v) ELSE <<>>]))
\* and what a fresh object of a type holds before anything is put into it
Make == /\ phase = "idle"
        /\ phase' = "made"
        /\ \E x \in {x \in Presets : x.m = at.m} :
             /\ at' = [m |-> at.m, n |-> x.n]
             /\ PrintT("PRESET " \o ToJson([m |-> x.m, n |-> x.n, c |-> x.c, v |-> Full(Comp(Res(R(x.m, x.n)), x.c).t, x.v)]))
Next == Look \/ Make
Spec == Init /\ [][Next]_vars

Seen == phase = "seen" /\ Val(at.m, at.n).set
Typed == Seen => LET c == Val(at.m, at.n) IN Legal(c.t, c.v) \/ Template(c.t, c.v)
RoundTrip == Seen => LET c == Val(at.m, at.n) d == Dec(c.t, Enc(c.t, c.v))
                     IN Template(c.t, c.v) \/ (d.ok /\ d.rest = <<>> /\ d.v = Full(c.t, c.v))
(* Names the RFCs reuse for different values *)
Reused == {"ellipticCurve",            \* X9.62 and Brainpool arcs
           "ub_emailaddress_length",   \* 128 until RFC 3280, 255 since RFC 5280
           "id_at_clearance",          \* 2.5.1.5.55 in RFC 3281, 2.5.4.55 since RFC 5755
           "dhSinglePass_stdDH_sha256kdf_scheme", "dhSinglePass_stdDH_sha384kdf_scheme",
           "dhSinglePass_stdDH_sha512kdf_scheme"}  \* SECG arc in RFC 5753, X9.63 arc in RFC 8418
Agree == Seen => \A m \in Modules : (at.n \in DOMAIN ValueTab[m] /\ Val(m, at.n).set /\ at.n \notin Reused
                                /\ Res(Val(m, at.n).t).k = Res(Val(at.m, at.n).t).k /\ Res(Val(m, at.n).t).k # "SEQ")
                   => Full(Val(m, at.n).t, Val(m, at.n).v) = Full(Val(at.m, at.n).t, Val(at.m, at.n).v)
(* The arcs below the registered roots: an identifier is never one of a kind of typing slip *)
RootsOk == (Seen /\ Res(Val(at.m, at.n).t).k = "OID") => LET o == Val(at.m, at.n).v.o IN
   /\ Len(o) >= 2 /\ o[1] \in 0..2 /\ (o[1] < 2 => o[2] < 40)
============================================================================
