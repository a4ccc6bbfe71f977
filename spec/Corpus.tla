------------------------------- MODULE Corpus -----------------------------
(* Messages met in practice, recorded from the implementation at work: what  *)
(* each means, what is to be written for it, and whether every open type in  *)
(* it carries what the tables say.                                           *)
EXTENDS Probes, Json, IOUtils

VARIABLES i, said
vars == <<i, said>>

Messages == JsonDeserialize(IOEnv.CORPUS)
Known(x) == x.m \in Modules /\ x.n \in DOMAIN TypeTab[x.m]

(* ---- open types, all the way down.  "yes": every registered payload is of *)
(* its type and canonical; "no": one is not; "rewrap": written otherwise.    *)
Worst(a, b) == IF a = "no" \/ b = "no" THEN "no" ELSE IF a = "rewrap" \/ b = "rewrap" THEN "rewrap" ELSE "yes"
Keyed(c, key) == {x \in EntriesOf(c.ot[2], c.ot[3]) : EntryAt(x).key = key}
RECURSIVE Open(_, _), OpenAs(_, _)
AllOf(F(_), n) == FoldFunction(LAMBDA a, b : Worst(a, b), "yes", [k \in 1..n |-> F(k)])
\* the octets p as a payload of type pt
OpenAs(pt, p) == LET d == TLCEval(Dec(pt, p)) IN
                IF ~d.ok \/ d.rest # <<>> THEN "no" ELSE Worst(IF Enc(pt, d.v) = p THEN "yes" ELSE "rewrap", Open(pt, d.v))
Payloads(v) == LET oct(x) == IF "s" \in DOMAIN x THEN x.s ELSE x.a IN
               IF "l" \in DOMAIN v THEN [k \in 1..Len(v.l) |-> oct(v.l[k])] ELSE <<oct(v)>>
OpenComp(t, r, c, v) ==
  LET key == Field(v, c.ot[1])
      es == Keyed(c, key)
      ps == Payloads(Field(v, c.n))
      whole(x) == AllOf(LAMBDA k : OpenAs(EntryAt(x).t, ps[k]), Len(ps))
      naked(x) == "KF-skid-rewrap-2459" \in Deviations /\ t.k = "REF" /\ t.m = "rfc2459" /\ t.n = "Extension" /\ Res(EntryAt(x).t).k = "OCT"
  IN IF es = {} THEN "yes"
     ELSE AllOf(LAMBDA k : LET x == SetToSeq(es)[k] IN Worst(whole(x), IF naked(x) THEN "rewrap" ELSE "yes"), Cardinality(es))
Open(t, v) ==
  LET r == Res(t) IN
  CASE r.k \in {"SEQ", "SET"} ->
         AllOf(LAMBDA k : LET c == r.cs[k] IN
               IF ~HasField(v, c.n) \/ IsDefault(c, Field(v, c.n)) THEN "yes"
               ELSE IF c.ot # <<>> /\ HasField(v, c.ot[1]) THEN OpenComp(t, r, c, v)
               ELSE Open(c.t, Field(v, c.n)), Len(r.cs))
    [] r.k = "CHOICE" -> Open(AltOf(r, v).t, v.v)
    [] r.k \in {"SEQOF", "SETOF"} -> AllOf(LAMBDA k : Open(r.of, v.l[k]), Len(v.l))
    [] OTHER -> "yes"

Meaning(x) == IF ~Known(x) THEN [known |-> FALSE]
              ELSE LET t == R(x.m, x.n) d == TLCEval(Dec(t, x.octs)) IN
                   IF d.ok /\ ~HasAmbiguity(t)
                   THEN [known |-> TRUE, i |-> i, ok |-> TRUE, rest |-> Len(d.rest), v |-> d.v, legal |-> Legal(t, d.v),
                         open |-> IF d.rest = <<>> THEN Open(t, d.v) ELSE "no", der |-> Enc(t, d.v)]
                   ELSE [known |-> TRUE, i |-> i, ok |-> FALSE]
Init == i \in 1..Len(Messages) /\ said = [known |-> FALSE]
Say == /\ said.known = FALSE
       /\ said' = Meaning(Messages[i])
       /\ said'.known /\ PrintT("CORPUS " \o ToJson(said'))
       /\ UNCHANGED i
Next == Say
Spec == Init /\ [][Next]_vars

\* what is written for a message says the same
Same == (said.known /\ said.ok) => LET d == Dec(R(Messages[i].m, Messages[i].n), said.der) IN d.ok /\ d.rest = <<>> /\ d.v = said.v
===========================================================================
