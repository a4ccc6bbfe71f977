------------------------------ MODULE OpenTypes ---------------------------
(* A reader resolves open types: at every structure that has a component    *)
(* governed by a table, every identifier of the table is put into the       *)
(* governing component, with a value of the type registered for it, and one *)
(* identifier that is not registered.                                       *)
EXTENDS Probes, Json

VARIABLES at,      \* site of the structure
          open,    \* index of the open component, 0 before it is chosen
          case     \* the message written
vars == <<at, open, case>>

OpenComps(t) == LET r == Res(t) IN IF r.k \notin {"SEQ", "SET"} THEN {} ELSE {i \in 1..Len(r.cs) : r.cs[i].ot # <<>>}

Init == /\ at \in {s \in Roots : ~(Plain(RootTerm(s.m, s.n)))}
        /\ open = 0
        /\ case = [why |-> "none"]
\* the tables themselves: what a user finds under an identifier
Looking == /\ at \in {SiteOf(m, "", <<>>) : m \in Modules}
           /\ open = -1
           /\ case = [why |-> "none"]
Sample(pt, salt, fuel) == LET v == TLCEval(Sam(pt, salt, fuel)) IN [der |-> Enc(pt, v), full |-> Full(pt, v)]
EntryCase(m, i) == LET e == EntryTab[m][i] q == SetToSeq(Salts) IN
  [why |-> "entry", from |-> m, m |-> e.m, tb |-> e.tb, key |-> e.key,
   cases |-> FlattenSeq([j \in 1..Len(q) |-> <<Sample(e.t, q[j], 0), Sample(e.t, q[j], 1), Sample(e.t, q[j] + 5, 2)>>])]
LookUp == /\ open = -1 /\ case.why = "none"
          /\ \E i \in 1..Len(EntryTab[at.m]) : case' = EntryCase(at.m, i)
          /\ PrintT("ENTRY " \o ToJson(case'))
          /\ UNCHANGED <<at, open>>
Choose == /\ open = 0
          /\ open' \in OpenComps(TermAt(at))
          /\ PrintT("OPENSITE " \o ToJson([m |-> at.m, n |-> at.n, p |-> at.p, kids |-> Children(at)]))
          /\ UNCHANGED <<at, case>>

\* the payload sits in the open component by itself, as the content of an octet
\* string, or as the elements of a list
Message(t, i, key, payloads) ==
  LET r == Res(t)
      base == WithField(r, Least(t, 1), r.cs[i].ot[1], key)
      o == Res(r.cs[i].t)
  IN WithField(r, base, r.cs[i].n,
       IF o.k \in {"SETOF", "SEQOF"}
       THEN [l |-> [j \in 1..Len(payloads) |-> IF Res(o.of).k = "OCT" THEN VOCT(payloads[j]) ELSE VANY(payloads[j])]]
       ELSE IF o.k = "OCT" THEN VOCT(payloads[1]) ELSE VANY(payloads[1]))
\* lists that may hold more than one element
Many(r) == r.k \in {"SETOF", "SEQOF"} /\ ConsOf(r, "size") = <<>>

Case(s, i, key, x, salt) ==
  LET t == TermAt(s)
      r == Res(t)
      c == r.cs[i]
      pt == EntryAt(x).t
      v1 == TLCEval(Sam(pt, salt, 1))
      v2 == TLCEval(Sam(pt, salt + 3, 0))
      vs == IF Many(Res(c.t)) /\ Enc(pt, v1) # Enc(pt, v2) THEN <<v1, v2>> ELSE <<v1>>
      \* as the decoder lists them
      order == IF Len(vs) = 2 /\ Res(c.t).k = "SETOF" /\ LexLess(Enc(pt, v2), Enc(pt, v1), 1) THEN <<v2, v1>> ELSE vs
      es == TLCEval([j \in 1..Len(order) |-> Enc(pt, order[j])])
      msg == TLCEval(Message(t, i, key, es))
      \* a known finding: the octet string inside an octet string loses its own header
      naked == "KF-skid-rewrap-2459" \in Deviations /\ s = SiteOf("rfc2459", "Extension", <<>>)
               /\ Res(pt).k = "OCT" /\ Res(pt).g = <<>> /\ Res(pt).c = <<>>
  IN [why |-> "registered", m |-> s.m, n |-> s.n, p |-> s.p, comp |-> c.n, field |-> c.ot[1], key |-> key,
      from |-> x[1], list |-> Res(c.t).k \in {"SETOF", "SEQOF"},
      v |-> msg, der |-> Enc(t, msg), full |-> Full(t, msg),
      back |-> IF naked THEN Enc(t, Message(t, i, key, <<v1.s>>)) ELSE Enc(t, msg),
      pay |-> [j \in 1..Len(order) |-> Full(pt, order[j])], enc |-> es]
Foreign(k) == IF "o" \in DOMAIN k THEN VOID(<<1, 3, 6, 1, 4, 1, 99999, 7>>) ELSE VI(200)
NoCase(s, i, key) ==
  LET t == TermAt(s)
      r == Res(t)
      c == r.cs[i]
      msg == Message(t, i, key, <<Enc(INTEGER, VI(77))>>)
  IN [why |-> "unregistered", m |-> s.m, n |-> s.n, p |-> s.p, comp |-> c.n, field |-> c.ot[1], key |-> key,
      from |-> "", list |-> Res(c.t).k \in {"SETOF", "SEQOF"},
      v |-> msg, der |-> Enc(t, msg), full |-> Full(t, msg), back |-> Enc(t, msg), pay |-> <<>>, enc |-> <<Enc(INTEGER, VI(77))>>]

\* a reader may register types of its own, in the table of the component or by
\* the openTypes argument of the decoder: the identifier is then resolved
OwnCase(s, i, key) ==
  LET t == TermAt(s)
      r == Res(t)
      c == r.cs[i]
      msg == Message(t, i, key, <<Enc(INTEGER, VI(77))>>)
  IN [why |-> "own", m |-> s.m, n |-> s.n, p |-> s.p, comp |-> c.n, field |-> c.ot[1], key |-> key,
      from |-> "", table |-> [m |-> c.ot[2], tb |-> c.ot[3]], list |-> Res(c.t).k \in {"SETOF", "SEQOF"},
      v |-> msg, der |-> Enc(t, msg), full |-> Full(t, msg), back |-> Enc(t, msg), pay |-> <<Full(INTEGER, VI(77))>>, enc |-> <<Enc(INTEGER, VI(77))>>]

OtOf(s, i) == Res(TermAt(s)).cs[i].ot
Fits(s, i, key) == LET r == Res(TermAt(s)) IN Legal(Comp(r, r.cs[i].ot[1]).t, key)
Registered == /\ open > 0 /\ case.why = "none"
              /\ \E x \in EntriesOf(OtOf(at, open)[2], OtOf(at, open)[3]) : \E salt \in Salts :
                   /\ Fits(at, open, EntryAt(x).key) = TRUE
                   /\ case' = Case(at, open, EntryAt(x).key, x, salt)
              /\ PrintT("OPEN " \o ToJson(case'))
              /\ UNCHANGED <<at, open>>
Unregistered == /\ open > 0 /\ case.why = "none"
                /\ LET es == EntriesOf(OtOf(at, open)[2], OtOf(at, open)[3])
                       k == IF es = {} THEN VOID(<<1, 3>>) ELSE EntryAt(CHOOSE x \in es : TRUE).key
                   IN /\ Fits(at, open, Foreign(k)) = TRUE
                      /\ case' = NoCase(at, open, Foreign(k))
                /\ PrintT("OPEN " \o ToJson(case'))
                /\ UNCHANGED <<at, open>>
Own == /\ open > 0 /\ case.why = "none"
       /\ LET es == EntriesOf(OtOf(at, open)[2], OtOf(at, open)[3])
              k == IF es = {} THEN VOID(<<1, 3>>) ELSE EntryAt(CHOOSE x \in es : TRUE).key
          IN /\ Fits(at, open, Foreign(k)) = TRUE
             /\ case' = OwnCase(at, open, Foreign(k))
       /\ PrintT("OPEN " \o ToJson(case'))
       /\ UNCHANGED <<at, open>>
Walk == /\ open = 0
        /\ \E i \in 1..Arity(TermAt(HomeOf(at))) : at' = Child(at, i)
        /\ UNCHANGED <<open, case>>
Next == LookUp \/ Walk \/ Choose \/ Registered \/ Unregistered \/ Own
Spec == (Init \/ Looking) /\ [][Next]_vars

(* ------------------------------------------------------------------------ *)
\* a table entry reads what is written for its type
Entries == case.why = "entry" =>
  \E i \in 1..Len(EntryTab[at.m]) : EntryTab[at.m][i].key = case.key /\ \A j \in 1..Len(case.cases) :
     LET d == Dec(EntryTab[at.m][i].t, case.cases[j].der) IN d.ok /\ d.rest = <<>> /\ d.v = case.cases[j].full
Decoded == case.why \in {"registered", "unregistered", "own"}
RoundTrip == Decoded => LET d == Dec(TermAt(at), case.der) IN d.ok /\ d.rest = <<>> /\ d.v = case.full
\* what is found in the open component is the payload
Payload == Decoded => LET f == Field(Full(TermAt(at), case.v), case.comp) IN
   IF case.list THEN \A j \in 1..Len(case.enc) : (IF "s" \in DOMAIN f.l[j] THEN f.l[j].s ELSE f.l[j].a) = case.enc[j]
   ELSE (IF "s" \in DOMAIN f THEN f.s ELSE f.a) = case.enc[1]
\* every table has a key for each component it governs, or none is registered at all
Governed == open > 0 => LET r == Res(TermAt(at)) IN \E j \in 1..Len(r.cs) : r.cs[j].n = r.cs[open].ot[1]
============================================================================
