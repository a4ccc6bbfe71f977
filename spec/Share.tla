------------------------------- MODULE Share ------------------------------
(* A writer puts together structures from objects of the exported classes:   *)
(* wherever a component or a list element is declared with a type that is    *)
(* exported under some name, in whichever module, an object made from that   *)
(* name is put there.  A reader takes types that are spelt alike in two      *)
(* modules for the same.                                                     *)
EXTENDS Probes, Json

VARIABLES at, act
vars == <<at, act>>

Init == /\ at \in {s \in Roots : ~(Plain(RootTerm(s.m, s.n)))}
        /\ act = [k |-> "arrived"]
Walk == /\ act.k = "arrived"
        /\ \E i \in 1..Arity(TermAt(HomeOf(at))) : at' = Child(at, i)
        /\ UNCHANGED act

\* the site is visited once under its home; tagged references to it are not
\* declared with the exported type alone
Holder(t, i, v) ==
  LET r == Res(t) IN
  CASE r.k \in {"SEQ", "SET"} -> LET b == WithField(r, Least(t, 1), r.cs[i].n, v) IN
                                 IF HoldsAll(r, b) THEN b ELSE WithField(r, SamFields(r, AllNames(r), 1, 0), r.cs[i].n, v)
    [] r.k = "CHOICE" -> [ch |-> r.cs[i].n, v |-> v]
    [] OTHER -> LET z == ConsOf(r, "size") IN [l |-> [j \in 1..(IF z # <<>> /\ z[1].lo > 1 THEN z[1].lo ELSE 1) |-> v]]
Part(t, i) == LET r == Res(t) IN IF r.k \in {"SEQ", "SET", "CHOICE"} THEN r.cs[i].n ELSE ""
Put(i, salt, fuel) ==
  LET t == TermAt(at)
      r == Res(t)
      c == Sub(r, i)
      v == IF r.k \in {"SEQ", "SET"} THEN (IF r.cs[i].o = "DEF" THEN OtherThan(r.cs[i], salt, fuel, 0) ELSE Sam(c, salt, fuel)) ELSE Sam(c, salt, fuel)
      msg == TLCEval(Holder(t, i, v))
  IN [k |-> "put", m |-> at.m, n |-> at.n, p |-> at.p, comp |-> Part(t, i), kind |-> Res(c).k, of |-> Child(at, i), v |-> v,
      msg |-> msg, der |-> Enc(t, msg), full |-> Full(t, msg)]
Give == /\ act.k = "arrived"
        /\ \E i \in 1..Arity(TermAt(at)) : \E salt \in Salts :
             /\ Plain(Sub(Res(TermAt(at)), i))
             /\ ~HasAmbiguity(Sub(Res(TermAt(at)), i)) /\ ~HasAmbiguity(TermAt(at))
             /\ Legal(TermAt(at), Put(i, salt, (salt % 3)).msg) = TRUE  \* (not to be split into cases)
             /\ act' = Put(i, salt, (salt % 3))
        /\ PrintT("PUT " \o ToJson(act'))
        /\ UNCHANGED at

(* ---- types alike *)
RECURSIVE Alike(_, _, _)
Alike(t1, t2, d) ==
  LET r1 == Res(t1) r2 == Res(t2) IN
  \/ d = 0 \/ t1 = t2
  \/ /\ r1.k = r2.k /\ Tags(r1) = Tags(r2) /\ r1.c = r2.c
     /\ CASE r1.k \in {"SEQ", "SET", "CHOICE"} ->
               /\ Len(r1.cs) = Len(r2.cs)
               /\ \A i \in 1..Len(r1.cs) : /\ r1.cs[i].n = r2.cs[i].n /\ r1.cs[i].o = r2.cs[i].o
                                           /\ (r1.cs[i].o = "DEF" => Full(r1.cs[i].t, r1.cs[i].d) = Full(r2.cs[i].t, r2.cs[i].d))
                                           /\ Alike(r1.cs[i].t, r2.cs[i].t, d - 1)
          [] r1.k \in {"SEQOF", "SETOF"} -> Alike(r1.of, r2.of, d - 1)
          [] OTHER -> TRUE
Swap(m2, salt, fuel) ==
  LET v == Sam(TermAt(at), salt, fuel)
  IN [k |-> "swap", m |-> at.m, n |-> at.n, with |-> m2, der |-> Enc(TermAt(at), v), full |-> Full(TermAt(at), v),
      other |-> Dec(Term(m2, at.n), Enc(TermAt(at), v))]
Read == /\ act.k = "arrived" /\ at.p = <<>> /\ SubSeq(at.n, 1, 1) # "@" /\ ~HasAmbiguity(TermAt(at))
        /\ \E m2 \in Modules \ {at.m} : \E salt \in Salts : \E fuel \in {0, 2, 4} :
              /\ at.n \in DOMAIN TypeTab[m2]
              /\ ~Plain(Term(m2, at.n))
              /\ Res(TermAt(at)).k \in Structured \cup {"CHOICE"}
              /\ Alike(TermAt(at), Term(m2, at.n), 9) = TRUE
              /\ act' = Swap(m2, salt, fuel)
        /\ PrintT("SWAP " \o ToJson([act' EXCEPT !.other = @.ok]))
        /\ UNCHANGED at
(* ---- a protocol of the user's own, with components of an exported type:   *)
(* tagged anew, in a list, as an alternative                                 *)
Bare(t) == Res(t).k = "CHOICE" /\ Tags(Res(t)) = <<>>
Anew(n, t) == IF Bare(t) THEN EXPL(PRIV, n, t) ELSE IMPL(PRIV, n, t)
OwnParts(t) == <<REQ("first", EXPL(CTX, 0, t)), REQ("listed", IMPL(CTX, 1, SEQUENCE_OF(t))), REQ("anew", Anew(40, t)),
                 REQ("either", CHOICE(<<REQ("number", INTEGER), REQ("object", EXPL(CTX, 2, t))>>))>>
OwnType(t, which) == SEQUENCE(IF which = 4 THEN OwnParts(t) ELSE <<OwnParts(t)[which]>>)
OwnValue(t, salt, which) ==
  LET v(j) == Sam(t, salt + j, (salt + j) % 3) IN
  [f |-> (IF which \in {1, 4} THEN <<[n |-> "first", v |-> v(0)]>> ELSE <<>>)
         \o (IF which \in {2, 4} THEN <<[n |-> "listed", v |-> [l |-> <<v(1), v(2)>>]]>> ELSE <<>>)
         \o (IF which \in {3, 4} THEN <<[n |-> "anew", v |-> v(3)]>> ELSE <<>>)
         \o (IF which = 4 THEN <<[n |-> "either", v |-> [ch |-> "object", v |-> v(4)]]>> ELSE <<>>)]
OwnCase(v, which) == LET o == OwnType(TermAt(at), which) IN [which |-> which, k |-> "own", m |-> at.m, n |-> at.n, p |-> <<>>, bare |-> Bare(TermAt(at)), v |-> v, der |-> Enc(o, v), full |-> Full(o, v)]
Build == /\ act.k = "arrived" /\ at.p = <<>> /\ SubSeq(at.n, 1, 1) # "@" /\ ~HasAmbiguity(TermAt(at)) /\ Res(TermAt(at)).k # "ANY"
         /\ \E salt \in Salts : \E which \in 1..4 :
              \E v \in {OwnValue(TermAt(at), salt, which)} :
                 /\ Legal(OwnType(TermAt(at), which), v) = TRUE
                 /\ act' = OwnCase(v, which)
         /\ PrintT("OWN " \o ToJson(act'))
         /\ UNCHANGED at

Next == Walk \/ Give \/ Read \/ Build
Spec == Init /\ [][Next]_vars

(* ---- what the specification itself guarantees *)
PutSound == act.k = "put" => LET d == Dec(TermAt(at), act.der) IN d.ok /\ d.rest = <<>> /\ d.v = act.full
\* the octets of the part are found in the whole as they are by themselves
PutLocal == act.k = "put" =>
  LET r == Res(TermAt(at))
      i == CHOOSE i \in 1..Arity(TermAt(at)) : Child(at, i) = act.of /\ Part(TermAt(at), i) = act.comp
      e == Enc(Sub(r, i), act.v)
  IN \/ r.k \in {"SEQ", "SET"} /\ IsDefault(r.cs[i], act.v)
     \/ \E j \in 1..Len(act.der) : j + Len(e) - 1 <= Len(act.der) /\ SubSeq(act.der, j, j + Len(e) - 1) = e
SwapSound == act.k = "swap" => act.other.ok /\ act.other.rest = <<>> /\ act.other.v = act.full
OwnSound == act.k = "own" => LET d == Dec(OwnType(TermAt(at), act.which), act.der) IN d.ok /\ d.rest = <<>> /\ d.v = act.full
===========================================================================
