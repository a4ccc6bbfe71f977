------------------------------- MODULE Codec ------------------------------
(* A traveller visits every schema object and puts it to use: it walks from *)
(* the exported types and the open type tables along component edges, and   *)
(* at each site builds, encodes and decodes the values Probes.tla gives.    *)
(* Every visited site is written out as one JSON line for the conformance   *)
(* harness, which puts the same use to the implementation's object.         *)
EXTENDS Probes, Json

CONSTANTS Groups, StartModules

VARIABLES at,      \* the site
          phase,   \* "arrived" or "used"
          done     \* probes put to it: <<group, probe>> 
vars == <<at, phase, done>>

Init == \/ /\ at \in {s \in Roots : s.m \in StartModules /\ ~(Plain(RootTerm(s.m, s.n)))}
           /\ phase = "arrived"
           /\ done = <<>>
        \/ /\ at \in {SiteOf(m, "", <<>>) : m \in StartModules}
           /\ phase = "unread"
           /\ done = <<>>

(* Reading a module: which names it exports and which sites they are.       *)
SiteFor(m, n) == LET t == RootTerm(m, n) IN IF Plain(t) THEN Target(t) ELSE SiteOf(m, n, <<>>)
ModuleJson(m) ==
  [m |-> m,
   types |-> LET ns == SetToSeq(DOMAIN TypeTab[m] \ {"NoTypes__"}) IN [i \in 1..Len(ns) |-> [n |-> ns[i], s |-> SiteFor(m, ns[i])]],
   tables |-> TableTab[m],
   entries |-> [i \in 1..Len(EntryTab[m]) |-> LET e == EntryTab[m][i] IN [m |-> e.m, tb |-> e.tb, key |-> e.key, s |-> SiteFor(m, EntryName(i))]]]
Read == /\ phase = "unread"
        /\ phase' = "read"
        /\ PrintT("MODULE " \o ToJson(ModuleJson(at.m)))
        /\ UNCHANGED <<at, done>>

SiteJson(s, ps) == LET r == Res(TermAt(s)) IN
  [m |-> s.m, n |-> s.n, p |-> s.p, k |-> r.k,
   comps |-> IF r.k \in {"SEQ", "SET", "CHOICE"} THEN [i \in 1..Len(r.cs) |-> r.cs[i].n] ELSE <<>>,
   kids |-> Children(s), probes |-> ps]

Use == /\ phase = "arrived"
       /\ phase' = "used"
       /\ at' = at
       /\ LET t == TermAt(at)
              gs == SetToSeq(Groups)
              ps == FlattenSeq([i \in 1..Len(gs) |-> LET q == ProbesFor(gs[i], t) IN [j \in 1..Len(q) |-> [g |-> gs[i], p |-> q[j]]]])
          IN /\ done' = ps
             /\ PrintT("SITE " \o ToJson(SiteJson(at, ps)))

Walk == /\ phase = "arrived"
        /\ \E i \in 1..Arity(TermAt(HomeOf(at))) : at' = Child(at, i)
        /\ phase' = "arrived"
        /\ done' = <<>>

Next == Read \/ Use \/ Walk
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------------ *)
(* What the specification itself guarantees *)
Probed(k) == {i \in 1..Len(done) : done[i].p.k = k}
\* decoding undoes encoding
RoundTrip == \A i \in Probed("val") : LET d == Dec(TermAt(at), done[i].p.der)
                                      IN d.ok /\ d.rest = <<>> /\ d.v = done[i].p.full
\* encoding is a function of the abstract value: encoding what was decoded changes nothing
Canonical == \A i \in Probed("val") : Enc(TermAt(at), done[i].p.full) = done[i].p.der
\* values offered as good satisfy their type, those offered as bad do not
Sound == /\ \A i \in Probed("val") : Legal(TermAt(at), done[i].p.v)
         /\ \A i \in Probed("bad") : ~Legal(TermAt(at), done[i].p.v)
\* no two messages of a structured type look alike to the decoder (X.680 25.5, 27.3, 29.3)
RECURSIVE Tags0(_)
Tags0(t) == LET r == Res(t) tg == Tags(r) IN
            IF tg # <<>> THEN {<<tg[Len(tg)][1], tg[Len(tg)][2]>>}
            ELSE IF r.k = "ANY" THEN {} ELSE UNION {Tags0(r.cs[i].t) : i \in 1..Len(r.cs)}
\* RFC 6402 itself leaves ChangeSubjectName ambiguous
AmbiguousInRfc == {SiteOf("rfc6402", "ChangeSubjectName", <<>>)}
Distinct == LET r == Res(TermAt(at)) IN
  (phase = "used" /\ HomeOf(at) \notin AmbiguousInRfc) =>
  CASE r.k \in {"CHOICE", "SET"} -> \A i, j \in 1..Len(r.cs) : i < j => Tags0(r.cs[i].t) \cap Tags0(r.cs[j].t) = {}
    [] r.k = "SEQ" -> \A i, j \in 1..Len(r.cs) :
         (i < j /\ \A x \in i..j - 1 : r.cs[x].o # "REQ") => Tags0(r.cs[i].t) \cap Tags0(r.cs[j].t) = {}
    [] OTHER -> TRUE
===========================================================================
