------------------------------- MODULE Sites ------------------------------
(* The graph of schema objects: every exported type, every open type table *)
(* entry, and every component reachable from them.  A site is identified by *)
(* the type assignment that spells it out (module, name) and the path of    *)
(* component positions below it; a plain reference is the site it refers to.*)
EXTENDS Asn1

SiteOf(m, n, p) == [m |-> m, n |-> n, p |-> p]

\* names of open type table entries as roots: "@<index in the module's Entries>"
EntryName(i) == "@" \o ToString(i)
RootTerm(m, n) == IF SubSeq(n, 1, 1) # "@" THEN Term(m, n)
                  ELSE LET i == CHOOSE i \in 1..Len(EntryTab[m]) : EntryName(i) = n IN EntryTab[m][i].t

Plain(t) == t.k = "REF" /\ t.g = <<>> /\ t.c = <<>> /\ t.nv = <<>>

RECURSIVE Home(_)
\* the site that spells out the structure a term refers to
Home(t) == LET u == Term(t.m, t.n) IN IF u.k = "REF" THEN Home(u) ELSE SiteOf(t.m, t.n, <<>>)
RECURSIVE Target(_)
\* the site of a plain reference: the first assignment that is not one itself
Target(t) == LET u == Term(t.m, t.n) IN IF Plain(u) THEN Target(u) ELSE SiteOf(t.m, t.n, <<>>)

Sub(r, i) == IF r.k \in {"SEQOF", "SETOF"} THEN r.of ELSE r.cs[i].t
RECURSIVE Descend(_, _)
Descend(t, p) == IF p = <<>> THEN t ELSE Descend(Sub(t, p[1]), Tail(p))
TermAt(s) == Descend(RootTerm(s.m, s.n), s.p)

Arity(t) == IF t.k \in {"SEQ", "SET", "CHOICE"} THEN Len(t.cs) ELSE IF t.k \in {"SEQOF", "SETOF"} THEN 1 ELSE 0
HomeOf(s) == LET t == TermAt(s) IN IF t.k = "REF" THEN Home(t) ELSE s
\* child i of a site
Child(s, i) == LET h == HomeOf(s)
                   t == TermAt(h)
                   u == Sub(t, i)
               IN IF Plain(u) THEN Target(u) ELSE SiteOf(h.m, h.n, Append(h.p, i))
Children(s) == LET a == Arity(TermAt(HomeOf(s))) IN [i \in 1..a |-> Child(s, i)]

Roots == UNION {{SiteOf(m, n, <<>>) : n \in DOMAIN TypeTab[m]} : m \in Modules}
           \cup UNION {{SiteOf(m, EntryName(i), <<>>) : i \in 1..Len(EntryTab[m])} : m \in Modules}
===========================================================================
