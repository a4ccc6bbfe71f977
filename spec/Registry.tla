----------------------------- MODULE Registry -----------------------------
(* A Python process imports modules one after another.  Importing a module  *)
(* imports what it needs first and then registers its open type table       *)
(* entries in the tables other modules own; the tables live as long as the   *)
(* process.  The machine keeps the loaded modules and the tables.            *)
EXTENDS Sites, Json

CONSTANTS Mode,      \* "all": any next module; "random": a random one (simulation);
                     \* "trace": those of a recorded history (RegistryTrace)
          MaxSteps,  \* imports asked for
          Seconds    \* modules asked for after the first import: "all" or "contested" 

VARIABLES loaded,    \* modules whose bodies have run
          tabs,      \* table entry key -> the contribution it holds
          asked      \* the imports asked for, in order
vars == <<loaded, tabs, asked>>

(* ---- contributions *)
EntryAt(x) == EntryTab[x[1]][x[2]]
KeyOf(x) == LET e == EntryAt(x) IN [m |-> e.m, tb |-> e.tb, key |-> e.key]
Contribs == UNION {{<<m, i>> : i \in 1..Len(EntryTab[m])} : m \in Modules}
AllKeys == {KeyOf(x) : x \in Contribs}
KeysOf == [m \in Modules |-> {KeyOf(<<m, i>>) : i \in 1..Len(EntryTab[m])}]
\* within one module the last entry for a key counts
LastOf(m, kk) == CHOOSE i \in 1..Len(EntryTab[m]) : KeyOf(<<m, i>>) = kk /\ \A j \in i + 1..Len(EntryTab[m]) : KeyOf(<<m, j>>) # kk
Registers == [m \in Modules |-> [kk \in KeysOf[m] |-> <<m, LastOf(m, kk)>>]]
Effective == UNION {{Registers[m][kk] : kk \in KeysOf[m]} : m \in Modules}
ContribsOf == [kk \in AllKeys |-> {x \in Effective : KeyOf(x) = kk}]
Contested == {kk \in AllKeys : Cardinality(ContribsOf[kk]) > 1}

ContestedModules == {x[1] : x \in UNION {ContribsOf[kk] : kk \in Contested}}

(* ---- what needs what *)
Needs(m) == ImportTab[m] \o StarTab[m]
RECURSIVE Reach(_, _)
Reach(todo, done) == IF todo = {} THEN done
                     ELSE LET nx == UNION {{Needs(m)[i] : i \in 1..Len(Needs(m))} : m \in todo}
                          IN Reach(nx \ done, done \cup nx)
Deps == [m \in Modules |-> Reach({m}, {})]
\* no module needs itself: the order of bodies is well founded
Acyclic == \A m \in Modules : m \notin Deps[m]

\* entries that may stand for a key: none that a loaded module overrides knowingly
Allowed(kk, ld) == {x \in ContribsOf[kk] : x[1] \in ld /\ ~\E y \in ContribsOf[kk] : y[1] \in ld /\ x[1] \in Deps[y[1]]}

(* ---- the machine *)
RECURSIVE Order(_, _)
\* the bodies that run, in order, when the modules of sequence ms are wanted
Order(ms, ran) == IF ms = <<>> THEN ran
                  ELSE IF \E i \in 1..Len(ran) : ran[i] = ms[1] THEN Order(Tail(ms), ran)
                  ELSE Order(Tail(ms), Append(Order(SelectSeq(Needs(ms[1]), LAMBDA x : x \notin loaded), ran), ms[1]))
Register(tb, m) == [kk \in DOMAIN tb \cup KeysOf[m] |-> IF kk \in KeysOf[m] THEN Registers[m][kk] ELSE tb[kk]]
Empty == [kk \in {} |-> <<"", 0>>]

Init == loaded = {} /\ tabs = Empty /\ asked = <<>>
Import(m) == LET run == Order(<<m>>, <<>>) IN
  /\ loaded' = loaded \cup {run[i] : i \in 1..Len(run)}
  /\ tabs' = FoldLeft(Register, tabs, run)
  /\ asked' = Append(asked, m)
Askable == IF Mode = "random" THEN {RandomElement(Modules \ loaded)}
           ELSE IF asked = <<>> \/ Seconds = "all" THEN Modules \ loaded ELSE ContestedModules \ loaded
\* histories for the implementation to follow
Shown == IF Mode = "random" THEN loaded' = Modules
         ELSE Len(asked') = 1 \/ \A i \in 1..Len(asked') : asked'[i] \in ContestedModules
Next == /\ Len(asked) < MaxSteps /\ loaded # Modules
        /\ \E m \in Askable : Import(m)
        /\ (Shown => PrintT("HISTORY " \o ToJson(asked')))
Spec == Init /\ [][Next]_vars

(* ---- properties *)
Contents == DOMAIN tabs = UNION {KeysOf[m] : m \in loaded}
Winner == \A kk \in DOMAIN tabs : tabs[kk] \in Allowed(kk, loaded)
Closed == \A m \in loaded : Deps[m] \subseteq loaded
\* importing only adds: an entry stays unless a new module registers the same key
Grows == [][\A kk \in DOMAIN tabs : /\ kk \in DOMAIN tabs'
                                    /\ tabs'[kk] # tabs[kk] => tabs'[kk][1] \in loaded' \ loaded]_vars

(* Whatever the order, an identifier means the same type: contributions      *)
(* neither of which overrides the other knowingly are of equal types.        *)
RECURSIVE Alike(_, _, _)
Alike(t1, t2, d) ==
  LET r1 == Res(t1) r2 == Res(t2) IN
  \/ d = 0 \/ t1 = t2
  \/ /\ r1.k = r2.k /\ Tags(r1) = Tags(r2) /\ r1.c = r2.c
     /\ CASE r1.k \in {"SEQ", "SET", "CHOICE"} ->
               /\ Len(r1.cs) = Len(r2.cs)
               /\ \A i \in 1..Len(r1.cs) : r1.cs[i].n = r2.cs[i].n /\ r1.cs[i].o = r2.cs[i].o /\ Alike(r1.cs[i].t, r2.cs[i].t, d - 1)
          [] r1.k \in {"SEQOF", "SETOF"} -> Alike(r1.of, r2.of, d - 1)
          [] OTHER -> TRUE
\* RFC 2985 gives these an upper bound that RFC 3739 does not
RfcsDiffer == {[m |-> "rfc5280", tb |-> "certificateAttributesMap", key |-> VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 2>>)]}
Confluent == \A kk \in Contested \ RfcsDiffer : \A x, y \in ContribsOf[kk] :
    \/ x[1] \in Deps[y[1]] \/ y[1] \in Deps[x[1]]
    \/ Alike(EntryAt(x).t, EntryAt(y).t, 6)
StaticOk == loaded = {} => Acyclic /\ Confluent
===========================================================================
