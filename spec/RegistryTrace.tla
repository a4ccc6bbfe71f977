--------------------------- MODULE RegistryTrace --------------------------
(* Histories recorded from the implementation, checked against Registry.    *)
(* An event says which bodies ran, what became of the tables, and for each   *)
(* new or changed entry which contributions its object behaves like.         *)
EXTENDS Registry, IOUtils

VARIABLES h, pos, faults
tvars == <<loaded, tabs, asked, h, pos, faults>>

Histories == JsonDeserialize(IOEnv.TRACE)
Ev(x, y) == Histories[x][y]
KeyIn(e) == [m |-> e.m, tb |-> e.tb, key |-> e.key]
KeysIn(q) == {KeyIn(q[i]) : i \in 1..Len(q)}
FitsIn(q, kk) == LET i == CHOOSE i \in 1..Len(q) : KeyIn(q[i]) = kk IN {q[i].fits[j] : j \in 1..Len(q[i].fits)}

TInit == loaded = {} /\ tabs = Empty /\ asked = <<>> /\ h \in 1..Len(Histories) /\ pos = 0 /\ faults = {}

Flaws(e, ld, known, fresh) ==
  (IF e.err # "" THEN {<<"import fails: " \o e.err, "">>} ELSE {})
  \cup {<<"import of " \o m \o " did not load it", "">> : m \in {e.asked} \ ld}
  \cup {<<"an entry is missing", kk>> : kk \in (UNION {KeysOf[m] : m \in ld}) \ (known \cup KeysIn(e.added))}
  \cup {<<"an entry nobody registers", kk>> : kk \in KeysIn(e.added) \ UNION {KeysOf[m] : m \in ld}}
  \cup {<<"an entry is gone", kk>> : kk \in KeysIn(e.removed)}
  \cup {<<"an entry changed though no new module registers it", kk>> :
          kk \in {x \in KeysIn(e.changed) : x \in AllKeys /\ ~\E c \in ContribsOf[x] : c[1] \in fresh}}
  \cup {<<"an entry is not of the type registered", kk>> :
          kk \in {x \in KeysIn(e.added) : x \in AllKeys /\ FitsIn(e.added, x) \cap Allowed(x, ld) = {}}
             \cup {x \in KeysIn(e.changed) : x \in AllKeys /\ FitsIn(e.changed, x) \cap Allowed(x, ld) = {}}}
  \cup {<<"an entry was not replaced by its update", kk>> :
          kk \in {x \in UNION {KeysOf[m] : m \in fresh} : x \in known /\ x \notin KeysIn(e.changed) /\ tabs[x] \cap Allowed(x, ld) = {}}}

Step == /\ pos < Len(Histories[h])
        /\ LET e == Ev(h, pos + 1)
               fresh == {e.ran[i] : i \in 1..Len(e.ran)} \cap Modules
               ld == loaded \cup fresh
           IN /\ loaded' = ld
              /\ asked' = <<e.asked>>
              /\ faults' = TLCEval(Flaws(e, ld, DOMAIN tabs, fresh))
              /\ tabs' = [kk \in (DOMAIN tabs \cup KeysIn(e.added)) \ KeysIn(e.removed) |->
                            IF kk \in KeysIn(e.added) THEN FitsIn(e.added, kk)
                            ELSE IF kk \in KeysIn(e.changed) THEN FitsIn(e.changed, kk) ELSE tabs[kk]]
              /\ pos' = pos + 1
              /\ UNCHANGED h
              /\ \A f \in faults' : PrintT("REJECT " \o ToJson([h |-> h, pos |-> pos + 1, what |-> f[1], key |-> f[2]]))
TSpec == TInit /\ [][Step]_tvars
TContents == faults = {} => DOMAIN tabs = UNION {KeysOf[m] : m \in loaded}
===========================================================================
