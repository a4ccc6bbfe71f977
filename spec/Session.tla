------------------------------- MODULE Session ----------------------------
(* A session: a program that makes, reads, changes, copies, writes and       *)
(* fails to read values of two types, in any order.  Values live in slots.   *)
(* A step changes the slot it works on and nothing else: not the other slots *)
(* and never the types.  Sessions are drawn for every exported structure;    *)
(* Drawn sessions follow a generator kept in the state, free ones take every *)
(* step there is.                                                            *)
EXTENDS Probes, Json

CONSTANTS Seeds,      \* drawn sessions per type
          Depth,      \* steps of a session
          Free        \* "module.name" of the types whose every session is taken

VARIABLES pair, slots, rnd, steps, over
vars == <<pair, slots, rnd, steps, over>>

Slots == 1..3
OFF == [on |-> FALSE]
On(k, v) == [on |-> TRUE, k |-> k, v |-> v]
T(k) == R(pair[k][1], pair[k][2])

Private == {n \in UNION {DOMAIN TypeTab[m] : m \in Modules} : SubSeq(n, 1, 1) = "_"}
\* names for a type that is spelt out elsewhere
Aliases == UNION {{<<m, n>> : n \in {k \in DOMAIN TypeTab[m] \ Private : Plain(Term(m, k))}} : m \in Modules}
Namesakes(x) == {y \in Aliases : Target(Term(y[1], y[2])) = SiteOf(x[1], x[2], <<>>)}
Structured1 == {"SEQ", "SET", "SEQOF", "SETOF", "CHOICE"}
Subjects == {x \in UNION {{<<m, n>> : n \in DOMAIN TypeTab[m] \ Private} : m \in Modules} :
               ~Plain(Term(x[1], x[2])) /\ ~HasAmbiguity(R(x[1], x[2])) /\ Res(R(x[1], x[2])).k \in Structured1}
\* types that go with a subject: those of its parts, its neighbours, itself
Parts(t) == LET r == Res(t) IN
  SelectSeq(IF r.k \in {"SEQOF", "SETOF"} THEN <<r.of>> ELSE [i \in 1..Len(r.cs) |-> r.cs[i].t], LAMBDA u : u.k = "REF" /\ u.g = <<>> /\ u.c = <<>>)
With(x, r) == LET ps == Parts(R(x[1], x[2])) IN
  CASE r % 3 = 0 \/ (r % 3 = 1 /\ ps = <<>>) -> x
    [] r % 3 = 1 -> LET p == ps[1 + ((r \div 3) % Len(ps))] IN <<p.m, p.n>>
    [] OTHER -> LET ns == SetToSeq(DOMAIN TypeTab[x[1]] \ Private) IN <<x[1], ns[1 + ((r \div 3) % Len(ns))]>>

Drawn == rnd # 0
Roll(r) == (r * 75 + 74) % 65537
\* salts and fuel of a sample
Some(k, r) == Sam(T(k), r % 89, (r \div 89) % 3)
Plainly(t, v) == LET o == Enc(t, v) d == Dec(t, o) IN ~HasAmbiguity(t) /\ d.ok /\ d.rest = <<>> /\ d.v = Full(t, v)
Ok(t, v) == Legal(t, v) /\ Plainly(t, v)

Step(op) == [op |-> op]
Show(s) == [st |-> [op |-> "show", s |-> s], sl |-> slots]
Bring(op, s, k, v) == LET t == T(k) IN
  IF Ok(t, v) THEN [st |-> [op |-> op, s |-> s, k |-> k, v |-> v, der |-> Enc(t, v), full |-> Full(t, v)], sl |-> [slots EXCEPT ![s] = On(k, v)]] ELSE Show(s)
Changed(op, s, i, j, x, v) == LET t == T(slots[s].k) IN
  IF Ok(t, v) THEN [st |-> [op |-> op, s |-> s, i |-> i, j |-> j, v |-> x, der |-> Enc(t, v), full |-> Full(t, v)], sl |-> [slots EXCEPT ![s].v = v]] ELSE Show(s)
\* component i of the structure in slot s, given a new value
NewPart(r, v, i, q) == LET c == r.cs[i] IN IF c.o = "DEF" /\ q % 2 = 0 /\ ~Overlooked(c) THEN c.d ELSE Sam(c.t, q % 83, q % 2)

Do(op, s, d, k, q) ==
  LET here == slots[s]
      t == IF here.on THEN T(here.k) ELSE T(k)
      r == Res(t)
  IN
  CASE op = "put" \/ (op # "bad" /\ op # "try" /\ op # "peek" /\ op # "use" /\ op # "dec" /\ op # "make" /\ ~here.on) -> Bring(IF Drawn /\ (q \div 2) % 2 = 0 THEN "make" ELSE "put", s, k, Some(k, q))
    [] op = "dec" -> Bring("dec", s, k, Some(k, q))
    [] op = "make" -> Bring("make", s, k, Some(k, q))  \* a fresh object, given its components one by one
    [] op = "bad" -> LET o == Enc(T(k), Some(k, q)) b == IF q % 2 = 0 THEN SubSeq(o, 1, Len(o) - 1) ELSE o \o <<>> IN
                     IF q % 2 = 0 /\ Len(o) > 2 /\ ~Dec(T(k), b).ok THEN [st |-> [op |-> "bad", k |-> k, octs |-> b], sl |-> slots] ELSE Show(s)
    [] op = "try" -> [st |-> [op |-> "try", k |-> k], sl |-> slots]
    [] op = "peek" -> LET v == Some(k, q) IN IF Ok(T(k), v) THEN [st |-> [op |-> "peek", k |-> k, octs |-> Enc(T(k), v)], sl |-> slots] ELSE Show(s)
    [] op = "copy" /\ s # d -> [st |-> [op |-> "copy", s |-> s, d |-> d, der |-> Enc(t, here.v), full |-> Full(t, here.v)], sl |-> [slots EXCEPT ![d] = here]]
    [] op = "set" /\ r.k \in {"SEQ", "SET"} /\ Len(r.cs) > 0 ->
         LET i == 1 + (q % Len(r.cs)) x == NewPart(r, here.v, i, q \div Len(r.cs)) IN
         Changed("set", s, r.cs[i].n, "", x, WithField(r, here.v, r.cs[i].n, x))
    [] op = "set" /\ r.k = "CHOICE" ->
         LET i == 1 + (q % Len(r.cs)) x == Sam(r.cs[i].t, q % 83, q % 2) IN Changed("set", s, r.cs[i].n, "", x, [ch |-> r.cs[i].n, v |-> x])
    [] op = "set" /\ r.k \in {"SEQOF", "SETOF"} ->
         LET x == Sam(r.of, q % 83, q % 2) IN Changed("append", s, "", "", x, [l |-> Append(here.v.l, x)])
    [] op = "inner" /\ r.k \in {"SEQ", "SET"} ->
         LET js == SelectSeq([i \in 1..Len(r.cs) |-> i], LAMBDA i : HasField(here.v, r.cs[i].n) /\ Res(r.cs[i].t).k \in {"SEQ", "SET"} /\ Len(Res(r.cs[i].t).cs) > 0) IN
         IF js = <<>> THEN Show(s)
         ELSE LET i == js[1 + (q % Len(js))] ri == Res(r.cs[i].t) j == 1 + (q % Len(ri.cs))
                  x == NewPart(ri, Field(here.v, r.cs[i].n), j, q \div 7)
              IN Changed("inner", s, r.cs[i].n, ri.cs[j].n, x, WithField(r, here.v, r.cs[i].n, WithField(ri, Field(here.v, r.cs[i].n), ri.cs[j].n, x)))
    [] op = "read" /\ r.k \in {"SEQ", "SET"} /\ Len(r.cs) > 0 ->
         LET i == 1 + (q % Len(r.cs)) c == r.cs[i] has == HasField(here.v, c.n) IN
         [st |-> [op |-> "read", s |-> s, i |-> c.n, has |-> has \/ c.o = "DEF", deep |-> Res(c.t).k \in Structured1,
                  full |-> IF has THEN Full(c.t, Field(here.v, c.n)) ELSE IF c.o = "DEF" THEN Full(c.t, c.d) ELSE VNULL], sl |-> slots]
    [] op = "pem" -> \* armoured in a block of one kind, read by a call for several kinds; sometimes after a block that is cut short
         LET ms == <<<<"X", "Y">>, <<"Y", "X">>, <<"Z", "Y", "X">>, <<"X">>>>[1 + (q % 4)] IN
         [st |-> [op |-> "pem", s |-> s, der |-> Enc(t, here.v), marks |-> ms, ix |-> (CHOOSE i \in DOMAIN ms : ms[i] = "X") - 1,
                  torn |-> (q \div 4) % 3 # 0], sl |-> slots]
    [] op = "use" -> \* the values with parts that the module exports are read and written
         LET m == pair[k][1]
             ns == SetToSeq({n \in DOMAIN ValueTab[m] \ {"NoValues__"} : LET c == Val(m, n) IN c.set /\ Res(c.t).k \in Structured1 /\ ~Template(c.t, c.v)}) IN
         IF ns = <<>> THEN Show(s)
         ELSE [st |-> [op |-> "use", m |-> m, all |-> [i \in 1..Len(ns) |-> LET c == Val(m, ns[i]) IN [n |-> ns[i], v |-> Full(c.t, c.v), der |-> Enc(c.t, c.v)]]], sl |-> slots]
    [] op = "wipe" -> [st |-> [op |-> "wipe", s |-> s], sl |-> [slots EXCEPT ![s] = OFF]]
    [] OTHER -> Show(s)

Ops == <<"put", "dec", "set", "set", "inner", "inner", "read", "copy", "bad", "try", "peek", "pem", "read", "set", "show", "wipe", "use">>
FreeOps == {"put", "make", "dec", "set", "inner", "read", "copy", "bad", "try", "use"}
Take(y) == /\ slots' = y.sl /\ steps' = Append(steps, y.st)
First(k, v) == IF Ok(T(k), v) THEN <<[op |-> "dec", s |-> k, k |-> k, v |-> v, der |-> Enc(T(k), v), full |-> Full(T(k), v)]>> ELSE <<>>

Init ==
  /\ slots = [s \in Slots |-> OFF] /\ over = "no" /\ steps = <<>>
  /\ \/ \E sq \in {SetToSeq(Subjects)} : \E n \in 1..Len(sq), z \in 1..Seeds : \E r \in {1 + (((n * 4001) + ((z % 997) * 613)) % 65536)} :
          /\ rnd = r /\ pair = <<sq[n], With(sq[n], Roll(r))>>
     \/ \E x \in {y \in Subjects : y[1] \o "." \o y[2] \in Free} : rnd = 0 /\ pair = <<x, With(x, 1)>>
Draw ==
  /\ Drawn /\ over = "no" /\ Len(steps) < Depth
  /\ \E r1 \in {Roll(rnd)} : \E r2 \in {Roll(r1)} :
       /\ rnd' = IF r2 = 0 THEN 1 ELSE r2
       /\ \E y \in {TLCEval(Do(Ops[1 + ((r1 \div 5) % Len(Ops))], 1 + (r2 % 3), 1 + ((r2 \div 3) % 3), 1 + ((r2 \div 9) % 2), r2 \div 18 + r1))} : Take(y)
  /\ UNCHANGED <<pair, over>>
Roam ==
  /\ ~Drawn /\ over = "no" /\ Len(steps) < 3
  /\ \E op \in FreeOps, s \in 1..2, k \in 1..2 :
       /\ (k = 1 \/ op \in {"put", "make", "dec"} \/ (op \in {"bad", "try"} /\ s = 1))
       /\ (s = 1 \/ op \notin {"bad", "try", "use"})
       /\ \E y \in {TLCEval(Do(op, s, 3 - s, k, 94))} :
            /\ (y.st.op # "show" /\ (slots[s].on \/ op \in {"put", "make", "dec", "bad", "try", "use"})) = TRUE
            /\ Take(y)
  /\ UNCHANGED <<pair, rnd, over>>
Finish ==
  /\ over = "no" /\ Len(steps) = (IF Drawn THEN Depth ELSE 3)
  /\ over' = "yes"
  /\ PrintT("SESSION " \o ToJson([a |-> pair[1], aka |-> SetToSeq(Namesakes(pair[1])), b |-> pair[2], steps |-> steps,
        again |-> First(1, Sam(T(1), 3, 1)) \o First(2, Sam(T(2), 3, 1))]))
  /\ UNCHANGED <<pair, slots, rnd, steps>>
Next == Draw \/ Roam \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- *)
\* what is in a slot can be written and comes back the same
Writable == \A s \in Slots : slots[s].on => Ok(T(slots[s].k), slots[s].v)
\* a step changes no other slot, and no step changes what the pair of types is
Alone == [][\A s \in Slots : slots'[s] # slots[s] =>
              LET st == steps'[Len(steps')] IN
              IF st.op = "copy" THEN st.d = s ELSE st.op \in {"put", "make", "dec", "set", "append", "inner", "wipe"} /\ st.s = s]_<<slots, steps>>
SameTypes == [][pair' = pair]_vars
===========================================================================
