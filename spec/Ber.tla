-------------------------------- MODULE Ber -------------------------------
(* A writer that uses the freedom BER leaves: lengths longer than need be or *)
(* indefinite, octet and bit strings in pieces, sets in any order, any       *)
(* nonzero octet for TRUE, defaults spelt out - the same everywhere or drawn *)
(* anew at every element.  However written, a message means the same.        *)
EXTENDS Probes, Json

CONSTANTS Uniform,   \* styles used throughout a message, out of 0..95
          Mixed      \* how many drawn ones per value

VARIABLES at, msg
vars == <<at, msg>>

(* ---- a style is a number *)
Styles == 96
LenOf(q) == (q % 3)                 \* 0 minimal, 1 long form, 2 indefinite
Split(q) == ((q \div 3) % 2) = 1
Turned(q) == ((q \div 6) % 2) = 1
Spelt(q) == ((q \div 12) % 2) = 1
True(q) == IF ((q \div 24) % 2) = 1 THEN 255 ELSE 1
Chunk(q) == 1 + 2 * ((q \div 48) % 2)
\* of part i: the same, or drawn
Inner(q, i) == IF q < Styles THEN q ELSE Styles + (((q * 75) + (i * 31) + 74) % 60000)

LongLen(n) == LET b == NatBytes(n) IN <<128 + Len(b) + 1, 0>> \o b
TlvB(tg, c, q) == Ident(tg) \o
  CASE LenOf(q) = 1 -> LongLen(BLen(c)) \o c
    [] LenOf(q) = 2 /\ tg[3] -> <<128>> \o c \o <<0, 0>>
    [] OTHER -> LenOctets(BLen(c)) \o c
\* (pyasn1 does not read an optional tagged ANY of indefinite length)
Still(r, q) == IF r.k = "ANY" /\ LenOf(q) = 2 THEN q - 2 ELSE q
WrapB(r, tags, c, q) == FoldLeft(LAMBDA b, tg : TlvB(tg, b, Still(r, Inner(q, tg[2]))), c, tags)
Turn(s, q) == IF Turned(q) THEN [i \in 1..Len(s) |-> s[Len(s) + 1 - i]] ELSE s
Parted(s, n) == [i \in 1..((Len(s) + n - 1) \div n) |-> SubSeq(s, 1 + (i - 1) * n, IF i * n > Len(s) THEN Len(s) ELSE i * n)]
CanSplit(r, v, q) == /\ Split(q) /\ r.k \in {"OCT", "BITS"}
                     /\ LET b == IF r.k = "OCT" THEN v.s ELSE v.bs IN Len(b) > 1 /\ ~HasRun(b)
Pieces(r, v, q) ==
  LET ps == Parted(IF r.k = "OCT" THEN v.s ELSE v.bs, Chunk(q)) IN
  FlattenSeq([i \in 1..Len(ps) |-> TlvB(<<UNIV, UnivTag[r.k], FALSE>>, (IF r.k = "OCT" THEN <<>> ELSE IF i = Len(ps) THEN <<v.u>> ELSE <<0>>) \o ps[i], Inner(q, i))])

RECURSIVE EncB(_, _, _), BodyB(_, _, _)
EncB(t, v, q0) == LET r == Res(t) tags == Tags(r) q == Still(r, q0) IN
  IF CanSplit(r, v, q) THEN WrapB(r, [tags EXCEPT ![1][3] = TRUE], Pieces(r, v, q), q) ELSE WrapB(r, tags, BodyB(r, v, q), q)
BodyB(r, v, q) ==
  CASE r.k = "BOOL" -> IF v.b THEN <<True(q)>> ELSE <<0>>
    [] r.k \in {"SEQ", "SET"} ->
         LET written == SelectSeq([j \in 1..Len(r.cs) |-> j],
                          LAMBDA j : IF HasField(v, r.cs[j].n) THEN Spelt(q) \/ ~IsDefault(r.cs[j], Field(v, r.cs[j].n))
                                     ELSE Spelt(q) /\ r.cs[j].o = "DEF" /\ ~Overlooked(r.cs[j]))
             turned == Turn(written, q)
             last(j) == j = Len(r.cs)
             others(j) == j # Len(r.cs)
             \* (of a SET of indefinite length pyasn1 reads nothing behind the component declared last)
             order == IF r.k # "SET" THEN written
                      ELSE IF LenOf(Inner(q, Tags(r)[1][2])) = 2 THEN SelectSeq(turned, others) \o SelectSeq(turned, last) ELSE turned
         IN FlattenSeq(TLCEval([i \in 1..Len(order) |-> LET c == r.cs[order[i]] IN
                          EncB(c.t, IF HasField(v, c.n) THEN Field(v, c.n) ELSE c.d, Inner(q, order[i]))]))
    [] r.k = "CHOICE" -> EncB(AltOf(r, v).t, v.v, Inner(q, 1))
    [] r.k = "SEQOF" -> FlattenSeq([i \in 1..Len(v.l) |-> EncB(r.of, v.l[i], Inner(q, i))])
    [] r.k = "SETOF" -> FlattenSeq(Turn([i \in 1..Len(v.l) |-> EncB(r.of, v.l[i], Inner(q, i))], q))
    [] OTHER -> Body(r, v)

(* ---- reading *)
RECURSIVE SkipAll(_, _)
\* header of the first element; content is start..last, the next element begins at next
HdrB(bs) ==
  IF Len(bs) < 2 \/ bs[1] >= 256 THEN [ok |-> FALSE]
  ELSE LET num == IF (bs[1] % 32) # 31 THEN <<(bs[1] % 32), 2>> ELSE HighTag(bs, 2, 0)
           p == num[2]
       IN IF num[1] < 0 \/ p > Len(bs) THEN [ok |-> FALSE]
          ELSE IF bs[p] # 128 THEN LET h == Hdr(bs) IN
               IF h.ok THEN [ok |-> TRUE, tag |-> h.tag, cons |-> ((bs[1] \div 32) % 2) = 1, start |-> h.start, last |-> h.next - 1, next |-> h.next] ELSE [ok |-> FALSE]
          ELSE IF ((bs[1] \div 32) % 2) = 0 THEN [ok |-> FALSE]
          ELSE LET e == SkipAll(bs, p + 1) IN
               IF e = 0 THEN [ok |-> FALSE]
               ELSE [ok |-> TRUE, tag |-> <<bs[1] \div 64, num[1]>>, cons |-> TRUE, start |-> p + 1, last |-> e - 1, next |-> e + 2]
\* where the end-of-contents octets are, 0 if nowhere
SkipAll(bs, i) == IF i + 1 > Len(bs) THEN 0
                  ELSE IF bs[i] = 0 /\ bs[i + 1] = 0 THEN i
                  ELSE LET h == HdrB(SubSeq(bs, i, Len(bs))) IN IF h.ok THEN SkipAll(bs, i + h.next - 1) ELSE 0

RECURSIVE DecB(_, _), BodyD(_, _), FieldsD(_, _, _, _), SetD(_, _, _), ListD(_, _, _), UnwrapD(_, _, _), Joined(_, _, _)
UnwrapD(tags, i, bs) ==
  LET h == HdrB(bs) IN
  IF ~h.ok \/ h.tag # <<tags[i][1], tags[i][2]>> \/ h.next # Len(bs) + 1 THEN [ok |-> FALSE]
  ELSE LET c == SubSeq(bs, h.start, h.last) IN
       IF i = 1 THEN [ok |-> TRUE, c |-> c, cons |-> h.cons] ELSE UnwrapD(tags, i - 1, c)
\* the octets of a string in pieces
Joined(k, bs, acc) == IF bs = <<>> THEN acc
  ELSE LET h == HdrB(bs) c == SubSeq(bs, h.start, h.last) IN
       Joined(k, SubSeq(bs, h.next, Len(bs)), IF k = "OCT" THEN acc \o c ELSE <<c[1]>> \o (IF acc = <<>> THEN <<>> ELSE Tail(acc)) \o Tail(c))
DecB(t, bs) ==
  LET r == Res(t)
      tags == Tags(r)
      h == HdrB(bs)
  IN IF ~h.ok THEN FAIL
     ELSE IF tags = <<>> /\ r.k = "ANY" THEN OK([a |-> SubSeq(bs, 1, h.next - 1)], SubSeq(bs, h.next, Len(bs)))
     ELSE LET one == SubSeq(bs, 1, h.next - 1)
              in == IF tags = <<>> THEN [ok |-> TRUE, c |-> one, cons |-> TRUE] ELSE UnwrapD(tags, Len(tags), one)
              d == IF ~in.ok THEN FAIL ELSE BodyD(r, IF in.cons /\ r.k \in {"OCT", "BITS"} THEN Joined(r.k, in.c, <<>>) ELSE in.c)
          IN IF d.ok THEN OK(d.v, SubSeq(bs, h.next, Len(bs))) ELSE FAIL
BodyD(r, c) ==
  CASE r.k = "SEQ" -> FieldsD(r.cs, 1, c, <<>>)
    [] r.k = "SET" -> SetD(r.cs, c, <<>>)
    [] r.k \in {"SEQOF", "SETOF"} -> ListD(r.of, c, <<>>)
    [] r.k = "CHOICE" -> LET h == HdrB(c) IN
         IF ~h.ok \/ ~\E i \in 1..Len(r.cs) : Starts(r.cs[i].t, h.tag) THEN FAIL
         ELSE LET i == CHOOSE i \in 1..Len(r.cs) : Starts(r.cs[i].t, h.tag) /\ \A j \in 1..Len(r.cs) : Starts(r.cs[j].t, h.tag) => j >= i
                  d == DecB(r.cs[i].t, c)
              IN IF d.ok THEN OK([ch |-> r.cs[i].n, v |-> d.v], <<>>) ELSE FAIL
    [] OTHER -> LET d == ScalarOf(r, c) IN IF d.ok /\ HoldsAll(r, d.v) THEN d ELSE FAIL
FieldsD(cs, j, bs, acc) ==
  IF j > Len(cs) THEN (IF bs = <<>> THEN OK([f |-> acc], <<>>) ELSE FAIL)
  ELSE LET c == cs[j]
           h == IF bs = <<>> THEN [ok |-> FALSE] ELSE HdrB(bs)
       IN IF bs # <<>> /\ ~h.ok THEN FAIL
          ELSE IF bs # <<>> /\ Starts(c.t, h.tag)
          THEN LET d == DecB(c.t, bs) IN IF d.ok THEN FieldsD(cs, j + 1, d.rest, Append(acc, [n |-> c.n, v |-> d.v])) ELSE FAIL
          ELSE IF c.o = "REQ" THEN FAIL
          ELSE FieldsD(cs, j + 1, bs, IF c.o = "DEF" THEN Append(acc, [n |-> c.n, v |-> Full(c.t, c.d)]) ELSE acc)
SetD(cs, bs, acc) ==
  IF bs = <<>>
  THEN LET got == {acc[i][1] : i \in 1..Len(acc)}
           val(j) == acc[CHOOSE i \in 1..Len(acc) : acc[i][1] = j][2]
           keep == SelectSeq([j \in 1..Len(cs) |-> j], LAMBDA j : j \in got \/ cs[j].o = "DEF")
       IN IF \E j \in 1..Len(cs) : cs[j].o = "REQ" /\ j \notin got THEN FAIL
          ELSE OK([f |-> [i \in 1..Len(keep) |-> [n |-> cs[keep[i]].n,
                     v |-> IF keep[i] \in got THEN val(keep[i]) ELSE Full(cs[keep[i]].t, cs[keep[i]].d)]]], <<>>)
  ELSE LET h == HdrB(bs)
           cand == IF h.ok THEN {j \in 1..Len(cs) : Starts(cs[j].t, h.tag) /\ \A i \in 1..Len(acc) : acc[i][1] # j} ELSE {}
       IN IF cand = {} THEN FAIL
          ELSE LET j == CHOOSE j \in cand : \A i \in cand : j <= i
                   d == DecB(cs[j].t, bs)
               IN IF d.ok THEN SetD(cs, d.rest, Append(acc, <<j, d.v>>)) ELSE FAIL
ListD(t, bs, acc) == IF bs = <<>> THEN OK([l |-> acc], <<>>)
  ELSE LET d == DecB(t, bs) IN IF d.ok THEN ListD(t, d.rest, Append(acc, d.v)) ELSE FAIL

(* ---- the writer at work *)
Init == /\ at \in {s \in Roots : ~(Plain(RootTerm(s.m, s.n)))}
        /\ msg = [k |-> "none"]
Walk == /\ msg.k = "none"
        /\ \E i \in 1..Arity(TermAt(HomeOf(at))) : at' = Child(at, i)
        /\ UNCHANGED msg
Scalar(t) == Res(t).k \notin Structured \cup {"CHOICE"}
Message(s, v, q) ==
  LET t == TermAt(s)
      octs == TLCEval(EncB(t, v, q))
      d == TLCEval(DecB(t, octs))
  IN [k |-> "written", m |-> s.m, n |-> s.n, p |-> s.p, q |-> q, v |-> v, octs |-> octs, ok |-> d.ok /\ d.rest = <<>>,
      full |-> d.v, der |-> Enc(t, v), der2 |-> TRUE]
\* times with the precision and the zone left to the writer (DER allows one form only)
TimeForms(k) ==
  LET day == <<48, 51, 48, 50, 48, 49, 49, 51>>  \* 03-02-01 13
      min == <<49, 53>>
      zones == {<<90>>, <<43, 48, 50, 51, 48>>, <<45, 49, 49, 48, 48>>}
      tails == IF k = "UTCT" THEN {min, min \o <<53, 57>>}
               ELSE {<<>>, <<46, 53>>, min, min \o <<44, 50, 53>>, min \o <<53, 57>>, min \o <<53, 57, 46, 49, 50, 48>>}
  IN {VSTR((IF k = "UTCT" THEN <<>> ELSE <<50, 48>>) \o day \o x \o z) : x \in tails, z \in zones \cup (IF k = "GENT" THEN {<<>>} ELSE {})}
Drawn(salt, x) == Styles + (((salt * 977) + (x * 7919) + (Len(at.p) * 401)) % 60000)
Write ==
  /\ msg.k = "none"
  /\ LET t == TermAt(at) IN
     /\ (HasAmbiguity(t) \/ Res(t).k = "ANY") = FALSE
     /\ \E salt \in Salts :
          \/ \E fuel \in (IF Scalar(t) THEN {0} ELSE {1, 2}) :
               \E v \in {TLCEval(Sam(t, salt + fuel, fuel))} :
                 /\ Legal(t, v) = TRUE
                 /\ \E q \in Uniform \cup {Drawn(salt, x) : x \in 1..Mixed} : msg' = Message(at, v, q)
          \/ \E ps \in {TLCEval(ValGroup(t, salt + 1))} : \E i \in 1..Len(ps) :
               msg' = Message(at, ps[i].v, Drawn(salt, i))
          \/ Res(t).k \in {"UTCT", "GENT"} /\ \E v \in TimeForms(Res(t).k) :
               msg' = [Message(at, v, Drawn(salt, 3)) EXCEPT !.der2 = FALSE]
  /\ PrintT("BER " \o ToJson(msg'))
  /\ UNCHANGED at
Next == Walk \/ Write
Spec == Init /\ [][Next]_vars

(* ---- *)
SameValue == msg.k = "written" => msg.ok /\ Enc(TermAt(at), msg.full) = msg.der
\* the plainest style is DER, but for the order of sets and TRUE
DerToo == (msg.k = "written") => LET d == DecB(TermAt(at), msg.der) IN d.ok /\ d.rest = <<>> /\ d.v = Full(TermAt(at), msg.v)
===========================================================================
