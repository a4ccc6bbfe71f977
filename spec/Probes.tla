------------------------------- MODULE Probes -----------------------------
(* Values and octet strings that tell a schema object from a wrong one.     *)
EXTENDS Sites

CONSTANT Salts     \* which families of sample values to take (positive integers)

(* ------------------------------------------------------------------------ *)
(* Sample values.  salt varies with the position so that two components of  *)
(* the same type never carry the same value.                                *)
RECURSIVE FlatCons(_)
FlatCons(cs) == FlattenSeq([i \in 1..Len(cs) |-> IF cs[i].q = "either" THEN FlatCons(cs[i].cs) ELSE <<cs[i]>>])
ConsOf(r, q) == SelectSeq(FlatCons(r.c), LAMBDA c : c.q = q)

Letters(r) == LET a == ConsOf(r, "alphabet") IN
              IF a # <<>> THEN a[1].cs
              ELSE IF r.k = "NUMERIC" THEN <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57>>
              ELSE [i \in 1..26 |-> 96 + i]
LongChar(r) == CASE r.k = "BMP" -> 24929 [] r.k = "UNIVERSAL" -> 0 [] OTHER -> Letters(r)[1]
Digit2(n) == <<48 + ((n \div 10) % 10), 48 + (n % 10)>>
TimeTail(salt) == Digit2(1 + (salt % 12)) \o Digit2(1 + (salt % 28)) \o Digit2(salt % 24) \o Digit2(salt % 60) \o Digit2((salt * 7) % 60) \o <<90>>
MkSized(r, n, salt) ==
  CASE r.k = "OCT" -> [s |-> IF n <= 16 THEN [i \in 1..n |-> ((salt * 3 + i * 7) % 250) + 1] ELSE Run(n, 97)]
    [] r.k = "BITS" ->
         LET u == (8 - (n % 8)) % 8
             last == IF u = 7 THEN 128 ELSE IF u = 0 THEN 129 + 2 * (salt % 60) ELSE 128 + 2 ^ u
             w == (n + 7) \div 8
         IN IF n = 0 THEN [u |-> 0, bs |-> <<>>]
            ELSE [u |-> u, bs |-> (IF w <= 16 THEN [i \in 1..w - 1 |-> (salt + i) % 256] ELSE Run(w - 1, 85)) \o <<last>>]
    [] OTHER -> LET a == Letters(r) IN
                [s |-> IF n <= 16 THEN [i \in 1..n |-> a[((salt * 3 + i) % Len(a)) + 1]]
                       ELSE [i \in 1..(n \div 1000) |-> 1000 * CHARRUN + LongChar(r)]
                            \o (LET m == n % 1000 IN IF m = 0 THEN <<>> ELSE IF m = 1 THEN <<LongChar(r)>> ELSE <<m * CHARRUN + LongChar(r)>>)]
SizesFor(r) == LET z == ConsOf(r, "size") IN
   <<3>> \o [i \in 1..Len(z) |-> z[i].lo] \o <<1, 2>> \o [i \in 1..Len(z) |-> IF z[i].hi = MAXSIZE THEN 4 ELSE z[i].hi]
AnySample(salt) == [a |-> <<4, 2, (salt % 256), 77>>]
Sized == {"OCT", "BITS"} \cup (CharKinds \ {"UTCT", "GENT"})
\* candidate values of a scalar type, the preferred ones first
Cands(r, salt) ==
  LET vs == ConsOf(r, "values")
      listed == IF vs = <<>> THEN <<>> ELSE LET x == vs[1].vs IN [i \in 1..Len(x) |-> x[((salt + i) % Len(x)) + 1]]
      rs == ConsOf(r, "range")
      nums == [i \in 1..Len(r.nv) |-> VI(r.nv[((salt + i) % Len(r.nv)) + 1].v)]
  IN listed \o
  CASE r.k = "INT" -> <<VI(1 + (salt % 100))>> \o FlattenSeq([i \in 1..Len(rs) |->
                          (IF rs[i].lo = NOBOUND THEN <<>> ELSE <<VBIG(rs[i].lo)>>)
                          \o (IF rs[i].hi = NOBOUND THEN <<>> ELSE <<VBIG(rs[i].hi)>>)])
    [] r.k = "ENUM" -> nums \o <<VI(0)>>
    [] r.k = "BOOL" -> <<VB(salt % 2 = 1)>>
    [] r.k = "NULL" -> <<VNULL>>
    [] r.k = "OID" -> <<VOID(<<1, 3, 6 + (salt % 30), 1000 + salt>>)>>
    [] r.k = "ANY" -> <<AnySample(salt)>> \o LET z == ConsOf(r, "size") IN [i \in 1..Len(z) |-> [a |-> <<4, z[i].lo>> \o Run(z[i].lo, 97)]]
    [] r.k = "UTCT" -> <<VSTR(Digit2(salt) \o TimeTail(salt))>>
    [] r.k = "GENT" -> <<VSTR(<<50, 48>> \o Digit2(salt) \o TimeTail(salt))>>
    [] OTHER -> [i \in 1..Len(SizesFor(r)) |-> MkSized(r, SizesFor(r)[i], salt)]
LegalCands(r, cands) == SelectSeq(cands, LAMBDA v : HoldsAll(r, v))

\* presence constraints: what has to be there and what must not, in one reading
RECURSIVE Pick(_)
Pick(cs) == FlattenSeq([i \in 1..Len(cs) |->
              CASE cs[i].q = "with" -> cs[i].fs [] cs[i].q = "either" -> Pick(<<cs[i].cs[1]>>) [] OTHER -> <<>>])
Forced(r) == LET p == Pick(r.c) IN {p[i][1] : i \in {j \in 1..Len(p) : p[j][2]}}
Barred(r) == LET p == Pick(r.c) IN {p[i][1] : i \in {j \in 1..Len(p) : ~p[j][2]}}
MinNames(r) == LET req == {r.cs[i].n : i \in {j \in 1..Len(r.cs) : r.cs[j].o = "REQ"}} \cup Forced(r)
               IN IF req = {} /\ Len(r.cs) > 0 THEN {r.cs[1].n} ELSE req
AllNames(r) == {r.cs[i].n : i \in 1..Len(r.cs)} \ Barred(r)
NextSalt(salt, i) == (salt * 5 + i * 3 + 1) % 97

RECURSIVE Sam(_, _, _), SamFields(_, _, _, _), OtherThan(_, _, _, _)
\* fuel: how many levels of optional components to include
Sam(t, salt, fuel) ==
  LET r == Res(t) IN
  CASE r.k \in {"SEQ", "SET"} -> SamFields(r, IF fuel > 0 THEN AllNames(r) ELSE MinNames(r), salt, fuel)
    [] r.k = "CHOICE" -> LET i == IF fuel > 0 THEN (salt % Len(r.cs)) + 1 ELSE 1
                         IN [ch |-> r.cs[i].n, v |-> Sam(r.cs[i].t, NextSalt(salt, i), fuel - 1)]
    [] r.k \in {"SEQOF", "SETOF"} ->
         LET z == ConsOf(r, "size")
             n == IF z # <<>> /\ z[1].lo > 1 THEN z[1].lo ELSE IF fuel > 2 /\ (z = <<>> \/ z[1].hi = MAXSIZE \/ z[1].hi >= 2) THEN 2 ELSE 1
         IN [l |-> TLCEval([i \in 1..n |-> Sam(r.of, NextSalt(salt, i), fuel - 1)])]
    [] OTHER -> LegalCands(r, Cands(r, salt))[1]
SamFields(r, names, salt, fuel) ==
  LET cs == SelectSeq([i \in 1..Len(r.cs) |-> i], LAMBDA i : r.cs[i].n \in names)
  IN [f |-> TLCEval([j \in 1..Len(cs) |->
        [n |-> r.cs[cs[j]].n,
         v |-> IF r.cs[cs[j]].o = "DEF" THEN OtherThan(r.cs[cs[j]], NextSalt(salt, cs[j]), fuel - 1, 0)
               ELSE Sam(r.cs[cs[j]].t, NextSalt(salt, cs[j]), fuel - 1)]])]
\* a value of a component other than its default
OtherThan(c, salt, fuel, tries) ==
  LET v == Sam(c.t, salt + tries, fuel) IN
  IF tries > 8 \/ ~IsDefault(c, v) THEN v ELSE OtherThan(c, salt, fuel, tries + 1)

(* ------------------------------------------------------------------------ *)
(* Probes: g group, why a label, and what is expected                       *)
(*   val  v        : v can be built, encodes to der, decodes to full        *)
(*   bad  v        : v cannot be built and encoded                          *)
(*   dec  der      : decoding gives full when ok, is refused otherwise      *)
ValP(t, v, why) == [k |-> "val", why |-> why, v |-> v, der |-> Enc(t, v), full |-> Full(t, v)]
BadP(v, why) == [k |-> "bad", why |-> why, v |-> v]
DecP(t, bs, why) == LET d == Dec(t, bs) IN
   IF d.ok /\ d.rest = <<>> THEN [k |-> "dec", why |-> why, der |-> bs, ok |-> TRUE, full |-> d.v]
   ELSE [k |-> "dec", why |-> why, der |-> bs, ok |-> FALSE]

\* values every type must carry
ScalarVals(r) ==
  CASE r.k = "INT" -> <<VI(0), VI(1), VI(127), VI(128), VI(-1), VI(-129), VI(65537), VBIG(<<1, 0, 0, 0, 0, 0, 0, 0, 0>>)>>
    [] r.k = "ENUM" -> [i \in 1..Len(r.nv) |-> VI(r.nv[i].v)]
    [] r.k = "BOOL" -> <<VB(TRUE), VB(FALSE)>>
    [] r.k = "OID" -> <<VOID(<<2, 999, 3>>), VOID(<<0, 9, 2342, 19200300>>), VOID(<<1, 2, 840, 113549>>)>>
    [] r.k = "UTF8" -> <<VSTR(<<233, 20013, 128512>>), VSTR(<<>>)>>
    [] r.k = "BMP" -> <<VSTR(<<233, 20013>>)>>
    [] r.k = "UNIVERSAL" -> <<VSTR(<<128512>>)>>
    [] r.k = "BITS" -> <<VBITS(0, <<>>), VBITS(7, <<128>>), VBITS(0, <<1, 255>>)>>
    [] r.k = "OCT" -> <<VOCT(<<>>), VOCT(<<0>>), VOCT(<<255, 128>>)>>
    [] OTHER -> <<>>
\* and some that are large or unusual: nothing the RFC does not limit is limited
\* short ones that tidying would change: blanks around and inside, letters of
\* both cases, characters that have another form
Untidy(r) ==
  CASE r.k \in {"UTF8", "BMP", "UNIVERSAL"} -> <<VSTR(<<32, 97, 32>>), VSTR(<<65, 98>>), VSTR(<<97, 32, 32, 98>>), VSTR(<<101, 769>>), VSTR(<<64257>>), VSTR(<<65279, 97>>), VSTR(<<10, 9>>), VSTR(<<0>>), VSTR(<<48, 48, 55>>)>>
    [] r.k \in {"VISIBLE", "PRINTABLE", "IA5", "TELETEX", "GENERAL"} -> <<VSTR(<<32, 97, 32>>), VSTR(<<65, 98>>), VSTR(<<97, 32, 32, 98>>), VSTR(<<48, 48, 55>>)>>
    [] r.k = "NUMERIC" -> <<VSTR(<<32, 49, 32>>), VSTR(<<48, 48, 55>>)>>
    [] r.k = "OCT" -> <<VOCT(<<0, 5, 0>>), VOCT(<<32, 65, 10>>), VOCT(<<4, 1, 0>>)>>
    [] r.k = "BITS" /\ r.nv = <<>> -> <<VBITS(4, <<160>>), VBITS(0, <<128, 0>>), VBITS(0, <<0, 1>>), VBITS(1, <<0>>)>>
    [] r.k = "ANY" -> <<[a |-> <<5, 0>>], [a |-> <<4, 1, 0>>], [a |-> <<48, 0>>], [a |-> <<1, 1, 255>>], [a |-> <<12, 3, 32, 97, 32>>], [a |-> <<49, 5, 2, 1, 0, 5, 0>>],
                        [a |-> <<191, 129, 0, 3, 2, 1, 5>>], [a |-> <<4, 130, 1, 44>> \o Run(300, 97)]>>
    [] OTHER -> <<>>
\* the same at the sizes a constraint allows: nothing at the ends, or blanks
OddSized(r) ==
  LET z == ConsOf(r, "size")
      ns == SetToSortSeq({n \in UNION {{z[i].lo, z[i].lo + 1, z[i].lo + 3, z[i].hi} : i \in 1..Len(z)} : n > 0 /\ n <= 300}, <)
      one(n) == CASE r.k = "OCT" -> <<VOCT([i \in 1..n |-> IF i \in {1, n} THEN 0 ELSE 5]), VOCT([i \in 1..n |-> IF i \in {1, n} THEN 32 ELSE 65])>>
                  [] r.k = "BITS" -> <<VBITS((8 - (n % 8)) % 8, [i \in 1..((n + 7) \div 8) |-> 0])>>
                  [] r.k = "NUMERIC" -> <<VSTR([i \in 1..n |-> IF i \in {1, n} THEN 32 ELSE 48])>>
                  [] OTHER -> <<VSTR([i \in 1..n |-> IF i \in {1, n} THEN 32 ELSE IF i % 2 = 0 THEN 97 ELSE 65]), VSTR([i \in 1..n |-> 48])>>
  IN IF r.k \notin Sized \/ r.nv # <<>> THEN <<>> ELSE FlattenSeq([i \in 1..Len(ns) |-> one(ns[i])])
Letterings(r) ==
  CASE r.k \in {"VISIBLE", "IA5", "TELETEX", "UTF8", "GENERAL"} -> <<VSTR([i \in 1..95 |-> 31 + i])>>
                 \o (IF r.k \in {"IA5", "UTF8", "TELETEX"} THEN <<VSTR(<<0, 7, 9, 10, 13, 27, 127>>)>> ELSE <<>>)
                 \o (IF r.k = "TELETEX" THEN <<VSTR(<<161, 233, 255>>)>> ELSE <<>>)
    [] r.k = "PRINTABLE" -> <<VSTR([i \in 1..26 |-> 64 + i] \o [i \in 1..26 |-> 96 + i] \o [i \in 1..10 |-> 47 + i] \o <<32, 39, 40, 41, 43, 44, 45, 46, 47, 58, 61, 63>>)>>
    [] r.k = "NUMERIC" -> <<VSTR(<<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 32>>)>>
    [] r.k \in {"BMP", "UNIVERSAL"} -> <<VSTR([i \in 1..95 |-> 31 + i] \o <<8364>>)>>
    [] OTHER -> <<>>
LargeVals(r) ==
  CASE r.k = "INT" -> [i \in 1..16 |-> VI(<<2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 32, 64, 100, 256, 1000, 100000>>[i])] \o
                      <<VBIG(<<127>> \o [i \in 1..19 |-> 255]), VBIG([i \in 1..257 |-> 1]), VBIG([i \in 1..1025 |-> 1]), VBIG(<<129>> \o [i \in 1..20 |-> 3]), VI(2147483647), VBIG(<<0, 255, 255, 255, 255>>)>>
    [] r.k = "OID" -> <<VOID(<<1, 3>> \o [i \in 1..40 |-> 100 * i]), VOID(<<2, 25>> \o [i \in 1..130 |-> 16777000 + i]), VOID(<<1, 2, 2147483647>>), VOID(<<2, 5>>), VOID(<<0, 0>>)>>
    [] r.k = "OCT" -> <<VOCT([i \in 1..256 |-> 256 - i]), MkSized(r, 5, 1), MkSized(r, 17, 1), MkSized(r, 33, 1), MkSized(r, 65, 1), MkSized(r, 129, 1), MkSized(r, 301, 1), MkSized(r, 70001, 1)>>
    [] r.k = "BITS" -> <<MkSized(r, 5, 1), MkSized(r, 17, 1), MkSized(r, 33, 1), MkSized(r, 77, 1), MkSized(r, 129, 1), MkSized(r, 4099, 1), MkSized(r, 70003, 1)>>
    [] r.k = "GENT" -> <<VSTR(<<49, 57, 57, 57>> \o TimeTail(3)), VSTR(<<50, 48, 53, 48, 48, 49, 48, 49, 48, 48, 48, 48, 48, 48, 90>>), VSTR(<<49, 57, 52, 57, 49, 50, 51, 49, 50, 51, 53, 57, 53, 57, 90>>), VSTR(<<50, 48, 48, 48, 48, 50, 50, 57, 49, 50, 48, 48, 48, 48, 90>>), VSTR(<<57, 57, 57, 57, 49, 50, 51, 49, 50, 51, 53, 57, 53, 57, 90>>),
                           VSTR(<<50, 48, 48, 51, 48, 50, 48, 49, 49, 51, 49, 53, 48, 50, 46, 51, 50, 53, 90>>)>>  \* with a fraction
    [] r.k = "UTCT" -> <<VSTR(<<53, 48, 48, 49, 48, 49, 48, 48, 48, 48, 48, 48, 90>>), VSTR(<<52, 57, 49, 50, 51, 49, 50, 51, 53, 57, 53, 57, 90>>), VSTR(<<57, 57, 49, 50, 51, 49, 50, 51, 53, 57, 53, 57, 90>>), VSTR(<<48, 48, 48, 50, 50, 57, 49, 50, 48, 48, 48, 48, 90>>)>>
    [] r.k \in Sized -> Letterings(r) \o <<MkSized(r, 0, 1), MkSized(r, 1, 1), MkSized(r, 5, 1), MkSized(r, 17, 1), MkSized(r, 33, 1), MkSized(r, 65, 1), MkSized(r, 129, 1), MkSized(r, 301, 1), MkSized(r, 70001, 1)>>
    [] OTHER -> <<>>
LongList(r) == [l |-> TLCEval([i \in 1..(IF Cardinality(Salts) > 2 THEN 150 ELSE 70) |-> Sam(r.of, i % 90, 0)])]
\* and very long ones, all of one element: pre is what comes before the elements
Hdrs(tags, len) == FoldLeft(LAMBDA h, tg : Ident(tg) \o LenOctets(len + Len(h)) \o h, <<>>, tags)
ManyOf(r, n) == LET e == Sam(r.of, 4, 0) o == TLCEval(Enc(r.of, e)) IN
  IF \A i \in 1..Len(r.c) : r.c[i].q = "size" /\ r.c[i].lo <= n /\ (r.c[i].hi = MAXSIZE \/ r.c[i].hi >= n)
  THEN <<[k |-> "many", why |-> ToString(n) \o " elements", n |-> n, v |-> e, full |-> Full(r.of, e), der |-> o, pre |-> Hdrs(Tags(r), n * BLen(o))]>> ELSE <<>>
Without(r, v, n) == [f |-> SelectSeq(v.f, LAMBDA x : x.n # n)]
WithField(r, v, n, x) ==  \* v with component n set to x, schema order kept
  LET cs == SelectSeq(r.cs, LAMBDA c : c.n = n \/ HasField(v, c.n))
  IN [f |-> TLCEval([i \in 1..Len(cs) |-> [n |-> cs[i].n, v |-> IF cs[i].n = n THEN x ELSE Field(v, cs[i].n)]])]
CompVal(r, i, salt) == IF r.cs[i].o = "DEF" THEN OtherThan(r.cs[i], NextSalt(salt, i), 0, 0)
                       ELSE Sam(r.cs[i].t, NextSalt(salt, i), 0)
Least(t, salt) == Sam(t, salt, 0)
OptIdx(r) == SelectSeq([i \in 1..Len(r.cs) |-> i], LAMBDA i : r.cs[i].o # "REQ")
ReqIdx(r) == SelectSeq([i \in 1..Len(r.cs) |-> i], LAMBDA i : r.cs[i].o = "REQ")

\* RFC 6402 leaves the messages of ChangeSubjectName ambiguous (two OPTIONAL
\* components with the same tag): they can be written, not read
HasAmbiguity(t) == Res(t) = Res(R("rfc6402", "ChangeSubjectName"))
\* what a component may say that could bear on the others: each named value, each
\* alternative, in the least and in the full message
Says(r, c) ==
  LET u == Res(c.t) n == Len(u.nv) m == Len(u.cs) IN
  CASE u.k \in {"INT", "ENUM"} -> SelectSeq([i \in 1..(IF n > 8 THEN 8 ELSE n) |-> VI(u.nv[i].v)], LAMBDA v : HoldsAll(u, v))
    [] u.k = "BOOL" -> <<VB(TRUE), VB(FALSE)>>
    [] u.k = "CHOICE" -> [i \in 1..(IF m > 8 THEN 8 ELSE m) |-> [ch |-> u.cs[i].n, v |-> Least(u.cs[i].t, NextSalt(4, i))]]
    [] OTHER -> <<>>
Crossed(t, r) ==
  LET a == SamFields(r, AllNames(r), 3, 0) m == Least(t, 3)
      one(i) == LET c == r.cs[i] vs == Says(r, c) IN
        FlattenSeq([j \in 1..Len(vs) |->
           IF c.o = "DEF" /\ IsDefault(c, vs[j]) THEN <<>>
           ELSE (IF HasField(a, c.n) THEN <<<<WithField(r, a, c.n, vs[j]), "all, with each " \o c.n>>>> ELSE <<>>)
                \o (IF HasField(m, c.n) THEN <<<<WithField(r, m, c.n, vs[j]), "minimal, with each " \o c.n>>>> ELSE <<>>)])
  IN IF Len(OptIdx(r)) = 0 THEN <<>> ELSE FlattenSeq([i \in 1..Len(r.cs) |-> one(i)])
WriteOnly(ps) == [i \in 1..Len(ps) |-> [ps[i] EXCEPT !.k = "enc"]]
ValGroup(t, salt) ==
  LET r == Res(t) IN
  CASE r.k \in {"SEQ", "SET"} ->
         LET m == Least(t, salt)
             opts == OptIdx(r)
             cands == <<<<m, "minimal">>>>
                      \o [i \in 1..Len(opts) |-> <<WithField(r, m, r.cs[opts[i]].n, CompVal(r, opts[i], salt)), "with " \o r.cs[opts[i]].n>>]
                      \o <<<<SamFields(r, AllNames(r), salt + 1, 0), "all components">>>>
                      \o (IF salt # 1 \/ Len(opts) < 3 THEN <<>>
                          ELSE [i \in 1..Len(opts) |-> <<SamFields(r, AllNames(r) \ {r.cs[opts[i]].n}, salt + 2, 0), "all but " \o r.cs[opts[i]].n>>])
                      \o (IF salt = 1 THEN Crossed(t, r) ELSE <<>>)
             ok == SelectSeq(cands, LAMBDA x : HoldsAll(r, x[1]))
         IN [i \in 1..Len(ok) |-> ValP(t, ok[i][1], ok[i][2])]
    [] r.k = "CHOICE" -> [i \in 1..Len(r.cs) |-> ValP(t, [ch |-> r.cs[i].n, v |-> Least(r.cs[i].t, NextSalt(salt, i))], "alternative " \o r.cs[i].n)]
    [] r.k \in {"SEQOF", "SETOF"} ->
         LET lists == <<[l |-> <<Least(r.of, salt)>>], [l |-> <<Least(r.of, salt + 8), Least(r.of, salt + 3)>>],
                        [l |-> <<Least(r.of, salt + 3), Least(r.of, salt + 8), Least(r.of, salt)>>], [l |-> <<>>],
                        [l |-> <<Least(r.of, salt + 8), Least(r.of, salt + 8)>>]>>
                      \o (IF salt = 1 THEN <<LongList(r)>> ELSE <<>>)
             ok == SelectSeq(lists, LAMBDA v : HoldsAll(r, v))
         IN [i \in 1..Len(ok) |-> ValP(t, ok[i], ToString(Len(ok[i].l)) \o " elements")]
            \o (IF salt = 1 THEN ManyOf(r, 1030) ELSE <<>>)
    [] OTHER -> LET ok == LegalCands(r, Cands(r, salt) \o (IF salt = 1 THEN ScalarVals(r) \o Untidy(r) \o OddSized(r) \o LargeVals(r) ELSE <<>>)) IN [i \in 1..Len(ok) |-> ValP(t, ok[i], "value")]

DeepGroup(t, salt) == LET a == Sam(t, salt, 3) b == Sam(t, salt + 10, 2) IN
  IF Res(t).k \notin {"SEQ", "SET", "CHOICE", "SEQOF", "SETOF"} THEN <<>>
  ELSE SelectSeq(<<ValP(t, a, "three levels of optional components"), ValP(t, b, "two levels of optional components")>>,
                 LAMBDA p : Legal(t, p.v))

\* (4) constraint boundaries
MAXPROBE == 70000
\* between the bounds and far from them, so that no constraint has gaps or islands
Spread == {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 19, 20, 21, 24, 25, 28, 30, 31, 32, 33, 40, 48, 50, 63, 64, 65, 70, 80, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257}
Far == {-2000000000, -70000, -256, -129, -2, -1, 300, 400, 483, 500, 999, 1000, 1023, 1024, 1500, 4095, 4096, 9999, 10000, 32767, 32768, 65534, 65535, 65536, 99999, 100000, 1000000, 16777215, 16777216, 308915776, 2147483646, 2147483647}
LenSpread(r, z) == IF z = <<>> THEN {} ELSE IF r.k \in {"SEQOF", "SETOF"} THEN {n \in Spread : n < 22} ELSE Spread \cup {1000}
LenCands(r) == LET z == ConsOf(r, "size")
                   all == LenSpread(r, z) \cup UNION {{z[i].lo - 1, z[i].lo, z[i].lo + 1} \cup (IF z[i].hi = MAXSIZE THEN {} ELSE {z[i].hi - 1, z[i].hi} \cup (IF z[i].hi < MAXPROBE THEN {z[i].hi + 1} ELSE {})) : i \in 1..Len(z)}
               IN SetToSeq({n \in all : n >= 0 /\ n <= MAXPROBE})
RangeCands(r) == LET z == ConsOf(r, "range") sp == SetToSortSeq(Spread \cup Far, <) IN
  (IF z = <<>> THEN <<>> ELSE [i \in 1..Len(sp) |-> VI(sp[i])]) \o FlattenSeq([i \in 1..Len(z) |->
    (IF z[i].lo = NOBOUND THEN <<>> ELSE <<VBIG(IntAdd1(z[i].lo, -1)), VBIG(z[i].lo), VBIG(IntAdd1(z[i].lo, 1))>>)
    \o (IF z[i].hi = NOBOUND THEN <<>> ELSE <<VBIG(IntAdd1(z[i].hi, -1)), VBIG(z[i].hi), VBIG(IntAdd1(z[i].hi, 1))>>)])
ValueCands(r) == LET z == ConsOf(r, "values") IN
  FlattenSeq([i \in 1..Len(z) |-> z[i].vs]) \o
  (IF z = <<>> THEN <<>>
   ELSE CASE r.k \in {"INT", "ENUM"} -> LET sp == SetToSortSeq({n \in Spread \cup Far : n < 20 \/ n > 65000}, <) IN [i \in 1..Len(sp) |-> VI(sp[i])]
          [] r.k = "OID" -> LET o == z[1].vs[1].o n == Len(o) IN
               <<VOID(<<1, 3, 6, 1>>), VOID(o \o <<1>>), VOID(SubSeq(o, 1, n - 1)), VOID([o EXCEPT ![n] = @ + 1]), VOID([o EXCEPT ![n] = @ + 128])>>
          [] r.k \in CharKinds -> <<VSTR(<<90>>), VSTR(z[1].vs[1].s \o <<65>>)>>
          [] OTHER -> <<>>)
AlphaCands(r) == IF ConsOf(r, "alphabet") = <<>> THEN <<>> ELSE [i \in 1..127 |-> VSTR(<<i>>)]
\* one list element per integer so that they differ
SizedList(r, n) == [l |-> TLCEval([i \in 1..n |-> IF n > 40 THEN Least(r.of, 5) ELSE Least(r.of, i)])]
SubsetCands(r) == IF SelectSeq(r.c, LAMBDA c : c.q \in {"with", "either"}) = <<>> THEN <<>>
   ELSE LET opt == {r.cs[i].n : i \in {j \in 1..Len(r.cs) : r.cs[j].o # "REQ"}}
            req == {r.cs[i].n : i \in {j \in 1..Len(r.cs) : r.cs[j].o = "REQ"}}
        IN LET ss == SetToSeq(SUBSET opt) IN [i \in 1..Len(ss) |-> SamFields(r, req \cup ss[i], 3, 0)]
BndValues(r) ==
  CASE r.k \in {"SEQ", "SET"} -> SubsetCands(r)
    [] r.k \in {"SEQOF", "SETOF"} -> LET z == LenCands(r) IN [i \in 1..Len(z) |-> SizedList(r, z[i])]
    [] r.k \in Sized -> (LET z == LenCands(r) IN [i \in 1..Len(z) |-> MkSized(r, z[i], 1)]) \o ValueCands(r) \o AlphaCands(r)
    [] r.k \in {"INT", "ENUM"} -> RangeCands(r) \o ValueCands(r)
    [] r.k = "OID" -> ValueCands(r)
    [] OTHER -> <<>>
BndGroup(t) ==
  LET r == Res(t) IN
  IF r.c = <<>> THEN <<>>
  ELSE LET vs == BndValues(r) IN FlattenSeq([i \in 1..Len(vs) |->
         IF HoldsAll(r, vs[i]) THEN <<ValP(t, vs[i], "inside the constraint")>>
         ELSE <<BadP(vs[i], "outside the constraint")>>
              \o (IF r.k \in Structured THEN <<>> ELSE <<DecP(t, Enc(t, vs[i]), "outside the constraint")>>)])

\* mandatory components that a fresh object of the type has already: the version
\* of an SNMPv1 message, the kind of name that siren_dn stands for
Presets == {[m |-> "rfc1157", n |-> "Message", c |-> "version", v |-> VI(0)],
            [m |-> "rfc7191", n |-> "siren_dn", c |-> "sirenType", v |-> ValueTab["rfc7191"]["id_dn"].v]}
\* (siren_dn is spelt as SIREntityName, which has no preset)
PresetsOf(t) == {<<x.c, IF x.n = "siren_dn" THEN VNULL ELSE x.v>> : x \in {x \in Presets : Res(t) = Res(R(x.m, x.n))}}
IsPreset(t, n) == \E x \in PresetsOf(t) : x[1] = n
PresetProbes(t) ==
  LET q == SetToSeq({x \in PresetsOf(t) : x[2] # VNULL})
  IN [i \in 1..Len(q) |-> [k |-> "enc", why |-> q[i][1] \o " left to the module", v |-> Without(Res(t), Least(t, 1), q[i][1]),
                           der |-> Enc(t, WithField(Res(t), Least(t, 1), q[i][1], q[i][2]))]]

\* (5) DEFAULT
RECURSIVE HasOpen(_)
HasOpen(v) == "a" \in DOMAIN v \/ ("f" \in DOMAIN v /\ \E i \in 1..Len(v.f) : HasOpen(v.f[i].v))
\* a default the implementation does not recognise (a known finding)
Overlooked(c) == c.o = "DEF" /\ c.n = "prf" /\ HasOpen(c.d) /\ "KF-default-null-8018" \in Deviations
\* set to the default, and to the object the module has for it
SetP(t, v, c, spelt) ==
  LET p == ValP(t, v, "default of " \o c.n \o " set") IN
  IF Overlooked(c) THEN [p EXCEPT !.k = "enc", !.der = spelt] ELSE p
OwnP(t, b, c) == [k |-> "own", why |-> "default of " \o c.n \o " set to the default of the module", comp |-> c.n, v |-> b, der |-> Enc(t, b)]
DefGroup(t) ==
  LET r == Res(t) IN
  IF r.k \notin {"SEQ", "SET"} THEN <<>>
  ELSE LET idx == SelectSeq([i \in 1..Len(r.cs) |-> i], LAMBDA i : r.cs[i].o = "DEF")
           m == Least(t, 1)
           base(i) == Without(r, m, r.cs[i].n)
           others == UNION {{r.cs[j].n} : j \in {j \in 1..Len(r.cs) : r.cs[j].o = "DEF"}}
           \* the message with the default spelt out, which DER forbids and BER allows
           spelt(i) == Wrap(Tags(r), FlattenSeq([j \in 1..Len(r.cs) |->
                          IF j = i THEN Enc(r.cs[i].t, r.cs[i].d)
                          ELSE IF HasField(m, r.cs[j].n) THEN Enc(r.cs[j].t, Field(m, r.cs[j].n)) ELSE <<>>]))
       IN FlattenSeq([x \in 1..Len(idx) |->
            LET i == idx[x]
                b == base(i)
                c == r.cs[i]
                tries == SelectSeq([s \in 1..6 |-> Sam(c.t, s * 7, 0)], LAMBDA v : ~IsDefault(c, v))
            IN (IF HoldsAll(r, b) THEN <<ValP(t, b, "default of " \o c.n \o " left out")>>
                                         \o <<SetP(t, WithField(r, b, c.n, c.d), c, spelt(i)), OwnP(t, b, c)>> ELSE <<>>)
               \o (IF tries = <<>> THEN <<>> ELSE <<ValP(t, WithField(r, b, c.n, tries[1]), c.n \o " not the default")>>)
               \o (IF r.k = "SEQ" THEN <<DecP(t, spelt(i), "default of " \o c.n \o " spelt out")>> ELSE <<>>)])
          \o (IF Len(idx) < 2 THEN <<>>
              ELSE <<ValP(t, SamFields(r, {r.cs[j].n : j \in {j \in 1..Len(r.cs) : r.cs[j].o # "OPT"}} \ Barred(r), 5, 0), "no component at its default")>>)
          \o PresetProbes(t)

\* (3) structure
Alien(salt) == Tlv(<<PRIV, 30, FALSE>>, <<(salt % 100)>>)
\* elements a type may turn out to take though it is not given any
Strangers == FlattenSeq([k \in 1..13 |-> <<Tlv(<<CTX, k - 1, FALSE>>, <<5>>), Tlv(<<CTX, k - 1, TRUE>>, <<2, 1, 5>>)>>])
  \o <<Tlv(<<UNIV, 1, FALSE>>, <<255>>), Tlv(<<UNIV, 2, FALSE>>, <<5>>), Tlv(<<UNIV, 3, FALSE>>, <<7, 128>>), Tlv(<<UNIV, 4, FALSE>>, <<97>>), Tlv(<<UNIV, 5, FALSE>>, <<>>),
       Tlv(<<UNIV, 6, FALSE>>, <<42, 3>>), Tlv(<<UNIV, 10, FALSE>>, <<1>>), Tlv(<<UNIV, 12, FALSE>>, <<97>>), Tlv(<<UNIV, 16, TRUE>>, <<2, 1, 5>>), Tlv(<<UNIV, 17, TRUE>>, <<2, 1, 5>>),
       Tlv(<<UNIV, 18, FALSE>>, <<49>>), Tlv(<<UNIV, 19, FALSE>>, <<97>>), Tlv(<<UNIV, 20, FALSE>>, <<97>>), Tlv(<<UNIV, 22, FALSE>>, <<97>>), Tlv(<<UNIV, 26, FALSE>>, <<97>>),
       Tlv(<<UNIV, 23, FALSE>>, Digit2(20) \o TimeTail(2)), Tlv(<<UNIV, 24, FALSE>>, <<50, 48>> \o Digit2(20) \o TimeTail(2)), Tlv(<<UNIV, 30, FALSE>>, <<0, 97>>), Tlv(<<APP, 1, FALSE>>, <<5>>),
       Tlv(<<APP, 1, TRUE>>, <<2, 1, 5>>)>>
StrangersTo(ts) == SelectSeq(Strangers, LAMBDA e : LET tag == Hdr(e).tag IN \A i \in 1..Len(ts) : ~Starts(ts[i], tag))
\* for a CHOICE, tags of the long form too
MoreStrangers == Strangers \o FlattenSeq([k \in 1..28 |-> <<Tlv(<<CTX, k + 12, FALSE>>, <<5>>), Tlv(<<CTX, k + 12, TRUE>>, <<2, 1, 5>>)>>])
  \o FlattenSeq([k \in 1..31 |-> <<Tlv(<<APP, k - 1, FALSE>>, <<5>>), Tlv(<<APP, k - 1, TRUE>>, <<2, 1, 5>>)>>])
StrangersMore(ts) == SelectSeq(MoreStrangers, LAMBDA e : LET tag == Hdr(e).tag IN \A i \in 1..Len(ts) : ~Starts(ts[i], tag))
BumpNum(tg) == <<tg[1], tg[2] + 1, tg[3]>>
BumpClass(tg) == <<(tg[1] + 1) % 4, IF tg[2] = 0 THEN 1 ELSE tg[2], tg[3]>>
OtherTags(tags) == FlattenSeq([i \in 1..Len(tags) |->
    <<[tags EXCEPT ![i] = BumpNum(@)], [tags EXCEPT ![i] = BumpClass(@)]>>])
    \o (IF Len(tags) < 2 THEN <<>> ELSE <<SubSeq(tags, 1, Len(tags) - 1), SubSeq(tags, 2, Len(tags))>>)
    \o <<tags \o <<<<CTX, 29, TRUE>>>>>>
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* pyasn1 takes any element at all for a tagged open type: nothing is said about those
TaggedAny(t) == LET r == Res(t) IN r.k = "ANY" /\ Tags(r) # <<>>
\* pyasn1 supplies a mandatory component whose content may be empty when it is left out
RECURSIVE Supplied(_)
Supplied(t) == LET r == Res(t) IN
   CASE r.k \in {"SEQOF", "SETOF"} -> TRUE
     [] r.k \in {"SEQ", "SET"} -> \A i \in 1..Len(r.cs) : r.cs[i].o # "REQ" \/ Supplied(r.cs[i].t)
     [] OTHER -> FALSE
\* mandatory components that are not filled in by the schema object itself
RejGroup(t) ==
  LET r == Res(t)
      tags == Tags(r)
      m == IF r.k \in {"SEQ", "SET"} THEN SamFields(r, AllNames(r), 6, 0) ELSE Least(t, 6)
      body == Body(r, m)
      other == IF r.k = "ANY" THEN <<>> ELSE OtherTags(tags)
      outer == [i \in 1..Len(other) |-> DecP(t, Wrap(other[i], body), "other tags")]
  IN outer \o
  CASE r.k \in {"SEQ", "SET"} ->
         LET parts == [i \in 1..Len(m.f) |-> Enc(Comp(r, m.f[i].n).t, m.f[i].v)]
             any(i) == TaggedAny(Comp(r, m.f[i].n).t)
             last == Len(parts)
             msg(ps) == Wrap(tags, FlattenSeq(ps))
             req == ReqIdx(r)
             Over(S, P(_)) == LET q == SelectSeq([i \in 1..last |-> i], LAMBDA i : i \in S) IN [i \in 1..Len(q) |-> P(q[i])]
         IN Over({i \in 1..last : ~any(i) \/ i = last}, LAMBDA i : DecP(t, msg(Drop(parts, i)), "without " \o m.f[i].n))
            \o Over({i \in 1..last : ~any(i)}, LAMBDA i : DecP(t, msg([parts EXCEPT ![i] = Alien(i)]), "unknown element for " \o m.f[i].n))
            \o <<DecP(t, msg(Append(parts, Alien(7))), "trailing element")>>
            \o (LET es == StrangersTo([i \in 1..Len(r.cs) |-> r.cs[i].t]) IN [i \in 1..Len(es) |-> DecP(t, msg(Append(parts, es[i])), "trailing element")])
            \o (IF r.k = "SET" THEN <<>>
                ELSE Over({i \in 1..last - 1 : ~any(i) /\ ~any(i + 1)}, LAMBDA i : DecP(t, msg([parts EXCEPT ![i] = parts[i + 1], ![i + 1] = parts[i]]), m.f[i].n \o " after " \o m.f[i + 1].n))
                     \o Over({i \in 1..last : ~any(i) /\ (i = last \/ ~any(i + 1))}, LAMBDA i : DecP(t, msg(SubSeq(parts, 1, i) \o SubSeq(parts, i, last)), m.f[i].n \o " twice"))
                     \o Over({i \in 1..last - 1 : ~any(i) /\ ~any(last)}, LAMBDA i : DecP(t, msg(Append(parts, parts[i])), m.f[i].n \o " at the end again")))
            \o (LET bm == Least(t, 1)
                    need == SelectSeq(req, LAMBDA i : ~Supplied(r.cs[i].t) /\ ~IsPreset(t, r.cs[i].n))
                IN [i \in 1..Len(need) |-> BadP(Without(r, bm, r.cs[need[i]].n), "without " \o r.cs[need[i]].n)])
    [] r.k = "CHOICE" -> <<DecP(t, Wrap(tags, Alien(3)), "unknown alternative")>>
            \o LET es == StrangersMore([i \in 1..Len(r.cs) |-> r.cs[i].t]) IN [i \in 1..Len(es) |-> DecP(t, Wrap(tags, es[i]), "unknown alternative")]
    [] r.k \in {"SEQOF", "SETOF"} -> <<DecP(t, Wrap(tags, body \o Alien(3)), "unknown element")>>
            \o LET es == StrangersTo(<<r.of>>) IN [i \in 1..Len(es) |-> DecP(t, Wrap(tags, body \o es[i]), "unknown element")]
    [] OTHER -> <<>>

\* (9) named numbers and bits
BitByte(n) == 2 ^ (7 - (n % 8))
BitVal(n) == [u |-> 7 - (n % 8), bs |-> [i \in 1..(n \div 8) |-> 0] \o <<BitByte(n)>>]
\* several bits at once
BitsVal(ns) == LET top == CHOOSE x \in ns : \A y \in ns : y <= x
                   byte(k) == FoldFunction(LAMBDA a, b : a + b, 0, [n \in ns |-> IF n \div 8 = k THEN BitByte(n) ELSE 0])
               IN [u |-> 7 - (top % 8), bs |-> [k \in 1..(top \div 8) + 1 |-> byte(k - 1)]]
SomeBits(r) == LET n == Len(r.nv) IN IF n < 2 THEN <<>> ELSE [i \in 1..n - 1 |-> {i, i + 1}] \o <<1..n, {1, n}>>
BitsGroup(t) ==
  LET r == Res(t)
      sets == IF r.k = "BITS" THEN SomeBits(r) ELSE <<>>
      ps == [j \in 1..Len(sets) |-> LET v == BitsVal({r.nv[i].v : i \in sets[j]}) IN
               [k |-> "bits", why |-> "several names", names |-> [i \in 1..Cardinality(sets[j]) |-> r.nv[SetToSortSeq(sets[j], <)[i]].n],
                v |-> v, legal |-> HoldsAll(r, v), der |-> Enc(t, v)]]
  IN SelectSeq(ps, LAMBDA p : p.legal)
NamesGroup(t) == LET r == Res(t) IN
  IF r.k \in {"INT", "ENUM", "BITS"} THEN <<[k |-> "names", why |-> "the names there are", names |-> r.nv]>> ELSE <<>>
NamGroup(t) ==
  LET r == Res(t) IN
  BitsGroup(t) \o NamesGroup(t) \o
  [i \in 1..Len(r.nv) |->
     LET v == IF r.k = "BITS" THEN BitVal(r.nv[i].v) ELSE VI(r.nv[i].v)
     IN [k |-> "nam", why |-> "name " \o r.nv[i].n, name |-> r.nv[i].n, num |-> r.nv[i].v, v |-> v,
         legal |-> HoldsAll(r, v), der |-> Enc(t, v)]]

AllSalts(P(_)) == LET q == SetToSeq(Salts) IN FlattenSeq([i \in 1..Len(q) |-> P(q[i])])
ProbesFor(g, t) == IF HasAmbiguity(t) THEN (IF g = "val" THEN WriteOnly(ValGroup(t, 1)) ELSE <<>>) ELSE
                   CASE g = "val" -> AllSalts(LAMBDA x : ValGroup(t, x))
                     [] g = "deep" -> AllSalts(LAMBDA x : DeepGroup(t, x))
                     [] g = "bnd" -> BndGroup(t)
                     [] g = "def" -> DefGroup(t)
                     [] g = "rej" -> RejGroup(t)
                     [] g = "nam" -> NamGroup(t)
                     [] OTHER -> <<>>

(* ---- exported values *)
Deviant(m, n) == {i \in 1..Len(DeviantValues) : DeviantValues[i].id \in Deviations /\ DeviantValues[i].n = n /\ m \in DeviantValues[i].ms}
Val(m, n) == IF Deviant(m, n) = {} THEN ValueTab[m][n]
             ELSE [ValueTab[m][n] EXCEPT !.v = DeviantValues[CHOOSE i \in Deviant(m, n) : TRUE].v]
(* An exported object may be a template: a value some components of which    *)
(* are for the user to add.                                                 *)
Template(t, v) == LET r == Res(t) IN
   /\ r.k \in {"SEQ", "SET"}
   /\ \A i \in 1..Len(v.f) : (\E j \in 1..Len(r.cs) : r.cs[j].n = v.f[i].n) /\ Legal(Comp(r, v.f[i].n).t, v.f[i].v)
   /\ \E j \in 1..Len(r.cs) : r.cs[j].o = "REQ" /\ ~HasField(v, r.cs[j].n)

(* ---- entries of the open type tables *)
EntryAt(x) == EntryTab[x[1]][x[2]]
EntriesOf(tm, tb) == UNION {{<<m, i>> : i \in {j \in 1..Len(EntryTab[m]) : EntryTab[m][j].m = tm /\ EntryTab[m][j].tb = tb}} : m \in Modules}
\* the same value with registered identifiers and what goes with them wherever
\* a table governs a component: algorithms, attributes, extensions
EXT == "certificateExtensionsMap"
GovernOf(t, r, c) == IF c.ot # <<>> THEN c.ot
                     ELSE IF r = Res(R("rfc5280", "Extension")) /\ c.n = "extnValue" THEN <<"extnID", "rfc5280", EXT>> ELSE <<>>
RegTabs == UNION {{<<EntryTab[m][i].m, EntryTab[m][i].tb>> : i \in 1..Len(EntryTab[m])} : m \in Modules}
RegOf == [x \in RegTabs |-> SetToSeq(EntriesOf(x[1], x[2]))]
CarryIn(t, octs) == LET r == Res(t) IN
  CASE r.k = "ANY" -> VANY(octs) [] r.k = "OCT" -> VOCT(octs)
    [] OTHER -> [l |-> <<IF Res(r.of).k = "OCT" THEN VOCT(octs) ELSE VANY(octs)>>]
RECURSIVE Furnish(_, _, _)
Furnish(t, v, s) ==
  LET r == Res(t) IN
  CASE r.k \in {"SEQ", "SET"} ->
         LET go == SelectSeq([i \in 1..Len(r.cs) |-> i], LAMBDA i : HasField(v, r.cs[i].n) /\ GovernOf(t, r, r.cs[i]) # <<>>)
             g == IF go = <<>> THEN <<>> ELSE GovernOf(t, r, r.cs[go[1]])
             es == IF g = <<>> \/ <<g[2], g[3]>> \notin RegTabs THEN <<>> ELSE RegOf[<<g[2], g[3]>>]
         IN IF es # <<>> /\ HasField(v, g[1])
            THEN LET e == EntryAt(es[1 + (s % Len(es))])
                     p == TLCEval(Enc(e.t, Sam(e.t, s % 80, s % 2)))
                     w == WithField(r, WithField(r, v, g[1], e.key), r.cs[go[1]].n, CarryIn(r.cs[go[1]].t, p))
                 IN IF Legal(t, w) THEN w ELSE v
            ELSE [f |-> TLCEval([i \in 1..Len(v.f) |-> [n |-> v.f[i].n, v |-> Furnish(Comp(r, v.f[i].n).t, v.f[i].v, s + i)]])]
    [] r.k = "CHOICE" -> [ch |-> v.ch, v |-> Furnish(AltOf(r, v).t, v.v, s)]
    [] r.k \in {"SEQOF", "SETOF"} -> [l |-> TLCEval([i \in 1..Len(v.l) |-> Furnish(r.of, v.l[i], s + i)])]
    [] OTHER -> v
Rich(t, s) == TLCEval(Enc(t, Furnish(t, TLCEval(Sam(t, s % 80, 3)), s)))
===========================================================================
