------------------------------- MODULE Asn1 -------------------------------
(* What the ASN.1 notation means: DER encoding (X.690), decoding, and which *)
(* abstract values satisfy the constraints (X.680).                         *)
(*                                                                          *)
(* Byte strings are sequences of integers; an element e >= 256 stands for   *)
(* a run of e \div 256 copies of the octet e % 256 (long strings at size    *)
(* bounds).  Character strings are sequences of code points, an element     *)
(* c >= 2^21 standing for a run in the same way.                            *)
EXTENDS Asn1Notation, Schema, SequencesExt, FiniteSets, TLC

CONSTANT Deviations  \* known findings the implementation is expected to show

CHARRUN == 2097152

(* The known findings, as the terms the code has instead of the RFC's.      *)
DeviantTypes == <<
  [id |-> "KF-securitycategory-2634", m |-> "rfc2634", n |-> "SecurityCategory", t |->
     SEQUENCE(<<REQ("type", IMPL(CTX, 0, OBJECT_IDENTIFIER)),
                REQ("value", PRIMTAG(CTX, 1, ANY_T))>>)],
  [id |-> "KF-securitycategory-3281", m |-> "rfc3281", n |-> "SecurityCategory", t |->
     SEQUENCE(<<REQ("type", IMPL(CTX, 0, OBJECT_IDENTIFIER)), REQ("value", PRIMTAG(CTX, 1, ANY_T))>>)],
  [id |-> "KF-securitycategory-5755", m |-> "rfc5755", n |-> "SecurityCategory", t |->
     SEQUENCE(<<REQ("type", IMPL(CTX, 0, OBJECT_IDENTIFIER)),
                OPEN("type", "rfc5755", "securityCategoryMap", REQ("value", PRIMTAG(CTX, 1, ANY_T)))>>)],
  [id |-> "KF-oaep-defaults-4055", m |-> "rfc4055", n |-> "RSAES_OAEP_params", t |->
     SEQUENCE(<<OPT("hashFunc", EXPL(CTX, 0, R("rfc5280", "AlgorithmIdentifier"))),
                OPT("maskGenFunc", EXPL(CTX, 1, R("rfc5280", "AlgorithmIdentifier"))),
                OPT("pSourceFunc", EXPL(CTX, 2, R("rfc5280", "AlgorithmIdentifier")))>>)],
  [id |-> "KF-pss-defaults-4055", m |-> "rfc4055", n |-> "RSASSA_PSS_params", t |->
     SEQUENCE(<<OPT("hashAlgorithm", EXPL(CTX, 0, R("rfc5280", "AlgorithmIdentifier"))),
                OPT("maskGenAlgorithm", EXPL(CTX, 1, R("rfc5280", "AlgorithmIdentifier"))),
                DFLT("saltLength", EXPL(CTX, 2, INTEGER), VI(20)),
                DFLT("trailerField", EXPL(CTX, 3, INTEGER), VI(1))>>)],
  [id |-> "KF-esscertidv2-default-5035", m |-> "rfc5035", n |-> "ESSCertIDv2", t |->
     SEQUENCE(<<DFLT("hashAlgorithm", R("rfc5280", "AlgorithmIdentifier"),
                     VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 1>>)),
                            FV("parameters", VANY(<<4, 0>>))>>)),
                REQ("certHash", R("rfc2634", "Hash")),
                OPT("issuerSerial", R("rfc2634", "IssuerSerial"))>>)]
>>

(* Exported values the code has wrong *)
DeviantValues == <<
  [id |-> "KF-default-identifiers-4055", n |-> "rSAES_OAEP_Default_Identifier", ms |-> {"rfc3560", "rfc4055", "rfc8017"},
   v |-> VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 7>>))>>)],
  [id |-> "KF-default-identifiers-4055", n |-> "rSASSA_PSS_Default_Identifier", ms |-> {"rfc4055", "rfc8017"},
   v |-> VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 10>>))>>)]
>>

ActiveDeviations == {i \in 1..Len(DeviantTypes) : DeviantTypes[i].id \in Deviations}
Term0(m, n) == TypeTab[m][n]
Term(m, n) ==
  IF \E i \in ActiveDeviations : DeviantTypes[i].m = m /\ DeviantTypes[i].n = n
  THEN DeviantTypes[CHOOSE i \in ActiveDeviations : DeviantTypes[i].m = m /\ DeviantTypes[i].n = n].t
  ELSE Term0(m, n)

(* ------------------------------------------------------------------------ *)
(* Head normal form of a type term: references followed, tagging and        *)
(* constraints accumulated.                                                 *)
RECURSIVE Res(_)
Res(t) == IF t.k # "REF" THEN t
          ELSE LET b == Res(Term(t.m, t.n))
               IN IF t.g = <<>> /\ t.c = <<>> /\ t.nv = <<>> THEN b
                  ELSE [b EXCEPT !.g = @ \o t.g, !.c = @ \o t.c,
                                 !.nv = IF t.nv = <<>> THEN @ ELSE t.nv]

UnivTag == [BOOL |-> 1, INT |-> 2, BITS |-> 3, OCT |-> 4, NULL |-> 5, OID |-> 6, ENUM |-> 10,
            UTF8 |-> 12, SEQ |-> 16, SEQOF |-> 16, SET |-> 17, SETOF |-> 17, NUMERIC |-> 18,
            PRINTABLE |-> 19, TELETEX |-> 20, IA5 |-> 22, UTCT |-> 23, GENT |-> 24,
            VISIBLE |-> 26, UNIVERSAL |-> 28, BMP |-> 30]
Untagged == {"CHOICE", "ANY"}
Structured == {"SEQ", "SET", "SEQOF", "SETOF"}
CharKinds == {"UTF8", "NUMERIC", "PRINTABLE", "TELETEX", "IA5", "VISIBLE", "UNIVERSAL", "BMP", "UTCT", "GENT"}

(* Tags of a normalised type, innermost first: <<class, number, constructed>>.*)
(* IMPLICIT on a type without a tag is EXPLICIT (X.680 31.2.7).             *)
AddTag(st, op) ==
  CASE op[1] = "P" -> Append(st, <<op[2], op[3], FALSE>>)
    [] op[1] = "I" /\ st # <<>> ->
         [st EXCEPT ![Len(st)] = <<op[2], op[3], @[3]>>]
    [] OTHER -> Append(st, <<op[2], op[3], TRUE>>)
BaseTags(k) == IF k \in Untagged THEN <<>> ELSE <<<<UNIV, UnivTag[k], k \in Structured>>>>
Tags(r) == IF r.g = <<>> THEN BaseTags(r.k) ELSE FoldLeft(AddTag, BaseTags(r.k), r.g)

(* ------------------------------------------------------------------------ *)
(* Octets *)
ElemLen(e) == IF e < 256 THEN 1 ELSE e \div 256
HasRun(bs) == \E i \in 1..Len(bs) : bs[i] >= 256
BLen(bs) == IF HasRun(bs) THEN FoldLeft(LAMBDA a, e : a + ElemLen(e), 0, bs) ELSE Len(bs)
RECURSIVE RunPrefix(_, _, _)
\* number of elements that make up the first n octets, -1 if they do not
RunPrefix(bs, n, i) == IF n = 0 THEN i
                       ELSE IF i = Len(bs) \/ n < 0 THEN -1
                       ELSE RunPrefix(bs, n - ElemLen(bs[i + 1]), i + 1)
Prefix(bs, n) == IF HasRun(bs) THEN RunPrefix(bs, n, 0) ELSE IF n <= Len(bs) THEN n ELSE -1
Run(n, b) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<b>> ELSE <<n * 256 + b>>

RECURSIVE Base128(_, _)
Base128(n, last) == IF n < 128 THEN <<n + (IF last THEN 0 ELSE 128)>>
                    ELSE Base128(n \div 128, FALSE) \o <<(n % 128) + (IF last THEN 0 ELSE 128)>>
Ident(tg) == LET hi == tg[1] * 64 + (IF tg[3] THEN 32 ELSE 0)
             IN IF tg[2] < 31 THEN <<hi + tg[2]>> ELSE <<hi + 31>> \o Base128(tg[2], TRUE)
LenOctets(n) == IF n < 128 THEN <<n>> ELSE LET b == NatBytes(n) IN <<128 + Len(b)>> \o b
Tlv(tg, content) == Ident(tg) \o LenOctets(BLen(content)) \o content
Wrap(tags, content) == FoldLeft(LAMBDA b, tg : Tlv(tg, b), content, tags)

\* lexicographic order of octet strings (X.690 11.6: shorter one padded with 0)
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i > Len(b) THEN FALSE
                    ELSE IF i > Len(a) THEN TRUE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLess(a, b, i + 1)
SortBytes(s) == SortSeq(s, LAMBDA a, b : LexLess(a, b, 1))

(* ------------------------------------------------------------------------ *)
(* Integers as minimal two's complement octets *)
Neg(a) == a[1] >= 128
RECURSIVE Minimal(_)
Minimal(a) == IF Len(a) > 1 /\ ((a[1] = 0 /\ a[2] < 128) \/ (a[1] = 255 /\ a[2] >= 128))
              THEN Minimal(Tail(a)) ELSE a
IntLess(a, b) == IF Neg(a) # Neg(b) THEN Neg(a)
                 ELSE IF Len(a) # Len(b) THEN (Len(a) < Len(b)) # Neg(a)
                 ELSE LexLess(a, b, 1)
RECURSIVE AddAt(_, _, _)
AddAt(a, i, d) == LET s == a[i] + d
                  IN IF s > 255 THEN (IF i = 1 THEN [a EXCEPT ![i] = s - 256] ELSE AddAt([a EXCEPT ![i] = s - 256], i - 1, d))
                     ELSE IF s < 0 THEN (IF i = 1 THEN [a EXCEPT ![i] = s + 256] ELSE AddAt([a EXCEPT ![i] = s + 256], i - 1, d))
                     ELSE [a EXCEPT ![i] = s]
IntAdd1(a, d) == LET x == <<IF Neg(a) THEN 255 ELSE 0>> \o a IN Minimal(AddAt(x, Len(x), d))

(* ------------------------------------------------------------------------ *)
(* Character strings *)
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
CharBytes(k, c) == CASE k = "UTF8" -> Utf8(c)
                     [] k = "BMP" -> <<c \div 256, (c % 256)>>
                     [] k = "UNIVERSAL" -> <<0, c \div 65536, (c \div 256) % 256, (c % 256)>>
                     [] OTHER -> <<c>>
\* runs of a character are only used where all octets of its encoding are equal
CharEnc(k, c) == IF c < CHARRUN THEN CharBytes(k, c)
                 ELSE LET b == CharBytes(k, c % CHARRUN) IN Run((c \div CHARRUN) * Len(b), b[1])
CLen(s) == FoldLeft(LAMBDA a, e : a + (IF e < CHARRUN THEN 1 ELSE e \div CHARRUN), 0, s)
StrEnc(k, s) == FlattenSeq([i \in 1..Len(s) |-> CharEnc(k, s[i])])
RECURSIVE DecUtf8(_, _)
DecUtf8(b, acc) ==
  IF b = <<>> THEN acc
  ELSE LET c == b[1] IN
    IF c >= 256 THEN DecUtf8(Tail(b), Append(acc, (c \div 256) * CHARRUN + (c % 256)))
    ELSE IF c < 128 THEN DecUtf8(Tail(b), Append(acc, c))
    ELSE IF c < 224 THEN DecUtf8(SubSeq(b, 3, Len(b)), Append(acc, (c - 192) * 64 + b[2] - 128))
    ELSE IF c < 240 THEN DecUtf8(SubSeq(b, 4, Len(b)), Append(acc, (c - 224) * 4096 + (b[2] - 128) * 64 + b[3] - 128))
    ELSE DecUtf8(SubSeq(b, 5, Len(b)), Append(acc, (c - 240) * 262144 + (b[2] - 128) * 4096 + (b[3] - 128) * 64 + b[4] - 128))
RECURSIVE DecWide(_, _, _)
DecWide(b, w, acc) ==
  IF b = <<>> THEN acc
  ELSE IF b[1] >= 256
       THEN DecWide(Tail(b), w, Append(acc, ((b[1] \div 256) \div w) * CHARRUN
                 + FoldLeft(LAMBDA a, x : (a * 256) + (b[1] % 256), 0, [i \in 1..w |-> i])))
       ELSE DecWide(SubSeq(b, w + 1, Len(b)), w, Append(acc, FoldLeft(LAMBDA a, x : (a * 256) + x, 0, SubSeq(b, 1, w))))
StrDec(k, b) == CASE k = "UTF8" -> DecUtf8(b, <<>>)
                  [] k = "BMP" -> DecWide(b, 2, <<>>)
                  [] k = "UNIVERSAL" -> DecWide(b, 4, <<>>)
                  [] OTHER -> [i \in 1..Len(b) |-> IF b[i] < 256 THEN b[i] ELSE (b[i] \div 256) * CHARRUN + (b[i] % 256)]

OidBody(arcs) == FlattenSeq(<<Base128(arcs[1] * 40 + arcs[2], TRUE)>> \o
                            [i \in 1..Len(arcs) - 2 |-> Base128(arcs[i + 2], TRUE)])
RECURSIVE OidArcs(_, _, _)
OidArcs(b, cur, acc) == IF b = <<>> THEN acc
                        ELSE LET n == cur * 128 + (b[1] % 128)
                             IN IF b[1] >= 128 THEN OidArcs(Tail(b), n, acc) ELSE OidArcs(Tail(b), 0, Append(acc, n))
OidDec(b) == LET a == OidArcs(b, 0, <<>>)
                 first == IF a[1] < 80 THEN a[1] \div 40 ELSE 2
             IN <<first, a[1] - 40 * first>> \o Tail(a)

(* ------------------------------------------------------------------------ *)
(* Constraints *)
RECURSIVE Holds(_, _, _)
SizeOf(k, v) == CASE k = "OCT" -> BLen(v.s)
                  [] k = "BITS" -> 8 * BLen(v.bs) - v.u
                  [] k \in {"SEQOF", "SETOF"} -> Len(v.l)
                  [] k = "ANY" -> BLen(v.a)
                  [] k \in {"SEQ", "SET"} -> Len(v.f)
                  [] OTHER -> CLen(v.s)
HasField(v, n) == \E i \in 1..Len(v.f) : v.f[i].n = n
Field(v, n) == v.f[CHOOSE i \in 1..Len(v.f) : v.f[i].n = n].v
\* does value v of a type of kind k satisfy the constraint
Holds(k, con, v) ==
  CASE con.q = "size" -> LET n == SizeOf(k, v) IN n >= con.lo /\ (con.hi = MAXSIZE \/ n <= con.hi)
    [] con.q = "range" -> (con.lo = NOBOUND \/ ~IntLess(v.i, con.lo)) /\ (con.hi = NOBOUND \/ ~IntLess(con.hi, v.i))
    [] con.q = "values" -> \E i \in 1..Len(con.vs) : con.vs[i] = v
    [] con.q = "alphabet" -> \A i \in 1..Len(v.s) : \E j \in 1..Len(con.cs) : con.cs[j] = v.s[i] % CHARRUN
    [] con.q = "either" -> \E i \in 1..Len(con.cs) : Holds(k, con.cs[i], v)
    [] con.q = "with" -> \A i \in 1..Len(con.fs) : HasField(v, con.fs[i][1]) = con.fs[i][2]
HoldsAll(r, v) == \A i \in 1..Len(r.c) : Holds(r.k, r.c[i], v)

\* components with values, as pairs <<component, value>>, in schema order
Comp(r, n) == r.cs[CHOOSE i \in 1..Len(r.cs) : r.cs[i].n = n]
AltOf(r, v) == Comp(r, v.ch)

RECURSIVE Legal(_, _)
\* v is a value of type t
Legal(t, v) ==
  LET r == Res(t) IN
  /\ HoldsAll(r, v)
  /\ CASE r.k \in {"SEQ", "SET"} ->
            /\ \A i \in 1..Len(v.f) : \E j \in 1..Len(r.cs) : r.cs[j].n = v.f[i].n
            /\ \A j \in 1..Len(r.cs) :
                 IF HasField(v, r.cs[j].n) THEN Legal(r.cs[j].t, Field(v, r.cs[j].n)) ELSE r.cs[j].o # "REQ"
       [] r.k = "CHOICE" -> (\E j \in 1..Len(r.cs) : r.cs[j].n = v.ch) /\ Legal(AltOf(r, v).t, v.v)
       [] r.k \in {"SEQOF", "SETOF"} -> \A i \in 1..Len(v.l) : Legal(r.of, v.l[i])
       [] OTHER -> TRUE

(* ------------------------------------------------------------------------ *)
(* DER encoding *)
RECURSIVE Enc(_, _), Body(_, _), Full(_, _), OuterTag(_, _)
IsDefault(c, v) == c.o = "DEF" /\ Full(c.t, v) = Full(c.t, c.d)
Enc(t, v) == LET r == Res(t) IN Wrap(Tags(r), Body(r, v))
\* the tag an encoding of v starts with (X.690 10.3: SET components in tag order)
OuterTag(t, v) == LET r == Res(t) tg == Tags(r) IN
                  IF tg # <<>> THEN <<tg[Len(tg)][1], tg[Len(tg)][2]>>
                  ELSE IF r.k = "CHOICE" THEN OuterTag(AltOf(r, v).t, v.v) ELSE <<9, 0>>
TagLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Body(r, v) ==
  CASE r.k \in {"INT", "ENUM"} -> v.i
    [] r.k = "BOOL" -> IF v.b THEN <<255>> ELSE <<0>>
    [] r.k = "BITS" -> <<v.u>> \o v.bs
    [] r.k = "OCT" -> v.s
    [] r.k = "NULL" -> <<>>
    [] r.k = "OID" -> OidBody(v.o)
    [] r.k = "ANY" -> v.a
    [] r.k \in CharKinds -> StrEnc(r.k, v.s)
    [] r.k = "SEQ" ->
         FlattenSeq([j \in 1..Len(r.cs) |->
            IF HasField(v, r.cs[j].n) /\ ~IsDefault(r.cs[j], Field(v, r.cs[j].n))
            THEN Enc(r.cs[j].t, Field(v, r.cs[j].n)) ELSE <<>>])
    [] r.k = "SET" ->
         LET present == SelectSeq([j \in 1..Len(r.cs) |-> j],
                          LAMBDA j : HasField(v, r.cs[j].n) /\ ~IsDefault(r.cs[j], Field(v, r.cs[j].n)))
             order == SortSeq(present, LAMBDA a, b : TagLess(OuterTag(r.cs[a].t, Field(v, r.cs[a].n)),
                                                             OuterTag(r.cs[b].t, Field(v, r.cs[b].n))))
         IN FlattenSeq([i \in 1..Len(order) |-> Enc(r.cs[order[i]].t, Field(v, r.cs[order[i]].n))])
    [] r.k = "CHOICE" -> Enc(AltOf(r, v).t, v.v)
    [] r.k = "SEQOF" -> FlattenSeq([i \in 1..Len(v.l) |-> Enc(r.of, v.l[i])])
    [] r.k = "SETOF" -> FlattenSeq(SortBytes(TLCEval([i \in 1..Len(v.l) |-> Enc(r.of, v.l[i])])))

\* the value a decoder reports: defaults filled in, SET OF in encoding order
Full(t, v) ==
  LET r == Res(t) IN
  CASE r.k \in {"SEQ", "SET"} ->
         LET keep == SelectSeq(r.cs, LAMBDA c : HasField(v, c.n) \/ c.o = "DEF")
         IN [f |-> TLCEval([i \in 1..Len(keep) |->
               [n |-> keep[i].n,
                v |-> Full(keep[i].t, IF HasField(v, keep[i].n) THEN Field(v, keep[i].n) ELSE keep[i].d)]])]
    [] r.k = "CHOICE" -> [ch |-> v.ch, v |-> Full(AltOf(r, v).t, v.v)]
    [] r.k = "SEQOF" -> [l |-> TLCEval([i \in 1..Len(v.l) |-> Full(r.of, v.l[i])])]
    [] r.k = "SETOF" -> IF Len(v.l) < 2 THEN [l |-> TLCEval([i \in 1..Len(v.l) |-> Full(r.of, v.l[i])])]
                        ELSE LET es == SortSeq(TLCEval([i \in 1..Len(v.l) |-> <<Enc(r.of, v.l[i]), v.l[i]>>]),
                                               LAMBDA a, b : LexLess(a[1], b[1], 1))
                             IN [l |-> TLCEval([i \in 1..Len(es) |-> Full(r.of, es[i][2])])]
    [] OTHER -> v

(* ------------------------------------------------------------------------ *)
(* Decoding: [ok, v, rest] *)
FAIL == [ok |-> FALSE, v |-> VNULL, rest |-> <<>>]
OK(v, rest) == [ok |-> TRUE, v |-> v, rest |-> rest]

RECURSIVE HighTag(_, _, _), BigLen(_, _, _)
HighTag(bs, i, n) == IF i > Len(bs) THEN <<-1, 0>>
                     ELSE IF bs[i] >= 128 THEN HighTag(bs, i + 1, n * 128 + (bs[i] % 128))
                     ELSE <<n * 128 + bs[i], i + 1>>
BigLen(bs, i, k) == IF k = 0 THEN 0 ELSE BigLen(bs, i, k - 1) * 256 + bs[i + k - 1]
\* header of the first TLV: class, number, first content element, content elements
Hdr(bs) ==
  IF Len(bs) < 2 \/ bs[1] >= 256 THEN [ok |-> FALSE]
  ELSE LET lowtag == (bs[1] % 32)
           num == IF lowtag # 31 THEN <<lowtag, 2>> ELSE HighTag(bs, 2, 0)
           p == num[2]
       IN IF num[1] < 0 \/ p > Len(bs) THEN [ok |-> FALSE]
          ELSE IF bs[p] > 128 /\ (bs[p] > 132 \/ p + bs[p] - 128 > Len(bs)) THEN [ok |-> FALSE]
          ELSE IF bs[p] = 128 THEN [ok |-> FALSE]
          ELSE LET n == IF bs[p] < 128 THEN bs[p] ELSE BigLen(bs, p + 1, bs[p] - 128)
                   start == IF bs[p] < 128 THEN p + 1 ELSE p + 1 + bs[p] - 128
                   cnt == Prefix(SubSeq(bs, start, Len(bs)), n)
               IN IF cnt < 0 THEN [ok |-> FALSE]
                  ELSE [ok |-> TRUE, tag |-> <<bs[1] \div 64, num[1]>>, start |-> start, next |-> start + cnt]
ContentOf(bs, h) == SubSeq(bs, h.start, h.next - 1)
RestOf(bs, h) == SubSeq(bs, h.next, Len(bs))

RECURSIVE Starts(_, _)
\* can an encoding of t start with this tag
Starts(t, tag) == LET r == Res(t) tg == Tags(r) IN
                  IF tg # <<>> THEN tag = <<tg[Len(tg)][1], tg[Len(tg)][2]>>
                  ELSE IF r.k = "ANY" THEN TRUE
                  ELSE \E i \in 1..Len(r.cs) : Starts(r.cs[i].t, tag)

RECURSIVE Dec(_, _), DecBody(_, _), DecFields(_, _, _, _), DecList(_, _, _), DecSet(_, _, _), Unwrap(_, _, _)
Unwrap(tags, i, bs) ==  \* bs: one TLV for tags[i], nothing after it
  LET h == Hdr(bs) IN
  IF ~h.ok \/ h.tag # <<tags[i][1], tags[i][2]>> \/ h.next # Len(bs) + 1 THEN [ok |-> FALSE]
  ELSE IF i = 1 THEN [ok |-> TRUE, c |-> ContentOf(bs, h)]
  ELSE Unwrap(tags, i - 1, ContentOf(bs, h))
Dec(t, bs) ==
  LET r == Res(t)
      tags == Tags(r)
      h == Hdr(bs)
  IN IF ~h.ok THEN FAIL
     ELSE IF tags = <<>> /\ r.k = "ANY" THEN OK([a |-> SubSeq(bs, 1, h.next - 1)], RestOf(bs, h))
     ELSE LET tlv == SubSeq(bs, 1, h.next - 1)
              in == IF tags = <<>> THEN [ok |-> TRUE, c |-> tlv] ELSE Unwrap(tags, Len(tags), tlv)
              d == IF in.ok THEN DecBody(r, in.c) ELSE FAIL
          IN IF d.ok THEN OK(d.v, RestOf(bs, h)) ELSE FAIL
ScalarOf(r, c) ==
  CASE r.k \in {"INT", "ENUM"} -> IF c = <<>> THEN FAIL ELSE OK([i |-> Minimal(c)], <<>>)
    [] r.k = "BOOL" -> IF Len(c) # 1 THEN FAIL ELSE OK([b |-> c[1] # 0], <<>>)
    [] r.k = "BITS" -> IF c = <<>> \/ c[1] > 7 THEN FAIL ELSE OK([u |-> c[1], bs |-> Tail(c)], <<>>)
    [] r.k = "OCT" -> OK([s |-> c], <<>>)
    [] r.k = "NULL" -> IF c = <<>> THEN OK(VNULL, <<>>) ELSE FAIL
    [] r.k = "OID" -> IF c = <<>> \/ c[Len(c)] >= 128 THEN FAIL ELSE OK([o |-> OidDec(c)], <<>>)
    [] r.k = "ANY" -> OK([a |-> c], <<>>)
    [] OTHER -> OK([s |-> StrDec(r.k, c)], <<>>)
\* constraints on the number of elements or the presence of components are not
\* the decoder's business (they are the encoder's); those on simple values are
DecBody(r, c) ==
  CASE r.k = "SEQ" -> DecFields(r.cs, 1, c, <<>>)
    [] r.k = "SET" -> DecSet(r.cs, c, <<>>)
    [] r.k \in {"SEQOF", "SETOF"} -> DecList(r.of, c, <<>>)
    [] r.k = "CHOICE" ->
         LET h == Hdr(c) IN
         IF ~h.ok \/ h.next # Len(c) + 1 \/ ~\E i \in 1..Len(r.cs) : Starts(r.cs[i].t, h.tag) THEN FAIL
         ELSE LET i == CHOOSE i \in 1..Len(r.cs) : Starts(r.cs[i].t, h.tag)
                                                   /\ \A j \in 1..Len(r.cs) : Starts(r.cs[j].t, h.tag) => j >= i
                  d == Dec(r.cs[i].t, c)
              IN IF d.ok THEN OK([ch |-> r.cs[i].n, v |-> d.v], <<>>) ELSE FAIL
    [] OTHER -> LET d == ScalarOf(r, c) IN IF d.ok /\ HoldsAll(r, d.v) THEN d ELSE FAIL
DecFields(cs, j, bs, acc) ==
  IF j > Len(cs) THEN (IF bs = <<>> THEN OK([f |-> acc], <<>>) ELSE FAIL)
  ELSE LET c == cs[j]
           h == IF bs = <<>> THEN [ok |-> FALSE] ELSE Hdr(bs)
       IN IF bs # <<>> /\ ~h.ok THEN FAIL
          ELSE IF bs # <<>> /\ Starts(c.t, h.tag)
          THEN LET d == Dec(c.t, bs)
               IN IF d.ok THEN DecFields(cs, j + 1, d.rest, Append(acc, [n |-> c.n, v |-> d.v])) ELSE FAIL
          ELSE IF c.o = "REQ" THEN FAIL
          ELSE DecFields(cs, j + 1, bs, IF c.o = "DEF" THEN Append(acc, [n |-> c.n, v |-> Full(c.t, c.d)]) ELSE acc)
DecSet(cs, bs, acc) ==  \* acc: sequence of <<component index, value>>
  IF bs = <<>>
  THEN LET got == {acc[i][1] : i \in 1..Len(acc)}
           val(j) == acc[CHOOSE i \in 1..Len(acc) : acc[i][1] = j][2]
           keep == SelectSeq([j \in 1..Len(cs) |-> j], LAMBDA j : j \in got \/ cs[j].o = "DEF")
       IN IF \E j \in 1..Len(cs) : cs[j].o = "REQ" /\ j \notin got THEN FAIL
          ELSE OK([f |-> [i \in 1..Len(keep) |-> [n |-> cs[keep[i]].n,
                     v |-> IF keep[i] \in got THEN val(keep[i]) ELSE Full(cs[keep[i]].t, cs[keep[i]].d)]]], <<>>)
  ELSE LET h == Hdr(bs)
           cand == IF h.ok THEN {j \in 1..Len(cs) : Starts(cs[j].t, h.tag) /\ \A i \in 1..Len(acc) : acc[i][1] # j} ELSE {}
       IN IF cand = {} THEN FAIL
          ELSE LET j == CHOOSE j \in cand : \A i \in cand : j <= i
                   d == Dec(cs[j].t, bs)
               IN IF d.ok THEN DecSet(cs, d.rest, Append(acc, <<j, d.v>>)) ELSE FAIL
DecList(t, bs, acc) ==
  IF bs = <<>> THEN OK([l |-> acc], <<>>)
  ELSE LET d == Dec(t, bs) IN IF d.ok THEN DecList(t, d.rest, Append(acc, d.v)) ELSE FAIL

\* a whole message
Decodes(t, bs) == LET d == Dec(t, bs) IN d.ok /\ d.rest = <<>>
===========================================================================
