--------------------------- MODULE Asn1Notation ---------------------------
(* ASN.1 (X.680) module notation as TLA+ terms.  The files under schema/   *)
(* transcribe the ASN.1 modules of the RFCs with these operators; every    *)
(* other module of the specification gives them meaning.                   *)
EXTENDS Integers, Sequences

(* ---- integers as two's complement byte strings (TLC integers are 32 bit) *)
RECURSIVE NatBytes(_)
NatBytes(n) == IF n < 256 THEN <<n>> ELSE Append(NatBytes(n \div 256), n % 256)
RECURSIVE NegBytes(_, _)
\* n < 0, in w bytes
NegBytes(n, w) == IF w = 1 THEN <<(n + 256) % 256>>
                  ELSE Append(NegBytes((n - (n % 256)) \div 256, w - 1), n % 256)
I(n) == IF n >= 0
        THEN LET b == NatBytes(n) IN IF b[1] >= 128 THEN <<0>> \o b ELSE b
        ELSE IF n >= -128 THEN NegBytes(n, 1)
        ELSE IF n >= -32768 THEN NegBytes(n, 2)
        ELSE IF n >= -8388608 THEN NegBytes(n, 3) ELSE NegBytes(n, 4)
BIG(bytes) == bytes
NOBOUND == <<>>

(* ---- tag classes *)
UNIV == 0
APP  == 1
CTX  == 2
PRIV == 3

(* ---- types: k kind, g tagging operations innermost first, c constraints, *)
(*      nv named numbers or bits                                            *)
Prim(k) == [k |-> k, g |-> <<>>, c |-> <<>>, nv |-> <<>>]
INTEGER == Prim("INT")
BOOLEAN_T == Prim("BOOL")
ENUMERATED == Prim("ENUM")
BIT_STRING == Prim("BITS")
OCTET_STRING == Prim("OCT")
NULL_T == Prim("NULL")
OBJECT_IDENTIFIER == Prim("OID")
ANY_T == Prim("ANY")
UTF8String == Prim("UTF8")
NumericString == Prim("NUMERIC")
PrintableString == Prim("PRINTABLE")
TeletexString == Prim("TELETEX")
IA5String == Prim("IA5")
VisibleString == Prim("VISIBLE")
UniversalString == Prim("UNIVERSAL")
BMPString == Prim("BMP")
GeneralizedTime == Prim("GENT")
UTCTime == Prim("UTCT")
R(m, n) == [k |-> "REF", m |-> m, n |-> n, g |-> <<>>, c |-> <<>>, nv |-> <<>>]
SEQUENCE(cs) == [k |-> "SEQ", cs |-> cs, g |-> <<>>, c |-> <<>>, nv |-> <<>>]
SET_T(cs) == [k |-> "SET", cs |-> cs, g |-> <<>>, c |-> <<>>, nv |-> <<>>]
CHOICE(cs) == [k |-> "CHOICE", cs |-> cs, g |-> <<>>, c |-> <<>>, nv |-> <<>>]
SEQUENCE_OF(t) == [k |-> "SEQOF", of |-> t, g |-> <<>>, c |-> <<>>, nv |-> <<>>]
SET_OF(t) == [k |-> "SETOF", of |-> t, g |-> <<>>, c |-> <<>>, nv |-> <<>>]
EXPL(cls, n, t) == [t EXCEPT !.g = Append(@, <<"E", cls, n>>)]
IMPL(cls, n, t) == [t EXCEPT !.g = Append(@, <<"I", cls, n>>)]
\* a tag on an open type that keeps the primitive form (not ASN.1: see Deviations)
PRIMTAG(cls, n, t) == [t EXCEPT !.g = Append(@, <<"P", cls, n>>)]
CON(t, con) == [t EXCEPT !.c = Append(@, con)]
NAMED(t, names) == [t EXCEPT !.nv = names]
NV(name, n) == [n |-> name, v |-> n]

(* ---- components: o optionality, d default, ot governing field and table *)
NoDefault == [z |-> 0]
REQ(n, t) == [n |-> n, t |-> t, o |-> "REQ", d |-> NoDefault, ot |-> <<>>]
OPT(n, t) == [n |-> n, t |-> t, o |-> "OPT", d |-> NoDefault, ot |-> <<>>]
DFLT(n, t, d) == [n |-> n, t |-> t, o |-> "DEF", d |-> d, ot |-> <<>>]
OPEN(field, m, table, comp) == [comp EXCEPT !.ot = <<field, m, table>>]

(* ---- constraints *)
MAXSIZE == -1
SIZE(lo, hi) == [q |-> "size", lo |-> lo, hi |-> hi]
RANGE(lo, hi) == [q |-> "range", lo |-> lo, hi |-> hi]
VALUES(vs) == [q |-> "values", vs |-> vs]
ALPHABET(codes) == [q |-> "alphabet", cs |-> codes]
EITHER(cons) == [q |-> "either", cs |-> cons]
WITHCOMP(fields) == [q |-> "with", fs |-> fields]

(* ---- values *)
VI(n) == [i |-> I(n)]
VBIG(bytes) == [i |-> bytes]
VB(b) == [b |-> b]
VBITS(unused, bytes) == [u |-> unused, bs |-> bytes]
VOCT(bytes) == [s |-> bytes]
VSTR(codes) == [s |-> codes]
VANY(bytes) == [a |-> bytes]
VNULL == [z |-> 0]
VOID(arcs) == [o |-> arcs]
VSEQ(fields) == [f |-> fields]
FV(n, v) == [n |-> n, v |-> v]
VOF(vs) == [l |-> vs]
VCH(n, v) == [ch |-> n, v |-> v]
CONST(t, v) == [t |-> t, v |-> v, set |-> TRUE]
SCHEMA(t) == [t |-> t, v |-> VNULL, set |-> FALSE]

(* ---- open type table entries *)
ENTRY(m, table, key, t) == [m |-> m, tb |-> table, key |-> key, t |-> t]
===========================================================================
