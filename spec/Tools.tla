-------------------------------- MODULE Tools -----------------------------
(* The dump tools: a command line, a text on standard input made of PEM      *)
(* blocks and other lines (or one base64 text), and a tool that takes it     *)
(* block by block, printing each object, until it reports or gives up.       *)
EXTENDS Probes, Json

CONSTANTS MaxItems,   \* blocks and lines of a text
          Furnished,  \* sample values with registered identifiers
          Many        \* sample values per type: salts 1..Many

VARIABLES tool, args, shelf, text, pos, printed, verdict
vars == <<tool, args, shelf, text, pos, printed, verdict>>

PemTools == {"x509dump", "x509dump-rfc5280", "pkcs10dump", "crldump", "pkcs1dump", "pkcs8dump"}
TextTools == {"ocspreqdump", "ocsprspdump", "cmpdump", "crmfdump"}
AllTools == PemTools \cup TextTools \cup {"pkcs7dump", "cmcdump"}
CMS == "rfc5652"

\* what each tool reads: <<block name, type>>, by marker
Kinds(tl) ==
  CASE tl = "x509dump" -> <<<<"CERTIFICATE", R("rfc2459", "Certificate")>>>>
    [] tl = "x509dump-rfc5280" -> <<<<"CERTIFICATE", R("rfc5280", "Certificate")>>>>
    [] tl = "pkcs10dump" -> <<<<"CERTIFICATE REQUEST", R("rfc2314", "CertificationRequest")>>>>
    [] tl = "crldump" -> <<<<"X509 CRL", R("rfc2459", "CertificateList")>>>>
    [] tl = "pkcs1dump" -> <<<<"RSA PRIVATE KEY", R("rfc2437", "RSAPrivateKey")>>, <<"DSA PRIVATE KEY", R("rfc2459", "DSAPrivateKey")>>>>
    [] tl = "pkcs8dump" -> <<<<"PRIVATE KEY", R("rfc5208", "PrivateKeyInfo")>>, <<"ENCRYPTED PRIVATE KEY", R("rfc5208", "EncryptedPrivateKeyInfo")>>>>
    [] tl = "ocspreqdump" -> <<<<"", R("rfc2560", "OCSPRequest")>>>>
    [] tl = "ocsprspdump" -> <<<<"", R("rfc2560", "OCSPResponse")>>>>
    [] tl = "cmpdump" -> <<<<"", R("rfc4210", "PKIMessage")>>>>
    [] tl = "crmfdump" -> <<<<"", R("rfc2511", "CertReqMessages")>>>>
    [] tl = "pkcs7dump" -> <<<<"PKCS7", R("rfc2315", "ContentInfo")>>>>
    [] tl = "cmcdump" -> <<<<"", R(CMS, "ContentInfo")>>>>

(* ---- layers of a content info *)
Pkcs7 == <<1, 2, 840, 113549, 1, 7>>
P7Content(n) == CASE n = 1 -> R("rfc2315", "Data") [] n = 2 -> R("rfc2315", "SignedData") [] n = 3 -> R("rfc2315", "EnvelopedData")
                  [] n = 4 -> R("rfc2315", "SignedAndEnvelopedData") [] n = 5 -> R("rfc2315", "DigestedData") [] OTHER -> R("rfc2315", "EncryptedData")
PKIDATA == <<1, 3, 6, 1, 5, 5, 7, 12, 2>>
SIGNED == Append(Pkcs7, 2)
CINFO == <<1, 2, 840, 113549, 1, 9, 16, 1, 6>>
Info(t, oid, content) == Enc(t, [f |-> <<FV("contentType", VOID(oid)), FV("content", VANY(content))>>])
BareInfo(t, oid) == Enc(t, [f |-> <<FV("contentType", VOID(oid))>>])
\* a SignedData around some content
Signed(oid, octs, salt, fuel) ==
  LET t == R(CMS, "SignedData")
      r == Res(t)
      base == Sam(t, salt, fuel)
      er == Res(Comp(r, "encapContentInfo").t)
  IN Enc(t, WithField(r, base, "encapContentInfo", [f |-> <<FV("eContentType", VOID(oid)), FV("eContent", VOCT(octs))>>]))

\* what is inside octets the tool has taken for a layer of type t: <<type, octets>>,
\* "end" when there is nothing more to open, "unknown" when the tool cannot know
Inner(tl, t, v) ==
  IF tl = "pkcs7dump" THEN
       IF t # R("rfc2315", "ContentInfo") \/ ~HasField(v, "content") THEN <<"end">>
       ELSE LET o == Field(v, "contentType").o IN
            IF Len(o) = 7 /\ SubSeq(o, 1, 6) = Pkcs7 /\ o[7] \in 1..6 THEN <<"layer", P7Content(o[7]), Field(v, "content").a>> ELSE <<"unknown">>
  ELSE IF tl = "cmcdump" THEN
       CASE t = R(CMS, "ContentInfo") ->
              LET o == Field(v, "contentType").o IN
              IF o = CINFO THEN <<"layer", R(CMS, "ContentInfo"), Field(v, "content").a>>
              ELSE IF o = SIGNED THEN <<"layer", R(CMS, "SignedData"), Field(v, "content").a>>
              ELSE IF o = PKIDATA THEN <<"layer", R("rfc6402", "PKIData"), Field(v, "content").a>> ELSE <<"bad">>
         [] t = R(CMS, "SignedData") ->
              LET e == Field(v, "encapContentInfo") o == Field(e, "eContentType").o IN
              IF ~HasField(e, "eContent") THEN <<"bad">>
              ELSE IF o = CINFO THEN <<"layer", R(CMS, "ContentInfo"), Field(e, "eContent").s>>
              ELSE IF o = SIGNED THEN <<"layer", R(CMS, "SignedData"), Field(e, "eContent").s>>
              ELSE IF o = PKIDATA THEN <<"layer", R("rfc6402", "PKIData"), Field(e, "eContent").s>> ELSE <<"bad">>
         [] OTHER -> <<"end">>
  ELSE <<"end">>
\* may octets follow the object?  (in a PEM block, and behind the content of a PKCS#7 block)
Lenient(tl) == tl \in PemTools \cup {"pkcs7dump"}

\* taking octets for an object of type t: what is printed, and how it ends
RECURSIVE Take(_, _, _)
Take(tl, t, octs) ==
  LET d == Dec(t, octs) IN
  IF ~d.ok THEN [prints |-> <<>>, ends |-> "error"]
  ELSE LET own == SubSeq(octs, 1, Len(octs) - Len(d.rest))
           same == Enc(t, d.v) = own
           show == <<[m |-> t.m, n |-> t.n, der |-> own]>>
       IN IF ~same \/ (d.rest # <<>> /\ ~Lenient(tl)) THEN [prints |-> <<>>, ends |-> "error"]
          ELSE LET i == Inner(tl, t, d.v) IN
               CASE i[1] = "end" -> [prints |-> show, ends |-> "ok"]
                 [] i[1] = "unknown" -> [prints |-> <<>>, ends |-> "either"]
                 [] i[1] = "bad" -> [prints |-> <<>>, ends |-> "error"]
                 [] OTHER -> LET q == Take(tl, i[2], i[3]) IN [prints |-> show \o q.prints, ends |-> q.ends]

(* ---- objects to put on the shelf *)
Object(tl, mk, octs, why) == [mk |-> mk, octs |-> octs, why |-> why, got |-> TLCEval(Take(tl, Kinds(tl)[mk][2], octs))]
Longer(octs) == \* the length with an octet too many
  LET h == octs[2] IN IF h < 128 THEN <<octs[1], 129>> \o Tail(octs)
                      ELSE <<octs[1], h + 1, 0>> \o SubSeq(octs, 3, Len(octs))
Damage(octs, k) ==
  CASE k = "cut" -> SubSeq(octs, 1, Len(octs) - 1)
    [] k = "half" -> SubSeq(octs, 1, (Len(octs) + 1) \div 2)
    [] k = "followed" -> octs \o <<5, 0>>
    [] k = "tag" -> <<49>> \o Tail(octs)
    [] k = "length" -> Longer(octs)
    [] k = "other" -> <<2, 1, 5>>
    [] k = "indefinite" -> LET h == Hdr(octs) IN <<octs[1], 128>> \o SubSeq(octs, h.start, Len(octs)) \o <<0, 0>>
    [] k = "inside" -> LET h == Hdr(octs) IN SubSeq(octs, 1, h.start - 1) \o Alien(3) \o SubSeq(octs, h.start, Len(octs))
    [] OTHER -> octs
Damages == <<"cut", "half", "followed", "tag", "length", "other", "indefinite", "inside">>
Whole(t, salt, fuel) == Enc(t, Sam(t, salt, fuel))
InfoOf(tl, n, salt, fuel) ==
  IF tl = "pkcs7dump" THEN Info(R("rfc2315", "ContentInfo"), Append(Pkcs7, n), Whole(P7Content(n), salt, fuel))
  ELSE LET p == Whole(R("rfc6402", "PKIData"), salt, fuel)
           ci(o, x) == Info(R(CMS, "ContentInfo"), o, x)
           sd(o, x) == Signed(o, x, salt + n, fuel)
       IN CASE n = 1 -> ci(PKIDATA, p)
            [] n = 2 -> ci(SIGNED, sd(PKIDATA, p))
            [] n = 3 -> ci(CINFO, ci(SIGNED, sd(PKIDATA, p)))
            [] n = 4 -> ci(SIGNED, sd(SIGNED, sd(PKIDATA, p)))
            [] n = 5 -> ci(SIGNED, sd(CINFO, ci(PKIDATA, p)))
            [] OTHER -> ci(CINFO, ci(CINFO, ci(PKIDATA, p)))
Layered == {"pkcs7dump", "cmcdump"}
\* the same value with every string in it grown large, as far as its type lets it
RECURSIVE Swell(_, _)
Swell(t, v) ==
  LET r == Res(t)
      try(x) == IF r.nv = <<>> /\ HoldsAll(r, x) THEN x ELSE v
  IN CASE r.k \in {"SEQ", "SET"} -> [f |-> TLCEval([i \in 1..Len(v.f) |-> [n |-> v.f[i].n, v |-> Swell(Comp(r, v.f[i].n).t, v.f[i].v)]])]
       [] r.k = "CHOICE" -> [ch |-> v.ch, v |-> Swell(AltOf(r, v).t, v.v)]
       [] r.k \in {"SEQOF", "SETOF"} -> [l |-> TLCEval([i \in 1..Len(v.l) |-> Swell(r.of, v.l[i])])]
       [] r.k \in {"OCT", "BITS", "UTF8", "IA5", "PRINTABLE"} -> try(MkSized(r, 3001, 1))
       [] r.k = "INT" -> try(VBIG([i \in 1..260 |-> 1]))
       [] OTHER -> v
Large(t, salt) == Enc(t, Swell(t, Sam(t, salt, 2)))
RichOf(tl, mk, s) ==
  IF tl = "pkcs7dump" THEN Info(R("rfc2315", "ContentInfo"), Append(Pkcs7, 1 + (s % 6)), Rich(P7Content(1 + (s % 6)), s))
  ELSE IF tl = "cmcdump" THEN Info(R(CMS, "ContentInfo"), SIGNED, Signed(PKIDATA, Rich(R("rfc6402", "PKIData"), s), s, 1))
  ELSE Rich(Kinds(tl)[mk][2], s)
LargeInfo(tl) ==
  IF tl = "pkcs7dump" THEN Info(R("rfc2315", "ContentInfo"), Append(Pkcs7, 2), Large(P7Content(2), 3))
  ELSE Info(R(CMS, "ContentInfo"), SIGNED, Signed(PKIDATA, Large(R("rfc6402", "PKIData"), 3), 3, 1))
OneOf(tl, mk, salt, fuel) == IF tl \in Layered THEN InfoOf(tl, 1 + (salt % 6), salt, fuel) ELSE Whole(Kinds(tl)[mk][2], salt, fuel)
\* content infos that are wrong inside
WrongInside(tl) ==
  IF tl = "pkcs7dump" THEN
     LET t == R("rfc2315", "ContentInfo") IN
     <<Object(tl, 1, Info(t, SIGNED, <<2, 1, 5>>), "content of another type"),
       Object(tl, 1, Info(t, Append(Pkcs7, 6), Damage(Whole(P7Content(6), 1, 1), "inside")), "content damaged"),
       Object(tl, 1, Info(t, Append(Pkcs7, 9), <<4, 1, 5>>), "content of a type PKCS#7 does not have"),
       Object(tl, 1, BareInfo(t, Append(Pkcs7, 1)), "no content"),
       Object(tl, 1, BareInfo(t, Append(Pkcs7, 2)), "no content")>>
  ELSE IF tl = "cmcdump" THEN
     LET t == R(CMS, "ContentInfo")
         p == Whole(R("rfc6402", "PKIData"), 2, 1)
         one(o, x, w) == Object(tl, 1, Info(t, o, x), w)
     IN <<one(PKIDATA, Damage(p, "cut"), "inner object cut"), one(PKIDATA, Damage(p, "length"), "inner length"),
          one(PKIDATA, <<2, 1, 5>>, "inner object of another type"),
          one(Append(Pkcs7, 3), p, "unknown content"), one(SIGNED, p, "wrong content"),
          one(SIGNED, Signed(PKIDATA, Damage(p, "cut"), 3, 1), "inner object cut"),
          one(SIGNED, Signed(PKIDATA, Damage(p, "followed"), 3, 1), "inner object followed by more"),
          one(SIGNED, Signed(PKIDATA, Damage(p, "length"), 3, 1), "inner length"),
          one(SIGNED, Signed(<<1, 3, 6, 1, 5, 5, 7, 12, 3>>, p, 3, 1), "unknown inner content"),
          one(CINFO, Signed(PKIDATA, p, 3, 1), "wrong content")>>
  ELSE <<>>
\* a few objects, whole and damaged, of every marker
Shelf(tl) ==
  FlattenSeq([mk \in 1..Len(Kinds(tl)) |->
    LET a == TLCEval(OneOf(tl, mk, 1 + mk, 1)) b == TLCEval(OneOf(tl, mk, 9, 0))
    IN <<Object(tl, mk, a, "whole"), Object(tl, mk, b, "whole")>>
       \o (IF mk > 1 THEN <<Object(tl, mk, Damage(a, "cut"), "cut")>>
           ELSE [i \in 1..Len(Damages) |-> Object(tl, mk, Damage(a, Damages[i]), Damages[i])])])
  \o WrongInside(tl)
\* the single objects: many samples, each component of the type, and defaults spelt out
Singles(tl) ==
  FlattenSeq([mk \in 1..Len(Kinds(tl)) |->
    LET t == Kinds(tl)[mk][2]
        vg == IF tl \in Layered THEN <<>> ELSE ValGroup(t, 1)
        dg == IF tl \in Layered THEN <<>> ELSE SelectSeq(DefGroup(t), LAMBDA p : p.k = "dec")
    IN [i \in 1..Many |-> <<mk, TLCEval(OneOf(tl, mk, i, 1 + (i % 3))), "sample">>]
       \o [i \in 1..Len(vg) |-> <<mk, vg[i].der, vg[i].why>>]
       \o [i \in 1..Len(dg) |-> <<mk, dg[i].der, dg[i].why>>]
       \o [i \in 1..Furnished |-> <<mk, RichOf(tl, mk, i * 3), "registered">>]
       \o [i \in 1..2 |-> <<mk, TLCEval(IF tl \in Layered THEN LargeInfo(tl) ELSE Large(t, 2 + i)), "large">>]
       \o FlattenSeq([i \in 1..(IF Many > 10 THEN 10 ELSE 3) |->
              LET o == TLCEval(OneOf(tl, mk, i + 20, i % 3)) IN [j \in 1..Len(Damages) |-> <<mk, TLCEval(Damage(o, Damages[j])), Damages[j]>>]])])

\* lines of a text: an object of the shelf, or one of these
SPAM == 0      \* a line of something else
FOREIGN == -1  \* a block with other markers
OPENED == -2   \* a start marker and no end marker, at the very end
EMPTY == -3    \* a block without content
Usages == {<<"x">>, <<"-h", "y">>, <<"-d">>, <<"-d", "x">>, <<"x", "-d">>, <<"-d", "-d">>, <<"">>, <<"-">>, <<"--">>, <<"-D">>, <<"-dd">>,
           <<"x", "y", "z">>, <<"-d", "x", "y">>}

Init ==
  /\ tool \in AllTools /\ pos = 0 /\ printed = <<>> /\ verdict = "writing"
  /\ \/ args = <<>> /\ shelf = TLCEval(Shelf(tool)) /\ text = <<>>
     \* a long text
     \/ args = <<>> /\ tool \in PemTools /\ shelf = TLCEval(Shelf(tool))
        /\ \E n \in {101} : \E last \in {"whole", "cut", "foreign"} : \E good \in {{i \in 1..Len(shelf) : shelf[i].why = "whole"}} :
             LET q == SetToSeq(good) IN
             text = [i \in 1..n |-> IF i = n /\ last = "cut" THEN CHOOSE j \in 1..Len(shelf) : shelf[j].why = "cut"
                                    ELSE IF i = n /\ last = "foreign" THEN FOREIGN ELSE IF (i % 50) = 49 THEN SPAM ELSE q[(i % Len(q)) + 1]]
     \/ args \in Usages /\ shelf = TLCEval(SubSeq(Shelf(tool), 1, 1)) /\ text = <<1>>
     \/ /\ args \in (IF tool = "cmpdump" THEN {<<>>, <<"-d">>} ELSE {<<>>}) /\ text = <<1>>
        /\ \E s \in {Singles(tool)} : \E i \in 1..Len(s) : shelf = TLCEval(<<Object(tool, s[i][1], s[i][2], s[i][3])>>)
Limit == IF tool \in PemTools THEN MaxItems ELSE IF tool = "pkcs7dump" THEN 2 ELSE 1
Write ==
  /\ verdict = "writing" /\ Len(text) < Limit /\ Len(shelf) > 1
  /\ (text # <<>> => text[Len(text)] # OPENED)
  /\ \E x \in 1..Len(shelf) \cup (IF tool \in PemTools \cup {"pkcs7dump"} THEN {SPAM, FOREIGN, OPENED, EMPTY} ELSE {}) : text' = Append(text, x)
  /\ UNCHANGED <<tool, args, shelf, pos, printed, verdict>>
\* cmpdump takes -d
Accepts == args = <<>> \/ (tool = "cmpdump" /\ args = <<"-d">>)
Start == /\ verdict = "writing"
         /\ verdict' = IF Accepts THEN "running" ELSE "usage"
         /\ UNCHANGED <<tool, args, shelf, text, pos, printed>>
Count(p) == Cardinality({i \in 1..Len(p) : p[i].top})
\* what is said when the input is at its end
AtEnd == IF tool \in PemTools THEN "ok"
         ELSE IF tool = "pkcs7dump" THEN (IF printed # <<>> THEN "ok" ELSE "error")
         ELSE IF printed # <<>> THEN "ok" ELSE IF tool = "cmcdump" THEN "either" ELSE "nothing"
TakeOne ==
  /\ verdict = "running"
  /\ IF pos = Len(text) \/ (tool = "pkcs7dump" /\ printed # <<>>)
     THEN verdict' = AtEnd /\ UNCHANGED <<pos, printed>>
     ELSE LET x == text[pos + 1] IN
          /\ pos' = pos + 1
          /\ IF x \in {SPAM, FOREIGN} THEN UNCHANGED <<printed, verdict>>
             ELSE IF x \in {OPENED, EMPTY} THEN verdict' = "either" /\ UNCHANGED printed
             ELSE LET g == shelf[x].got IN
                  /\ printed' = IF g.ends = "ok" THEN printed \o [i \in 1..Len(g.prints) |->
                                    [m |-> g.prints[i].m, n |-> g.prints[i].n, der |-> g.prints[i].der, top |-> i = 1]] ELSE printed
                  /\ verdict' = IF g.ends = "ok" THEN verdict ELSE g.ends
  /\ UNCHANGED <<tool, args, shelf, text>>
Over == {"ok", "error", "either", "usage", "nothing"}
Line(x) == IF x > 0 THEN [k |-> "object", name |-> Kinds(tool)[shelf[x].mk][1], octs |-> shelf[x].octs, why |-> shelf[x].why]
           ELSE [k |-> CASE x = SPAM -> "spam" [] x = FOREIGN -> "foreign" [] x = OPENED -> "opened" [] OTHER -> "empty", name |-> Kinds(tool)[1][1], octs |-> <<>>, why |-> ""]
Tell == /\ verdict \in Over
        /\ verdict' = "told"
        /\ PrintT("RUN " \o ToJson([tool |-> tool, args |-> args, lines |-> [i \in 1..Len(text) |-> Line(text[i])],
                                    verdict |-> verdict, count |-> Count(printed), printed |-> printed, pem |-> tool \in PemTools \cup {"pkcs7dump"}]))
        /\ UNCHANGED <<tool, args, shelf, text, pos, printed>>
Next == Write \/ Start \/ TakeOne \/ Tell
Spec == Init /\ [][Next]_vars

(* ---- *)
Done == verdict \in {"ok", "nothing"}
Objects == {i \in 1..Len(text) : text[i] > 0}
\* success is reported only when every object was taken and printed, and as many as there are
AllTaken == (verdict = "ok" /\ tool \in PemTools) =>
   /\ \A i \in Objects : shelf[text[i]].got.ends = "ok"
   /\ Count(printed) = Cardinality(Objects)
\* nothing that differs from its own encoding, or is not of the type, is passed
Sound == \A i \in 1..Len(printed) : LET t == R(printed[i].m, printed[i].n) d == Dec(t, printed[i].der)
                                   IN d.ok /\ d.rest = <<>> /\ Enc(t, d.v) = printed[i].der
\* whole objects of the tool's own kind are always taken
Whole1 == \A i \in 1..Len(shelf) : shelf[i].why \in {"whole", "sample", "large", "registered"} => shelf[i].got.ends = "ok"
Stops == verdict = "usage" => printed = <<>> /\ pos = 0
===========================================================================
