------------------------------- MODULE Clients ----------------------------
(* The two clients: snmpget asks an agent for one object, ocspclient asks a  *)
(* responder about one certificate.  The peer answers anything or nothing.   *)
EXTENDS Probes, Json
H == INSTANCE Sha1

CONSTANTS Many        \* sample answers and certificate pairs: salts 1..Many

VARIABLES who, ask, request, sent, answer, verdict
vars == <<who, ask, request, sent, answer, verdict>>

(* ---- SNMP *)
MSG == R("rfc1157", "Message")
Str(s) == s   \* octets of a community
Public == <<112, 117, 98, 108, 105, 99>>
Communities == <<Public, <<97>>, <<112, 114, 105, 118, 97, 116, 101, 64, 50, 32, 120>>, [i \in 1..130 |-> 97 + (i % 26)], [i \in 1..255 |-> 48 + (i % 10)], <<35, 36, 37, 126>>,
                 <<32, 97, 66, 32, 32>>, <<48>>, <<45, 118>>, <<>>>>
SysDescr == <<1, 3, 6, 1, 2, 1, 1, 1, 0>>
Oids == <<SysDescr, <<0, 0>>, <<1, 3>>, <<1, 3, 6, 1, 4, 1, 8072, 3, 2, 10>>, <<2, 999, 3>>, <<2, 39, 16383, 16384, 128, 127>>,
          <<1, 3, 6, 1, 2, 1, 2, 2, 1, 10, 2147483647>>, <<1, 39, 0>>, <<0, 39, 1>>, <<2, 40, 1>>,
          <<1, 3, 6, 1, 2, 1>> \o [i \in 1..120 |-> 100 + i]>>
Hosts == <<"127.0.0.1", "agent.example.org">>
\* a request: everything but its number
AskMsg(id, c, o) ==
  [f |-> <<FV("version", VI(0)), FV("community", VOCT(c)),
           FV("data", VCH("get-request", [f |-> <<FV("request-id", VI(id)), FV("error-status", VI(0)), FV("error-index", VI(0)),
              FV("variable-bindings", [l |-> <<[f |-> <<FV("name", VOID(o)), FV("value", VCH("simple", VCH("empty", VNULL)))>>]>>])>>]))>>]
Reply(pdu, id, c, st, ix, o, val) ==
  [f |-> <<FV("version", VI(0)), FV("community", VOCT(c)),
           FV("data", VCH(pdu, [f |-> <<FV("request-id", VI(id)), FV("error-status", VI(st)), FV("error-index", VI(ix)),
              FV("variable-bindings", [l |-> <<[f |-> <<FV("name", VOID(o)), FV("value", val)>>]>>])>>]))>>]
\* with any number of variables
Variables(c, bs) ==
  [f |-> <<FV("version", VI(0)), FV("community", VOCT(c)),
           FV("data", VCH("get-response", [f |-> <<FV("request-id", VI(123)), FV("error-status", VI(0)), FV("error-index", VI(0)),
              FV("variable-bindings", [l |-> [i \in 1..Len(bs) |-> [f |-> <<FV("name", VOID(bs[i][1])), FV("value", bs[i][2])>>]]])>>]))>>]
NoVal == VCH("simple", VCH("empty", VNULL))
App(n, v) == VCH("application-wide", VCH(n, v))
Sim(n, v) == VCH("simple", VCH(n, v))
Vals(n) == <<NoVal, Sim("number", VI(n)), Sim("number", VI(-1 - n)), Sim("number", VBIG(<<127, 255, 255, 255>>)),
          Sim("string", VOCT([i \in 1..n |-> 32 + (i % 90)])), Sim("string", VOCT(<<>>)), Sim("string", VOCT([i \in 1..1400 |-> (i * n) % 256])),
          Sim("object", VOID(<<1, 3, 6, 1, 4, 1, n>>)),
          App("address", VCH("internet", VOCT(<<10, 0, n % 256, 255>>))), App("counter", VBIG(<<0, 255, 255, 255, 255>>)), App("counter", VI(n)),
          App("gauge", VI(n)), App("ticks", VBIG(<<0, 222, 173, n % 256, 1>>)), App("arbitrary", VOCT(<<159, 120, 4, 66, 246, 0, n % 256>>))>>
Answer(octs, why) == [octs |-> octs, why |-> why]
Good(v, why) == Answer(Enc(MSG, v), why)
\* lengths written in three octets, as many agents do
RECURSIVE Stretch(_)
Stretch(octs) == IF octs = <<>> THEN <<>>
  ELSE LET h == Hdr(octs)
           c == IF (octs[1] \div 32) % 2 = 1 THEN Stretch(ContentOf(octs, h)) ELSE ContentOf(octs, h)
       IN <<octs[1], 130, Len(c) \div 256, Len(c) % 256>> \o c \o Stretch(RestOf(octs, h))
Trap == [f |-> <<FV("version", VI(0)), FV("community", VOCT(Public)),
     FV("data", VCH("trap", [f |-> <<FV("enterprise", VOID(<<1, 3, 6, 1, 4, 1, 9>>)), FV("agent-addr", VCH("internet", VOCT(<<10, 0, 0, 1>>))),
        FV("generic-trap", VI(6)), FV("specific-trap", VI(3)), FV("time-stamp", VI(77)), FV("variable-bindings", [l |-> <<>>])>>]))>>]
Cut(o, n) == SubSeq(o, 1, Len(o) - n)
SnmpAnswers ==
  LET whole == Enc(MSG, Reply("get-response", 123, Public, 0, 0, SysDescr, Sim("string", VOCT(<<72, 105>>))))
      val(n) == LET vs == Vals(n) IN [i \in 1..Len(vs) |-> Good(Reply("get-response", 123, Public, 0, 0, SysDescr, vs[i]), "value")]
  IN FlattenSeq([n \in 1..Many |-> val(n * 3)])
     \o [s \in 1..5 |-> Good(Reply("get-response", 123, Public, s, 1, SysDescr, NoVal), "error status")]
     \o <<Good(Variables(Public, <<>>), "no variable"), Good(Variables(<<>>, <<<<SysDescr, Sim("number", VI(7))>>>>), "no community"),
          Good(Variables(<<112>>, [i \in 1..3 |-> <<<<1, 3, 6, 1, i>>, Vals(i)[i + 1]>>]), "three variables"),
          Good(Variables(Public, [i \in 1..40 |-> <<<<1, 3, 6, 1, 4, 1, i * 1000>>, Vals(i)[1 + (i % 6)]>>]), "many variables")>>
     \o <<Answer(Stretch(whole), "long lengths"), Good(Trap, "trap"),
          Good(Reply("get-response", -2, Public, 0, 0, <<1, 3>>, NoVal), "another number"),
          Answer(Cut(whole, 1), "cut"), Answer(SubSeq(whole, 1, 1), "cut"), Answer(SubSeq(whole, 1, 9), "cut"), Answer(<<>>, "empty"),
          Answer(<<49>> \o Tail(whole), "tag"), Answer(<<2, 1, 5>>, "other"), Answer(<<5, 0>>, "other"),
          Answer(SubSeq(whole, 1, 2) \o <<4, 1, 0>> \o SubSeq(whole, 6, Len(whole)), "version of another type")>>

(* ---- OCSP *)
CERT == R("rfc2459", "Certificate")
OREQ == R("rfc2560", "OCSPRequest")
ORSP == R("rfc2560", "OCSPResponse")
BASIC == R("rfc2560", "BasicOCSPResponse")
BasicOid == <<1, 3, 6, 1, 5, 5, 7, 48, 1, 1>>
Sha1Oid == <<1, 3, 14, 3, 2, 26>>
Serials == <<I(1), I(0), I(127), I(128), I(65535), <<0, 214, 71, 12, 33, 9, 200, 17, 18, 19, 20, 99, 98, 97, 96, 95, 94>>, <<17, 34, 51, 68, 85, 102, 119, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20>>, I(16777216)>>
Key(n) == VBITS(0, [i \in 1..(18 + ((n * 29) % 150)) |-> (i * n + 7) % 256])
\* every other name and certificate has registered identifiers in it
Some(t, n) == LET v == TLCEval(Sam(t, n, n % 3)) IN IF n % 2 = 0 THEN Furnish(t, v, n) ELSE v
Name(n) == Some(R("rfc2459", "Name"), n)
\* a certificate with the given subject, issuer, key and serial number
Cert(n, subj, iss, key, ser) ==
  LET cr == Res(CERT)
      base == Some(CERT, n)
      tr == Res(Comp(cr, "tbsCertificate").t)
      kr == Res(Comp(tr, "subjectPublicKeyInfo").t)
      tbs == Field(base, "tbsCertificate")
      t1 == WithField(tr, tbs, "subject", subj)
      t2 == WithField(tr, t1, "issuer", iss)
      t3 == WithField(tr, t2, "serialNumber", [i |-> ser])
      t4 == WithField(tr, t3, "subjectPublicKeyInfo", WithField(kr, Field(tbs, "subjectPublicKeyInfo"), "subjectPublicKey", key))
  IN WithField(cr, base, "tbsCertificate", t4)
Pair(n) == [ca |-> Cert(n, Name(n), Name(n + 40), Key(n), I(5)),
            user |-> Cert(n + 9, Name(n + 3), Name(n), Key(n + 1), Serials[1 + (n % Len(Serials))])]
\* what a request must be derived from, taken out of the two certificates as given
Tbs(octs) == Field(Dec(CERT, octs).v, "tbsCertificate")
NameT == R("rfc2459", "Name")
Matching(a, b) == Enc(NameT, Field(Tbs(a), "subject")) = Enc(NameT, Field(Tbs(b), "issuer"))
CertId(a, b, params) ==
  [f |-> <<FV("hashAlgorithm", [f |-> <<FV("algorithm", VOID(Sha1Oid))>> \o (IF params THEN <<FV("parameters", VANY(<<5, 0>>))>> ELSE <<>>)]),
           FV("issuerNameHash", VOCT(H!SHA1(Enc(NameT, Field(Tbs(b), "issuer"))))),
           FV("issuerKeyHash", VOCT(H!SHA1(Field(Field(Tbs(a), "subjectPublicKeyInfo"), "subjectPublicKey").bs))),
           FV("serialNumber", Field(Tbs(b), "serialNumber"))>>]
OcspRequest(id) ==
  [f |-> <<FV("tbsRequest", [f |-> <<FV("requestList", [l |-> <<[f |-> <<FV("reqCert", id)>>]>>])>>])>>]
Time(n) == VSTR(<<50, 48>> \o Digit2(n % 30) \o TimeTail(n) \o <<90>>)
GenTime(n) == VSTR(<<50, 48>> \o Digit2(n % 30) \o Digit2(1 + (n % 12)) \o Digit2(1 + (n % 28)) \o Digit2(n % 24) \o Digit2((n * 3) % 60) \o Digit2((n * 7) % 60) \o <<90>>)
Status(k, n) == CASE k = "good" -> VCH("good", VNULL) [] k = "unknown" -> VCH("unknown", VNULL)
                  [] OTHER -> VCH("revoked", [f |-> <<FV("revocationTime", GenTime(n + 5))>> \o (IF n % 2 = 0 THEN <<FV("revocationReason", VI(1))>> ELSE <<>>)])
Single(id, k, n) == [f |-> <<FV("certID", id), FV("certStatus", Status(k, n)), FV("thisUpdate", GenTime(n))>> \o (IF n % 3 = 0 THEN <<FV("nextUpdate", GenTime(n + 1))>> ELSE <<>>)]
Basic(id, k, n) ==
  LET r == Res(BASIC) base == Sam(BASIC, n, n % 3)
      tr == Res(Comp(r, "tbsResponseData").t)
      t1 == WithField(tr, Field(base, "tbsResponseData"), "producedAt", GenTime(n + 11))
      t2 == WithField(tr, t1, "responses", [l |-> <<Single(id, k, n)>> \o (IF n % 4 = 3 THEN <<Single(id, "good", n + 1)>> ELSE <<>>)])
  IN WithField(r, base, "tbsResponseData", t2)
NoneInIt(n) == LET r == Res(BASIC) base == Sam(BASIC, n, 1) tr == Res(Comp(r, "tbsResponseData").t)
               IN WithField(r, base, "tbsResponseData", WithField(tr, Field(base, "tbsResponseData"), "responses", [l |-> <<>>]))
Rsp(st, body) == Enc(ORSP, [f |-> <<FV("responseStatus", VI(st))>> \o (IF body = <<>> THEN <<>> ELSE <<FV("responseBytes", body[1])>>)])
BodyOf(oid, octs) == <<[f |-> <<FV("responseType", VOID(oid)), FV("response", VOCT(octs))>>]>>
OcspAnswers(id) ==
  LET ok(k, n) == Answer(Rsp(0, BodyOf(BasicOid, Enc(BASIC, Basic(id, k, n)))), k)
      one == Enc(BASIC, Basic(id, "good", 5))
      whole == Rsp(0, BodyOf(BasicOid, one))
  IN FlattenSeq([n \in 1..Many |-> <<ok("good", n), ok("revoked", n), ok("unknown", n)>>])
     \o [i \in 1..6 |-> Answer(Rsp(i, <<>>), "error status")]
     \o <<Answer(Rsp(6, BodyOf(BasicOid, one)), "error status with a response"), Answer(Rsp(3, BodyOf(BasicOid, one)), "error status with a response"),
          Answer(Rsp(0, <<>>), "nothing in it"),
          Answer(Rsp(0, BodyOf(Append(Cut(BasicOid, 1), 2), one)), "another response type"),
          Answer(Rsp(0, BodyOf(BasicOid, Cut(one, 1))), "response cut"), Answer(Rsp(0, BodyOf(BasicOid, <<>>)), "response empty"),
          Answer(Rsp(0, BodyOf(BasicOid, <<2, 1, 5>>)), "response of another type"),
          Answer(Rsp(0, BodyOf(BasicOid, Enc(BASIC, NoneInIt(4)))), "no single response"),
          Answer(Cut(whole, 1), "cut"), Answer(SubSeq(whole, 1, 5), "cut"), Answer(<<>>, "empty"), Answer(<<49>> \o Tail(whole), "tag"), Answer(<<2, 1, 5>>, "other"),
          Answer(<<60, 104, 116, 109, 108, 62>>, "not an answer")>>

(* ---- what is asked *)
SnmpAsk(c, o, h) == [args |-> <<>>, community |-> c, oid |-> o, host |-> h, why |-> "plain", blocks |-> <<>>]
SnmpBad(args, why) == [args |-> args, community |-> <<>>, oid |-> <<>>, host |-> "", why |-> why, blocks |-> <<>>]
SnmpAsks == {SnmpAsk(Communities[i], SysDescr, Hosts[1]) : i \in 1..Len(Communities)}
            \cup {SnmpAsk(Communities[2], Oids[i], Hosts[2]) : i \in 1..Len(Oids)}
SnmpBads == {SnmpBad(<<>>, "usage"), SnmpBad(<<"public">>, "usage"), SnmpBad(<<"public", "127.0.0.1">>, "usage"),
             SnmpBad(<<"public", "127.0.0.1", "1.3.6.1", "1.3.6.2">>, "usage"),
             SnmpBad(<<"public", "127.0.0.1", "1.3.6.1", "1.3.6.2", "1.3.6.3">>, "usage"), SnmpBad(<<"-h">>, "usage"),
             SnmpBad(<<"public", "127.0.0.1", "sysDescr.0">>, "bad object"), SnmpBad(<<"public", "127.0.0.1", "1.3.x">>, "bad object"),
             SnmpBad(<<"public", "127.0.0.1", "3.1.2">>, "bad object"), SnmpBad(<<"public", "127.0.0.1", "1.40.2">>, "bad object"),
             SnmpBad(<<"public", "127.0.0.1", "1.3.-6">>, "bad object")}
OcspAsk(blocks, why) == [args |-> <<"URL">>, community |-> <<>>, oid |-> <<>>, host |-> "", why |-> why, blocks |-> blocks]
CertOf(v) == TLCEval(Enc(CERT, v))
OcspAsks == {LET p == TLCEval(Pair(n)) IN OcspAsk(<<CertOf(p.ca), CertOf(p.user)>>, "pair") : n \in 1..Many}
\* a certificate that is its own issuer, asked about itself
OcspSelf == LET c == CertOf(Cert(7, Name(7), Name(7), Key(7), I(300))) IN {OcspAsk(<<c, c>>, "self")}
OcspBads == LET p == TLCEval(Pair(3)) a == CertOf(p.ca) b == CertOf(p.user) IN
            {OcspAsk(<<b, a>>, "other way round"), OcspAsk(<<a>>, "one certificate"), OcspAsk(<<>>, "no certificate"),
             OcspAsk(<<Cut(a, 1), b>>, "cut"), OcspAsk(<<a, Cut(b, 1)>>, "cut"), OcspAsk(<<a, <<2, 1, 5>>>>, "other"), OcspAsk(<<<<48, 0>>, b>>, "other"),
             [OcspAsk(<<a, b>>, "usage") EXCEPT !.args = <<>>], [OcspAsk(<<a, b>>, "usage") EXCEPT !.args = <<"URL", "x">>], [OcspAsk(<<a, b>>, "usage") EXCEPT !.args = <<"URL", "x", "y">>],
             [OcspAsk(<<a, b>>, "usage") EXCEPT !.args = <<"x", "URL">>]}

\* is this something a client can ask?
Askable(w, q) == IF q.why = "usage" THEN FALSE
                 ELSE IF w = "snmp" THEN q.why = "plain"
                 ELSE Len(q.blocks) = 2 /\ Decodes(CERT, q.blocks[1]) /\ Decodes(CERT, q.blocks[2]) /\ Matching(q.blocks[1], q.blocks[2])
\* the octets it sends: any of these
Requests(w, q) ==
  IF w = "snmp" THEN <<Enc(MSG, AskMsg(123, q.community, q.oid))>>
  ELSE <<Enc(OREQ, OcspRequest(CertId(q.blocks[1], q.blocks[2], FALSE))), Enc(OREQ, OcspRequest(CertId(q.blocks[1], q.blocks[2], TRUE)))>>

NOANSWER == [octs |-> <<>>, why |-> "silence"]
REFUSED == [octs |-> <<>>, why |-> "server error"]
None == [octs |-> <<>>, why |-> "none"]
Init == /\ sent = 0 /\ answer = None /\ verdict = "asked" /\ request = <<>>
        /\ \/ who = "snmp" /\ \E s \in {SnmpAsks \cup SnmpBads} : ask \in s
           \/ who = "ocsp" /\ \E s \in {OcspAsks \cup OcspSelf \cup OcspBads} : ask \in s
Refuse == /\ verdict = "asked" /\ Askable(who, ask) = FALSE
          /\ verdict' = IF ask.why = "usage" THEN "usage" ELSE "error"
          /\ UNCHANGED <<who, ask, request, sent, answer>>
Send == /\ verdict = "asked" /\ Askable(who, ask) = TRUE
        /\ request' = TLCEval(Requests(who, ask)) /\ sent' = sent + 1 /\ verdict' = "waiting"
        /\ UNCHANGED <<who, ask, answer>>
\* the pair that meets every answer; the others meet a few
Full1 == (who = "snmp" /\ ask.community = Public) \/ (who = "ocsp" /\ ask = OcspAsk(<<CertOf(Pair(1).ca), CertOf(Pair(1).user)>>, "pair"))
Pool == IF who = "snmp" THEN SnmpAnswers ELSE OcspAnswers(CertId(ask.blocks[1], ask.blocks[2], FALSE))
Peer == /\ verdict = "waiting"
        /\ \/ answer' = NOANSWER
           \/ who = "ocsp" /\ answer' = REFUSED
           \/ \E pl \in {Pool}, every \in {Full1} : \E i \in 1..Len(pl) : (every \/ i \in {1, 2, 3, Len(pl) - 2}) /\ answer' = pl[i]
        /\ verdict' = "answered"
        /\ UNCHANGED <<who, ask, request, sent>>
\* what an answer says
Said(w, a) ==
  IF a.why \in {"silence", "server error"} THEN [ok |-> FALSE]
  ELSE IF w = "snmp" THEN LET d == Dec(MSG, a.octs) IN IF d.ok /\ d.rest = <<>> THEN [ok |-> TRUE, der |-> Enc(MSG, d.v)] ELSE [ok |-> FALSE]
  ELSE LET d == Dec(ORSP, a.octs) IN
       IF ~d.ok \/ d.rest # <<>> THEN [ok |-> FALSE]
       ELSE IF Field(d.v, "responseStatus") # VI(0) \/ ~HasField(d.v, "responseBytes") THEN [ok |-> FALSE]
       ELSE LET rb == Field(d.v, "responseBytes") b == Dec(BASIC, Field(rb, "response").s) IN
            IF Field(rb, "responseType") # VOID(BasicOid) \/ ~b.ok THEN [ok |-> FALSE]
            ELSE LET t == Field(b.v, "tbsResponseData") rs == Field(t, "responses").l IN
                 IF rs = <<>> THEN [ok |-> FALSE]
                 ELSE [ok |-> TRUE, serial |-> Field(Field(rs[1], "certID"), "serialNumber").i, status |-> Field(rs[1], "certStatus").ch,
                       produced |-> Field(t, "producedAt").s, this |-> Field(rs[1], "thisUpdate").s]
Report == /\ verdict = "answered"
          /\ verdict' = IF Said(who, answer).ok THEN "reported" ELSE "error"
          /\ UNCHANGED <<who, ask, request, sent, answer>>
Tell == /\ verdict \in {"usage", "error", "reported"}
        /\ PrintT("CLIENT " \o ToJson([who |-> who, ask |-> ask, request |-> request, sent |-> sent, answer |-> answer, verdict |-> verdict, said |-> Said(who, IF sent = 0 THEN NOANSWER ELSE answer)]))
        /\ verdict' = "told"
        /\ UNCHANGED <<who, ask, request, sent, answer>>
Next == Refuse \/ Send \/ Peer \/ Report \/ Tell
Spec == Init /\ [][Next]_vars

(* ---- *)
\* a request leaves once, and only for something askable
SentOnce == sent <= 1 /\ (sent = 1 => Askable(who, ask)) /\ (verdict = "usage" => sent = 0)
\* the request says what was asked, to whoever decodes it
SaysAsked == sent = 1 =>
  \A i \in 1..Len(request) :
    IF who = "snmp"
    THEN LET d == Dec(MSG, request[i]) p == Field(d.v, "data") IN
         /\ d.ok /\ d.rest = <<>> /\ Field(d.v, "community").s = ask.community /\ p.ch = "get-request"
         /\ Len(Field(p.v, "variable-bindings").l) = 1
         /\ Field(Field(p.v, "variable-bindings").l[1], "name").o = ask.oid
    ELSE LET d == Dec(OREQ, request[i]) l == Field(Field(d.v, "tbsRequest"), "requestList").l IN
         /\ d.ok /\ d.rest = <<>> /\ Len(l) = 1
         /\ Field(Field(l[1], "reqCert"), "serialNumber") = Field(Tbs(ask.blocks[2]), "serialNumber")
\* good, revoked and unknown are reported as what they are; errors and silence never as a status
Faithful == verdict = "reported" => /\ answer.why \notin {"silence", "server error", "cut", "empty", "tag", "other", "not an answer", "none"}
                                    /\ (who = "ocsp" => Said(who, answer).status = answer.why)
Failing == (verdict = "error" /\ sent = 1) => answer.why \notin {"good", "revoked", "unknown", "value", "long lengths"} /\ (who = "snmp" => answer.why # "error status")
===========================================================================
