------------------------ MODULE rfc1902 ------------------------
\* http://www.ietf.org/rfc/rfc1902.txt
EXTENDS Asn1Notation

rfc1902_Imports == <<>>

rfc1902_StarImports == <<>>

rfc1902_Types == [
  Integer |-> CON(INTEGER, RANGE(BIG(<<128, 0, 0, 0>>), BIG(<<127, 255, 255, 255>>))),
  Integer32 |-> CON(INTEGER, RANGE(BIG(<<128, 0, 0, 0>>), BIG(<<127, 255, 255, 255>>))),
  OctetString |-> CON(OCTET_STRING, SIZE(0, 65535)),
  IpAddress |-> IMPL(APP, 0, CON(OCTET_STRING, SIZE(4, 4))),
  Counter32 |-> IMPL(APP, 1, CON(INTEGER, RANGE(I(0), BIG(<<0, 255, 255, 255, 255>>)))),
  Gauge32 |-> IMPL(APP, 2, CON(INTEGER, RANGE(I(0), BIG(<<0, 255, 255, 255, 255>>)))),
  Unsigned32 |-> IMPL(APP, 2, CON(INTEGER, RANGE(I(0), BIG(<<0, 255, 255, 255, 255>>)))),
  TimeTicks |-> IMPL(APP, 3, CON(INTEGER, RANGE(I(0), BIG(<<0, 255, 255, 255, 255>>)))),
  Opaque |-> IMPL(APP, 4, OCTET_STRING),
  Counter64 |-> IMPL(APP, 6, CON(INTEGER, RANGE(I(0), BIG(<<0, 255, 255, 255, 255, 255, 255, 255, 255>>)))),
  Bits |-> OCTET_STRING,
  ObjectName |-> OBJECT_IDENTIFIER,
  SimpleSyntax |-> CHOICE(<<
    REQ("integer-value", R("rfc1902", "Integer")),
    REQ("string-value", R("rfc1902", "OctetString")),
    REQ("objectID-value", OBJECT_IDENTIFIER)>>),
  ApplicationSyntax |-> CHOICE(<<
    REQ("ipAddress-value", R("rfc1902", "IpAddress")),
    REQ("counter-value", R("rfc1902", "Counter32")),
    REQ("timeticks-value", R("rfc1902", "TimeTicks")),
    REQ("arbitrary-value", R("rfc1902", "Opaque")),
    REQ("big-counter-value", R("rfc1902", "Counter64")),
    REQ("gauge32-value", R("rfc1902", "Gauge32"))>>),
  ObjectSyntax |-> CHOICE(<<
    REQ("simple", R("rfc1902", "SimpleSyntax")),
    REQ("application-wide", R("rfc1902", "ApplicationSyntax"))>>)]

rfc1902_Values == [
  NoValues__ |-> CONST(NULL_T, VNULL)]

\* open type tables this module exports, with the table each one is
rfc1902_Tables == <<>>

\* what importing this module adds to the tables
rfc1902_Entries == <<
>>
=================================================================
