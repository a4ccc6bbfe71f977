------------------------ MODULE rfc1155 ------------------------
\* http://www.ietf.org/rfc/rfc1155.txt
\* http://wiki.wireshark.org/SampleCaptures/
EXTENDS Asn1Notation

rfc1155_Imports == <<>>

rfc1155_StarImports == <<>>

rfc1155_Types == [
  ObjectName |-> OBJECT_IDENTIFIER,
  SimpleSyntax |-> CHOICE(<<
    REQ("number", INTEGER),
    REQ("string", OCTET_STRING),
    REQ("object", OBJECT_IDENTIFIER),
    REQ("empty", NULL_T)>>),
  IpAddress |-> IMPL(APP, 0, CON(OCTET_STRING, SIZE(4, 4))),
  NetworkAddress |-> CHOICE(<<
    REQ("internet", R("rfc1155", "IpAddress"))>>),
  Counter |-> IMPL(APP, 1, CON(INTEGER, RANGE(I(0), BIG(<<0, 255, 255, 255, 255>>)))),
  Gauge |-> IMPL(APP, 2, CON(INTEGER, RANGE(I(0), BIG(<<0, 255, 255, 255, 255>>)))),
  TimeTicks |-> IMPL(APP, 3, CON(INTEGER, RANGE(I(0), BIG(<<0, 255, 255, 255, 255>>)))),
  Opaque |-> IMPL(APP, 4, OCTET_STRING),
  ApplicationSyntax |-> CHOICE(<<
    REQ("address", R("rfc1155", "NetworkAddress")),
    REQ("counter", R("rfc1155", "Counter")),
    REQ("gauge", R("rfc1155", "Gauge")),
    REQ("ticks", R("rfc1155", "TimeTicks")),
    REQ("arbitrary", R("rfc1155", "Opaque"))>>),
  ObjectSyntax |-> CHOICE(<<
    REQ("simple", R("rfc1155", "SimpleSyntax")),
    REQ("application-wide", R("rfc1155", "ApplicationSyntax"))>>)]

rfc1155_Values == [
  NoValues__ |-> CONST(NULL_T, VNULL)]

\* open type tables this module exports, with the table each one is
rfc1155_Tables == <<>>

\* what importing this module adds to the tables
rfc1155_Entries == <<
>>
=================================================================
