------------------------ MODULE rfc1157 ------------------------
\* http://www.ietf.org/rfc/rfc1157.txt
\* http://wiki.wireshark.org/SampleCaptures/
EXTENDS Asn1Notation

rfc1157_Imports == <<"rfc1155">>

rfc1157_StarImports == <<>>

rfc1157_Types == [
  Version |-> NAMED(INTEGER, <<NV("version-1", 0)>>),
  Community |-> OCTET_STRING,
  RequestID |-> INTEGER,
  ErrorStatus |-> NAMED(INTEGER, <<NV("noError", 0), NV("tooBig", 1), NV("noSuchName", 2), NV("badValue", 3), NV("readOnly", 4), NV("genErr", 5)>>),
  ErrorIndex |-> INTEGER,
  VarBind |-> SEQUENCE(<<
    REQ("name", R("rfc1155", "ObjectName")),
    REQ("value", R("rfc1155", "ObjectSyntax"))>>),
  VarBindList |-> SEQUENCE_OF(R("rfc1157", "VarBind")),
  _RequestBase |-> SEQUENCE(<<
    REQ("request-id", R("rfc1157", "RequestID")),
    REQ("error-status", R("rfc1157", "ErrorStatus")),
    REQ("error-index", R("rfc1157", "ErrorIndex")),
    REQ("variable-bindings", R("rfc1157", "VarBindList"))>>),
  GetRequestPDU |-> IMPL(CTX, 0, R("rfc1157", "_RequestBase")),
  GetNextRequestPDU |-> IMPL(CTX, 1, R("rfc1157", "_RequestBase")),
  GetResponsePDU |-> IMPL(CTX, 2, R("rfc1157", "_RequestBase")),
  SetRequestPDU |-> IMPL(CTX, 3, R("rfc1157", "_RequestBase")),
  TrapPDU |-> IMPL(CTX, 4, SEQUENCE(<<
    REQ("enterprise", OBJECT_IDENTIFIER),
    REQ("agent-addr", R("rfc1155", "NetworkAddress")),
    REQ("generic-trap", NAMED(INTEGER, <<NV("coldStart", 0), NV("warmStart", 1), NV("linkDown", 2), NV("linkUp", 3), NV("authenticationFailure", 4), NV("egpNeighborLoss", 5), NV("enterpriseSpecific", 6)>>)),
    REQ("specific-trap", INTEGER),
    REQ("time-stamp", R("rfc1155", "TimeTicks")),
    REQ("variable-bindings", R("rfc1157", "VarBindList"))>>)),
  Pdus |-> CHOICE(<<
    REQ("get-request", R("rfc1157", "GetRequestPDU")),
    REQ("get-next-request", R("rfc1157", "GetNextRequestPDU")),
    REQ("get-response", R("rfc1157", "GetResponsePDU")),
    REQ("set-request", R("rfc1157", "SetRequestPDU")),
    REQ("trap", R("rfc1157", "TrapPDU"))>>),
  Message |-> SEQUENCE(<<
    REQ("version", R("rfc1157", "Version")),
    REQ("community", R("rfc1157", "Community")),
    REQ("data", R("rfc1157", "Pdus"))>>)]

rfc1157_Values == [
  NoValues__ |-> CONST(NULL_T, VNULL)]

\* open type tables this module exports, with the table each one is
rfc1157_Tables == <<>>

\* what importing this module adds to the tables
rfc1157_Entries == <<
>>
=================================================================
