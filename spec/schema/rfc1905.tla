------------------------ MODULE rfc1905 ------------------------
\* http://www.ietf.org/rfc/rfc1905.txt
EXTENDS Asn1Notation

rfc1905_Imports == <<"rfc1902">>

rfc1905_StarImports == <<>>

rfc1905_Types == [
  _BindValue |-> CHOICE(<<
    REQ("value", R("rfc1902", "ObjectSyntax")),
    REQ("unSpecified", NULL_T),
    REQ("noSuchObject", IMPL(CTX, 0, NULL_T)),
    REQ("noSuchInstance", IMPL(CTX, 1, NULL_T)),
    REQ("endOfMibView", IMPL(CTX, 2, NULL_T))>>),
  VarBind |-> SEQUENCE(<<
    REQ("name", R("rfc1902", "ObjectName")),
    REQ("", R("rfc1905", "_BindValue"))>>),
  VarBindList |-> CON(SEQUENCE_OF(R("rfc1905", "VarBind")), SIZE(0, 2147483647)),
  PDU |-> SEQUENCE(<<
    REQ("request-id", R("rfc1902", "Integer32")),
    REQ("error-status", NAMED(INTEGER, <<NV("noError", 0), NV("tooBig", 1), NV("noSuchName", 2), NV("badValue", 3), NV("readOnly", 4), NV("genErr", 5), NV("noAccess", 6), NV("wrongType", 7), NV("wrongLength", 8), NV("wrongEncoding", 9), NV("wrongValue", 10), NV("noCreation", 11), NV("inconsistentValue", 12), NV("resourceUnavailable", 13), NV("commitFailed", 14), NV("undoFailed", 15), NV("authorizationError", 16), NV("notWritable", 17), NV("inconsistentName", 18)>>)),
    REQ("error-index", CON(INTEGER, RANGE(I(0), BIG(<<127, 255, 255, 255>>)))),
    REQ("variable-bindings", R("rfc1905", "VarBindList"))>>),
  BulkPDU |-> SEQUENCE(<<
    REQ("request-id", R("rfc1902", "Integer32")),
    REQ("non-repeaters", CON(INTEGER, RANGE(I(0), BIG(<<127, 255, 255, 255>>)))),
    REQ("max-repetitions", CON(INTEGER, RANGE(I(0), BIG(<<127, 255, 255, 255>>)))),
    REQ("variable-bindings", R("rfc1905", "VarBindList"))>>),
  GetRequestPDU |-> IMPL(CTX, 0, R("rfc1905", "PDU")),
  GetNextRequestPDU |-> IMPL(CTX, 1, R("rfc1905", "PDU")),
  ResponsePDU |-> IMPL(CTX, 2, R("rfc1905", "PDU")),
  SetRequestPDU |-> IMPL(CTX, 3, R("rfc1905", "PDU")),
  GetBulkRequestPDU |-> IMPL(CTX, 5, R("rfc1905", "BulkPDU")),
  InformRequestPDU |-> IMPL(CTX, 6, R("rfc1905", "PDU")),
  SNMPv2TrapPDU |-> IMPL(CTX, 7, R("rfc1905", "PDU")),
  ReportPDU |-> IMPL(CTX, 8, R("rfc1905", "PDU")),
  PDUs |-> CHOICE(<<
    REQ("get-request", R("rfc1905", "GetRequestPDU")),
    REQ("get-next-request", R("rfc1905", "GetNextRequestPDU")),
    REQ("get-bulk-request", R("rfc1905", "GetBulkRequestPDU")),
    REQ("response", R("rfc1905", "ResponsePDU")),
    REQ("set-request", R("rfc1905", "SetRequestPDU")),
    REQ("inform-request", R("rfc1905", "InformRequestPDU")),
    REQ("snmpV2-trap", R("rfc1905", "SNMPv2TrapPDU")),
    REQ("report", R("rfc1905", "ReportPDU"))>>)]

rfc1905_Values == [
  max_bindings |-> CONST(R("rfc1902", "Integer"), VBIG(<<127, 255, 255, 255>>))]

\* open type tables this module exports, with the table each one is
rfc1905_Tables == <<>>

\* what importing this module adds to the tables
rfc1905_Entries == <<
>>
=================================================================
