------------------------ MODULE rfc3412 ------------------------
\* http://www.ietf.org/rfc/rfc3412.txt
EXTENDS Asn1Notation

rfc3412_Imports == <<"rfc1905">>

rfc3412_StarImports == <<>>

rfc3412_Types == [
  ScopedPDU |-> SEQUENCE(<<
    REQ("contextEngineId", OCTET_STRING),
    REQ("contextName", OCTET_STRING),
    REQ("data", R("rfc1905", "PDUs"))>>),
  ScopedPduData |-> CHOICE(<<
    REQ("plaintext", R("rfc3412", "ScopedPDU")),
    REQ("encryptedPDU", OCTET_STRING)>>),
  HeaderData |-> SEQUENCE(<<
    REQ("msgID", CON(INTEGER, RANGE(I(0), BIG(<<127, 255, 255, 255>>)))),
    REQ("msgMaxSize", CON(INTEGER, RANGE(I(484), BIG(<<127, 255, 255, 255>>)))),
    REQ("msgFlags", CON(OCTET_STRING, SIZE(1, 1))),
    REQ("msgSecurityModel", CON(INTEGER, RANGE(I(1), BIG(<<127, 255, 255, 255>>))))>>),
  SNMPv3Message |-> SEQUENCE(<<
    REQ("msgVersion", CON(INTEGER, RANGE(I(0), BIG(<<127, 255, 255, 255>>)))),
    REQ("msgGlobalData", R("rfc3412", "HeaderData")),
    REQ("msgSecurityParameters", OCTET_STRING),
    REQ("msgData", R("rfc3412", "ScopedPduData"))>>)]

rfc3412_Values == [
  NoValues__ |-> CONST(NULL_T, VNULL)]

\* open type tables this module exports, with the table each one is
rfc3412_Tables == <<>>

\* what importing this module adds to the tables
rfc3412_Entries == <<
>>
=================================================================
