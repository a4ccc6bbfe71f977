------------------------ MODULE rfc3414 ------------------------
\* http://www.ietf.org/rfc/rfc3414.txt
EXTENDS Asn1Notation

rfc3414_Imports == <<>>

rfc3414_StarImports == <<>>

rfc3414_Types == [
  UsmSecurityParameters |-> SEQUENCE(<<
    REQ("msgAuthoritativeEngineID", OCTET_STRING),
    REQ("msgAuthoritativeEngineBoots", CON(INTEGER, RANGE(I(0), BIG(<<127, 255, 255, 255>>)))),
    REQ("msgAuthoritativeEngineTime", CON(INTEGER, RANGE(I(0), BIG(<<127, 255, 255, 255>>)))),
    REQ("msgUserName", CON(OCTET_STRING, SIZE(0, 32))),
    REQ("msgAuthenticationParameters", OCTET_STRING),
    REQ("msgPrivacyParameters", OCTET_STRING)>>)]

rfc3414_Values == [
  NoValues__ |-> CONST(NULL_T, VNULL)]

\* open type tables this module exports, with the table each one is
rfc3414_Tables == <<>>

\* what importing this module adds to the tables
rfc3414_Entries == <<
>>
=================================================================
