------------------------ MODULE rfc2631 ------------------------
\* https://www.rfc-editor.org/rfc/rfc2631.txt
\* https://www.rfc-editor.org/errata/eid5897
EXTENDS Asn1Notation

rfc2631_Imports == <<>>

rfc2631_StarImports == <<>>

rfc2631_Types == [
  KeySpecificInfo |-> SEQUENCE(<<
    REQ("algorithm", OBJECT_IDENTIFIER),
    REQ("counter", CON(OCTET_STRING, SIZE(4, 4)))>>),
  OtherInfo |-> SEQUENCE(<<
    REQ("keyInfo", R("rfc2631", "KeySpecificInfo")),
    OPT("partyAInfo", EXPL(CTX, 0, OCTET_STRING)),
    REQ("suppPubInfo", EXPL(CTX, 2, OCTET_STRING))>>)]

rfc2631_Values == [
  NoValues__ |-> CONST(NULL_T, VNULL)]

\* open type tables this module exports, with the table each one is
rfc2631_Tables == <<>>

\* what importing this module adds to the tables
rfc2631_Entries == <<
>>
=================================================================
