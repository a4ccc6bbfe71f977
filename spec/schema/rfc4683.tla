------------------------ MODULE rfc4683 ------------------------
\* https://www.rfc-editor.org/rfc/rfc4683.txt
\* https://www.rfc-editor.org/errata/eid1047
EXTENDS Asn1Notation

rfc4683_Imports == <<"rfc5280">>

rfc4683_StarImports == <<>>

rfc4683_Types == [
  HashContent |-> SEQUENCE(<<
    REQ("userPassword", UTF8String),
    REQ("authorityRandom", OCTET_STRING),
    REQ("identifierType", OBJECT_IDENTIFIER),
    REQ("identifier", UTF8String)>>),
  SIM |-> SEQUENCE(<<
    REQ("hashAlg", R("rfc5280", "AlgorithmIdentifier")),
    REQ("authorityRandom", OCTET_STRING),
    REQ("pEPSI", OCTET_STRING)>>),
  EncryptedPEPSI |-> SEQUENCE(<<
    REQ("identifierType", OBJECT_IDENTIFIER),
    REQ("identifier", UTF8String),
    REQ("sIM", R("rfc4683", "SIM"))>>)]

rfc4683_Values == [
  id_pkix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7>>)),
  id_on |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 8>>)),
  id_on_SIM |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 8, 6>>)),
  id_pkip |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5>>)),
  id_regEPEPSI |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5, 3>>))]

\* open type tables this module exports, with the table each one is
rfc4683_Tables == <<>>

\* what importing this module adds to the tables
rfc4683_Entries == <<
  ENTRY("rfc5280", "anotherNameMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 8, 6>>), R("rfc4683", "SIM"))>>
=================================================================
