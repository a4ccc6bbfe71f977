------------------------ MODULE rfc5636 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5480.txt
EXTENDS Asn1Notation

rfc5636_Imports == <<"rfc5652">>

rfc5636_StarImports == <<>>

rfc5636_Types == [
  ContentInfo |-> R("rfc5652", "ContentInfo"),
  EncapsulatedContentInfo |-> R("rfc5652", "EncapsulatedContentInfo"),
  UserKey |-> OCTET_STRING,
  Timeout |-> GeneralizedTime,
  BlinedCertificateHash |-> OCTET_STRING,
  PartiallySignedCertificateHash |-> OCTET_STRING,
  Token |-> R("rfc5652", "ContentInfo"),
  TokenandBlindHash |-> R("rfc5652", "ContentInfo"),
  TokenandPartiallySignedCertificateHash |-> R("rfc5652", "ContentInfo"),
  TACToken |-> SEQUENCE(<<
    REQ("userKey", R("rfc5636", "UserKey")),
    REQ("timeout", R("rfc5636", "Timeout"))>>),
  TACTokenandBlindHash |-> SEQUENCE(<<
    REQ("token", R("rfc5636", "Token")),
    REQ("blinded", R("rfc5636", "BlinedCertificateHash"))>>),
  TACTokenandPartiallySignedCertificateHash |-> SEQUENCE(<<
    REQ("token", R("rfc5636", "Token")),
    REQ("partially", R("rfc5636", "PartiallySignedCertificateHash"))>>)]

rfc5636_Values == [
  id_data |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 7, 1>>)),
  id_KISA |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 410, 200004>>)),
  id_npki |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 410, 200004, 10>>)),
  id_attribute |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 410, 200004, 10, 1>>)),
  id_kisa_tac |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 410, 200004, 10, 1, 1>>)),
  id_kisa_tac_token |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 410, 200004, 10, 1, 1, 1>>)),
  id_kisa_tac_tokenandblindbash |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 410, 200004, 10, 1, 1, 2>>)),
  id_kisa_tac_tokenandpartially |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 410, 200004, 10, 1, 1, 3>>))]

\* open type tables this module exports, with the table each one is
rfc5636_Tables == <<>>

\* what importing this module adds to the tables
rfc5636_Entries == <<
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 410, 200004, 10, 1, 1, 1>>), R("rfc5636", "TACToken")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 410, 200004, 10, 1, 1, 2>>), R("rfc5636", "TACTokenandBlindHash")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 410, 200004, 10, 1, 1, 3>>), R("rfc5636", "TACTokenandPartiallySignedCertificateHash"))>>
=================================================================
