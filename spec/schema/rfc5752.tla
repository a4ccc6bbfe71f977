------------------------ MODULE rfc5752 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5752.txt
\* https://www.rfc-editor.org/errata/eid4444
EXTENDS Asn1Notation

rfc5752_Imports == <<"rfc5035", "rfc5652">>

rfc5752_StarImports == <<>>

rfc5752_Types == [
  SignAttrsHash |-> SEQUENCE(<<
    REQ("algID", R("rfc5652", "DigestAlgorithmIdentifier")),
    REQ("hash", OCTET_STRING)>>),
  MultipleSignatures |-> SEQUENCE(<<
    REQ("bodyHashAlg", R("rfc5652", "DigestAlgorithmIdentifier")),
    REQ("signAlg", R("rfc5652", "SignatureAlgorithmIdentifier")),
    REQ("signAttrsHash", R("rfc5752", "SignAttrsHash")),
    OPT("cert", R("rfc5035", "ESSCertIDv2"))>>)]

rfc5752_Values == [
  id_aa_multipleSignatures |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 51>>))]

\* open type tables this module exports, with the table each one is
rfc5752_Tables == <<>>

\* what importing this module adds to the tables
rfc5752_Entries == <<
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 51>>), R("rfc5752", "MultipleSignatures"))>>
=================================================================
