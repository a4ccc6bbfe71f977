------------------------ MODULE rfc6211 ------------------------
\* https://www.rfc-editor.org/rfc/rfc6211.txt
EXTENDS Asn1Notation

rfc6211_Imports == <<"rfc5652">>

rfc6211_StarImports == <<>>

rfc6211_Types == [
  DigestAlgorithmIdentifier |-> R("rfc5652", "DigestAlgorithmIdentifier"),
  MessageAuthenticationCodeAlgorithm |-> R("rfc5652", "MessageAuthenticationCodeAlgorithm"),
  SignatureAlgorithmIdentifier |-> R("rfc5652", "SignatureAlgorithmIdentifier"),
  CMSAlgorithmProtection |-> CON(SEQUENCE(<<
    REQ("digestAlgorithm", R("rfc5652", "DigestAlgorithmIdentifier")),
    OPT("signatureAlgorithm", IMPL(CTX, 1, R("rfc5652", "SignatureAlgorithmIdentifier"))),
    OPT("macAlgorithm", IMPL(CTX, 2, R("rfc5652", "MessageAuthenticationCodeAlgorithm")))>>), EITHER(<<WITHCOMP(<<<<"signatureAlgorithm", TRUE>>, <<"macAlgorithm", FALSE>>>>), WITHCOMP(<<<<"signatureAlgorithm", FALSE>>, <<"macAlgorithm", TRUE>>>>)>>))]

rfc6211_Values == [
  id_aa_cmsAlgorithmProtect |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 52>>)),
  aa_cmsAlgorithmProtection |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<1, 2, 840, 113549, 1, 9, 52>>))>>))]

\* open type tables this module exports, with the table each one is
rfc6211_Tables == <<>>

\* what importing this module adds to the tables
rfc6211_Entries == <<
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 52>>), R("rfc6211", "CMSAlgorithmProtection"))>>
=================================================================
