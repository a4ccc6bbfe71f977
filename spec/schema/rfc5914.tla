------------------------ MODULE rfc5914 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5914.txt
EXTENDS Asn1Notation

rfc5914_Imports == <<"rfc5280">>

rfc5914_StarImports == <<>>

rfc5914_Types == [
  Certificate |-> R("rfc5280", "Certificate"),
  Name |-> R("rfc5280", "Name"),
  Extensions |-> R("rfc5280", "Extensions"),
  SubjectPublicKeyInfo |-> R("rfc5280", "SubjectPublicKeyInfo"),
  TBSCertificate |-> R("rfc5280", "TBSCertificate"),
  CertificatePolicies |-> R("rfc5280", "CertificatePolicies"),
  KeyIdentifier |-> R("rfc5280", "KeyIdentifier"),
  NameConstraints |-> R("rfc5280", "NameConstraints"),
  CertPolicyFlags |-> NAMED(BIT_STRING, <<NV("inhibitPolicyMapping", 0), NV("requireExplicitPolicy", 1), NV("inhibitAnyPolicy", 2)>>),
  CertPathControls |-> SEQUENCE(<<
    REQ("taName", R("rfc5280", "Name")),
    OPT("certificate", IMPL(CTX, 0, R("rfc5280", "Certificate"))),
    OPT("policySet", IMPL(CTX, 1, R("rfc5280", "CertificatePolicies"))),
    OPT("policyFlags", IMPL(CTX, 2, R("rfc5914", "CertPolicyFlags"))),
    OPT("nameConstr", IMPL(CTX, 3, R("rfc5280", "NameConstraints"))),
    OPT("pathLenConstraint", IMPL(CTX, 4, CON(INTEGER, RANGE(I(0), NOBOUND))))>>),
  TrustAnchorTitle |-> CON(UTF8String, SIZE(1, 64)),
  TrustAnchorInfoVersion |-> NAMED(INTEGER, <<NV("v1", 1)>>),
  TrustAnchorInfo |-> SEQUENCE(<<
    DFLT("version", R("rfc5914", "TrustAnchorInfoVersion"), VI(1)),
    REQ("pubKey", R("rfc5280", "SubjectPublicKeyInfo")),
    REQ("keyId", R("rfc5280", "KeyIdentifier")),
    OPT("taTitle", R("rfc5914", "TrustAnchorTitle")),
    OPT("certPath", R("rfc5914", "CertPathControls")),
    OPT("exts", EXPL(CTX, 1, R("rfc5280", "Extensions"))),
    OPT("taTitleLangTag", IMPL(CTX, 2, UTF8String))>>),
  TrustAnchorChoice |-> CHOICE(<<
    REQ("certificate", R("rfc5280", "Certificate")),
    REQ("tbsCert", EXPL(CTX, 1, R("rfc5280", "TBSCertificate"))),
    REQ("taInfo", EXPL(CTX, 2, R("rfc5914", "TrustAnchorInfo")))>>),
  TrustAnchorList |-> CON(SEQUENCE_OF(R("rfc5914", "TrustAnchorChoice")), SIZE(1, MAXSIZE))]

rfc5914_Values == [
  id_ct_trustAnchorList |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 34>>))]

\* open type tables this module exports, with the table each one is
rfc5914_Tables == <<>>

\* what importing this module adds to the tables
rfc5914_Entries == <<
>>
=================================================================
