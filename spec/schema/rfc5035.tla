------------------------ MODULE rfc5035 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5035.txt
EXTENDS Asn1Notation

rfc5035_Imports == <<"rfc2634", "rfc4055", "rfc5652", "rfc5280">>

rfc5035_StarImports == <<>>

rfc5035_Types == [
  ContentType |-> R("rfc5652", "ContentType"),
  IssuerAndSerialNumber |-> R("rfc5652", "IssuerAndSerialNumber"),
  SubjectKeyIdentifier |-> R("rfc5652", "SubjectKeyIdentifier"),
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  PolicyInformation |-> R("rfc5280", "PolicyInformation"),
  GeneralNames |-> R("rfc5280", "GeneralNames"),
  CertificateSerialNumber |-> R("rfc5280", "CertificateSerialNumber"),
  Hash |-> R("rfc2634", "Hash"),
  IssuerSerial |-> R("rfc2634", "IssuerSerial"),
  ESSCertID |-> R("rfc2634", "ESSCertID"),
  SigningCertificate |-> R("rfc2634", "SigningCertificate"),
  ESSCertIDv2 |-> SEQUENCE(<<
    DFLT("hashAlgorithm", R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 1>>))>>)),
    REQ("certHash", R("rfc2634", "Hash")),
    OPT("issuerSerial", R("rfc2634", "IssuerSerial"))>>),
  SigningCertificateV2 |-> SEQUENCE(<<
    REQ("certs", SEQUENCE_OF(R("rfc5035", "ESSCertIDv2"))),
    OPT("policies", SEQUENCE_OF(R("rfc5280", "PolicyInformation")))>>),
  EntityIdentifier |-> R("rfc2634", "EntityIdentifier"),
  MLReceiptPolicy |-> R("rfc2634", "MLReceiptPolicy"),
  MLData |-> R("rfc2634", "MLData"),
  MLExpansionHistory |-> R("rfc2634", "MLExpansionHistory"),
  ESSPrivacyMark |-> R("rfc2634", "ESSPrivacyMark"),
  SecurityClassification |-> R("rfc2634", "SecurityClassification"),
  SecurityPolicyIdentifier |-> R("rfc2634", "SecurityPolicyIdentifier"),
  SecurityCategory |-> R("rfc2634", "SecurityCategory"),
  SecurityCategories |-> R("rfc2634", "SecurityCategories"),
  ESSSecurityLabel |-> R("rfc2634", "ESSSecurityLabel"),
  EquivalentLabels |-> R("rfc2634", "EquivalentLabels"),
  ContentIdentifier |-> R("rfc2634", "ContentIdentifier"),
  ContentReference |-> R("rfc2634", "ContentReference"),
  MsgSigDigest |-> R("rfc2634", "MsgSigDigest"),
  ContentHints |-> R("rfc2634", "ContentHints"),
  AllOrFirstTier |-> R("rfc2634", "AllOrFirstTier"),
  ReceiptsFrom |-> R("rfc2634", "ReceiptsFrom"),
  ReceiptRequest |-> R("rfc2634", "ReceiptRequest"),
  ESSVersion |-> R("rfc2634", "ESSVersion"),
  Receipt |-> R("rfc2634", "Receipt")]

rfc5035_Values == [
  id_aa_signingCertificate |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 12>>)),
  id_aa_signingCertificateV2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 47>>)),
  sha256AlgId |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 1>>)), FV("parameters", VANY(<<4, 0>>))>>)),
  id_aa_mlExpandHistory |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 3>>)),
  ub_ml_expansion_history |-> CONST(INTEGER, VI(64)),
  id_aa_securityLabel |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 2>>)),
  ub_privacy_mark_length |-> CONST(INTEGER, VI(128)),
  ub_security_categories |-> CONST(INTEGER, VI(64)),
  ub_integer_options |-> CONST(INTEGER, VI(256)),
  id_aa_equivalentLabels |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 9>>)),
  id_aa_contentIdentifier |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 7>>)),
  id_aa_contentReference |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 10>>)),
  id_aa_msgSigDigest |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 5>>)),
  id_aa_contentHint |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 4>>)),
  id_aa_receiptRequest |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 1>>)),
  ub_receiptsTo |-> CONST(INTEGER, VI(16)),
  id_ct_receipt |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 1>>))]

\* open type tables this module exports, with the table each one is
rfc5035_Tables == <<>>

\* what importing this module adds to the tables
rfc5035_Entries == <<
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 1>>), R("rfc2634", "Receipt")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 47>>), R("rfc5035", "SigningCertificateV2"))>>
=================================================================
