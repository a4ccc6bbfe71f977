------------------------ MODULE rfc2634 ------------------------
\* https://www.rfc-editor.org/rfc/rfc2634.txt
EXTENDS Asn1Notation

rfc2634_Imports == <<"rfc5652", "rfc5280">>

rfc2634_StarImports == <<>>

rfc2634_Types == [
  ContentType |-> R("rfc5652", "ContentType"),
  IssuerAndSerialNumber |-> R("rfc5652", "IssuerAndSerialNumber"),
  SubjectKeyIdentifier |-> R("rfc5652", "SubjectKeyIdentifier"),
  PolicyInformation |-> R("rfc5280", "PolicyInformation"),
  GeneralNames |-> R("rfc5280", "GeneralNames"),
  CertificateSerialNumber |-> R("rfc5280", "CertificateSerialNumber"),
  Hash |-> OCTET_STRING,
  IssuerSerial |-> SEQUENCE(<<
    REQ("issuer", R("rfc5280", "GeneralNames")),
    REQ("serialNumber", R("rfc5280", "CertificateSerialNumber"))>>),
  ESSCertID |-> SEQUENCE(<<
    REQ("certHash", R("rfc2634", "Hash")),
    OPT("issuerSerial", R("rfc2634", "IssuerSerial"))>>),
  SigningCertificate |-> SEQUENCE(<<
    REQ("certs", SEQUENCE_OF(R("rfc2634", "ESSCertID"))),
    OPT("policies", SEQUENCE_OF(R("rfc5280", "PolicyInformation")))>>),
  EntityIdentifier |-> CHOICE(<<
    REQ("issuerAndSerialNumber", R("rfc5652", "IssuerAndSerialNumber")),
    REQ("subjectKeyIdentifier", R("rfc5652", "SubjectKeyIdentifier"))>>),
  MLReceiptPolicy |-> CHOICE(<<
    REQ("none", IMPL(CTX, 0, NULL_T)),
    REQ("insteadOf", IMPL(CTX, 1, CON(SEQUENCE_OF(R("rfc5280", "GeneralNames")), SIZE(1, MAXSIZE)))),
    REQ("inAdditionTo", IMPL(CTX, 2, CON(SEQUENCE_OF(R("rfc5280", "GeneralNames")), SIZE(1, MAXSIZE))))>>),
  MLData |-> SEQUENCE(<<
    REQ("mailListIdentifier", R("rfc2634", "EntityIdentifier")),
    REQ("expansionTime", GeneralizedTime),
    OPT("mlReceiptPolicy", R("rfc2634", "MLReceiptPolicy"))>>),
  MLExpansionHistory |-> CON(SEQUENCE_OF(R("rfc2634", "MLData")), SIZE(1, 64)),
  ESSPrivacyMark |-> CHOICE(<<
    REQ("pString", CON(PrintableString, SIZE(1, 128))),
    REQ("utf8String", CON(UTF8String, SIZE(1, MAXSIZE)))>>),
  SecurityClassification |-> CON(NAMED(INTEGER, <<NV("unmarked", 0), NV("unclassified", 1), NV("restricted", 2), NV("confidential", 3), NV("secret", 4), NV("top-secret", 5)>>), RANGE(I(0), I(256))),
  SecurityPolicyIdentifier |-> OBJECT_IDENTIFIER,
  SecurityCategory |-> SEQUENCE(<<
    REQ("type", IMPL(CTX, 0, OBJECT_IDENTIFIER)),
    REQ("value", IMPL(CTX, 1, ANY_T))>>),
  SecurityCategories |-> CON(SET_OF(R("rfc2634", "SecurityCategory")), SIZE(1, 64)),
  ESSSecurityLabel |-> SET_T(<<
    REQ("security-policy-identifier", R("rfc2634", "SecurityPolicyIdentifier")),
    OPT("security-classification", R("rfc2634", "SecurityClassification")),
    OPT("privacy-mark", R("rfc2634", "ESSPrivacyMark")),
    OPT("security-categories", R("rfc2634", "SecurityCategories"))>>),
  EquivalentLabels |-> SEQUENCE_OF(R("rfc2634", "ESSSecurityLabel")),
  ContentIdentifier |-> OCTET_STRING,
  ContentReference |-> SEQUENCE(<<
    REQ("contentType", R("rfc5652", "ContentType")),
    REQ("signedContentIdentifier", R("rfc2634", "ContentIdentifier")),
    REQ("originatorSignatureValue", OCTET_STRING)>>),
  MsgSigDigest |-> OCTET_STRING,
  ContentHints |-> SEQUENCE(<<
    OPT("contentDescription", CON(UTF8String, SIZE(1, MAXSIZE))),
    REQ("contentType", R("rfc5652", "ContentType"))>>),
  AllOrFirstTier |-> NAMED(INTEGER, <<NV("allReceipts", 0), NV("firstTierRecipients", 1)>>),
  ReceiptsFrom |-> CHOICE(<<
    REQ("allOrFirstTier", IMPL(CTX, 0, R("rfc2634", "AllOrFirstTier"))),
    REQ("receiptList", IMPL(CTX, 1, SEQUENCE_OF(R("rfc5280", "GeneralNames"))))>>),
  ReceiptRequest |-> SEQUENCE(<<
    REQ("signedContentIdentifier", R("rfc2634", "ContentIdentifier")),
    REQ("receiptsFrom", R("rfc2634", "ReceiptsFrom")),
    REQ("receiptsTo", CON(SEQUENCE_OF(R("rfc5280", "GeneralNames")), SIZE(1, 16)))>>),
  ESSVersion |-> NAMED(INTEGER, <<NV("v1", 1)>>),
  Receipt |-> SEQUENCE(<<
    REQ("version", R("rfc2634", "ESSVersion")),
    REQ("contentType", R("rfc5652", "ContentType")),
    REQ("signedContentIdentifier", R("rfc2634", "ContentIdentifier")),
    REQ("originatorSignatureValue", OCTET_STRING)>>)]

rfc2634_Values == [
  id_aa_signingCertificate |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 12>>)),
  id_aa_mlExpandHistory |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 3>>)),
  ub_ml_expansion_history |-> CONST(INTEGER, VI(64)),
  id_aa_securityLabel |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 2>>)),
  ub_privacy_mark_length |-> CONST(INTEGER, VI(128)),
  ub_security_categories |-> CONST(INTEGER, VI(64)),
  ub_integer_options |-> CONST(INTEGER, VI(256)),
  id_aa_equivalentLabels |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 9>>)),
  id_aa_contentIdentifier |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 7>>)),
  id_aa_contentReference |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 10>>)),
  id_aa_msgSigDigest |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 5>>)),
  id_aa_contentHint |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 4>>)),
  id_aa_receiptRequest |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 1>>)),
  ub_receiptsTo |-> CONST(INTEGER, VI(16)),
  id_ct_receipt |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 1>>))]

\* open type tables this module exports, with the table each one is
rfc2634_Tables == <<>>

\* what importing this module adds to the tables
rfc2634_Entries == <<
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 1>>), R("rfc2634", "Receipt")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 12>>), R("rfc2634", "SigningCertificate")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 3>>), R("rfc2634", "MLExpansionHistory")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 2>>), R("rfc2634", "ESSSecurityLabel")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 9>>), R("rfc2634", "EquivalentLabels")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 7>>), R("rfc2634", "ContentIdentifier")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 10>>), R("rfc2634", "ContentReference")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 5>>), R("rfc2634", "MsgSigDigest")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 4>>), R("rfc2634", "ContentHints")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 1>>), R("rfc2634", "ReceiptRequest"))>>
=================================================================
