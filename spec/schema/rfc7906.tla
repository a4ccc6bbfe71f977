------------------------ MODULE rfc7906 ------------------------
\* https://www.rfc-editor.org/rfc/rfc7906.txt
\* https://www.rfc-editor.org/errata/eid5850
EXTENDS Asn1Notation

rfc7906_Imports == <<"rfc2634", "rfc4108", "rfc5280", "rfc5652", "rfc6010", "rfc6019", "rfc7191">>

rfc7906_StarImports == <<>>

rfc7906_Types == [
  ContentHints |-> R("rfc2634", "ContentHints"),
  SecurityPolicyIdentifier |-> R("rfc2634", "SecurityPolicyIdentifier"),
  SecurityClassification |-> R("rfc2634", "SecurityClassification"),
  ESSPrivacyMark |-> R("rfc2634", "ESSPrivacyMark"),
  SecurityCategories |-> R("rfc2634", "SecurityCategories"),
  ESSSecurityLabel |-> R("rfc2634", "ESSSecurityLabel"),
  CommunityIdentifier |-> R("rfc4108", "CommunityIdentifier"),
  CommunityIdentifiers |-> R("rfc4108", "CommunityIdentifiers"),
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  Name |-> R("rfc5280", "Name"),
  Certificate |-> R("rfc5280", "Certificate"),
  GeneralNames |-> R("rfc5280", "GeneralNames"),
  GeneralName |-> R("rfc5280", "GeneralName"),
  SubjectInfoAccessSyntax |-> R("rfc5280", "SubjectInfoAccessSyntax"),
  CMSContentConstraints |-> R("rfc6010", "CMSContentConstraints"),
  BinaryTime |-> R("rfc6019", "BinaryTime"),
  BinarySigningTime |-> R("rfc6019", "BinarySigningTime"),
  Attribute |-> R("rfc5652", "Attribute"),
  CertificateSet |-> R("rfc5652", "CertificateSet"),
  CertificateChoices |-> R("rfc5652", "CertificateChoices"),
  ContentType |-> R("rfc5652", "ContentType"),
  MessageDigest |-> R("rfc5652", "MessageDigest"),
  SIREntityName |-> R("rfc7191", "SIREntityName"),
  KeyPkgIdentifierAndReceiptReq |-> R("rfc7191", "KeyPkgIdentifierAndReceiptReq"),
  KeyProvinceV2 |-> OBJECT_IDENTIFIER,
  ShortTitle |-> PrintableString,
  Manifest |-> CON(SEQUENCE_OF(R("rfc7906", "ShortTitle")), SIZE(1, MAXSIZE)),
  KeyAlgorithm |-> SEQUENCE(<<
    REQ("keyAlg", OBJECT_IDENTIFIER),
    OPT("checkWordAlg", IMPL(CTX, 1, OBJECT_IDENTIFIER)),
    OPT("crcAlg", IMPL(CTX, 2, OBJECT_IDENTIFIER))>>),
  KeyPkgReceiver |-> CHOICE(<<
    REQ("sirEntity", IMPL(CTX, 0, R("rfc7191", "SIREntityName"))),
    REQ("community", IMPL(CTX, 1, R("rfc4108", "CommunityIdentifier")))>>),
  KeyPkgReceiversV2 |-> CON(SEQUENCE_OF(R("rfc7906", "KeyPkgReceiver")), SIZE(1, MAXSIZE)),
  CharEdition |-> PrintableString,
  CharEditionRange |-> SEQUENCE(<<
    REQ("firstCharEdition", R("rfc7906", "CharEdition")),
    REQ("lastCharEdition", R("rfc7906", "CharEdition"))>>),
  NumEdition |-> CON(INTEGER, RANGE(I(0), I(308915776))),
  NumEditionRange |-> SEQUENCE(<<
    REQ("firstNumEdition", R("rfc7906", "NumEdition")),
    REQ("lastNumEdition", R("rfc7906", "NumEdition"))>>),
  EditionID |-> CHOICE(<<
    REQ("char", CHOICE(<<
        REQ("charEdition", IMPL(CTX, 1, R("rfc7906", "CharEdition"))),
        REQ("charEditionRange", IMPL(CTX, 2, R("rfc7906", "CharEditionRange")))>>)),
    REQ("num", CHOICE(<<
        REQ("numEdition", IMPL(CTX, 3, R("rfc7906", "NumEdition"))),
        REQ("numEditionRange", IMPL(CTX, 4, R("rfc7906", "NumEditionRange")))>>))>>),
  Register |-> CON(INTEGER, RANGE(I(0), BIG(<<127, 255, 255, 255>>))),
  RegisterRange |-> SEQUENCE(<<
    REQ("firstRegister", R("rfc7906", "Register")),
    REQ("lastRegister", R("rfc7906", "Register"))>>),
  RegisterID |-> CHOICE(<<
    REQ("register", IMPL(CTX, 5, R("rfc7906", "Register"))),
    REQ("registerRange", IMPL(CTX, 6, R("rfc7906", "RegisterRange")))>>),
  SegmentNumber |-> CON(INTEGER, RANGE(I(1), I(127))),
  SegmentRange |-> SEQUENCE(<<
    REQ("firstSegment", R("rfc7906", "SegmentNumber")),
    REQ("lastSegment", R("rfc7906", "SegmentNumber"))>>),
  SegmentID |-> CHOICE(<<
    REQ("segmentNumber", IMPL(CTX, 7, R("rfc7906", "SegmentNumber"))),
    REQ("segmentRange", IMPL(CTX, 8, R("rfc7906", "SegmentRange")))>>),
  TSECNomenclature |-> SEQUENCE(<<
    REQ("shortTitle", R("rfc7906", "ShortTitle")),
    OPT("editionID", R("rfc7906", "EditionID")),
    OPT("registerID", R("rfc7906", "RegisterID")),
    OPT("segmentID", R("rfc7906", "SegmentID"))>>),
  KeyPurpose |-> NAMED(ENUMERATED, <<NV("n-a", 0), NV("a", 65), NV("b", 66), NV("l", 76), NV("m", 77), NV("r", 82), NV("s", 83), NV("t", 84), NV("v", 86), NV("x", 88), NV("z", 90)>>),
  KeyUse |-> NAMED(ENUMERATED, <<NV("n-a", 0), NV("ffk", 1), NV("kek", 2), NV("kpk", 3), NV("msk", 4), NV("qkek", 5), NV("tek", 6), NV("tsk", 7), NV("trkek", 8), NV("nfk", 9), NV("effk", 10), NV("ebfk", 11), NV("aek", 12), NV("wod", 13), NV("kesk", 246), NV("eik", 247), NV("ask", 248), NV("kmk", 249), NV("rsk", 250), NV("csk", 251), NV("sak", 252), NV("rgk", 253), NV("cek", 254), NV("exk", 255)>>),
  TransOp |-> NAMED(ENUMERATED, <<NV("transport", 1), NV("operational", 2)>>),
  KeyDistPeriod |-> SEQUENCE(<<
    OPT("doNotDistBefore", IMPL(CTX, 0, R("rfc6019", "BinaryTime"))),
    REQ("doNotDistAfter", R("rfc6019", "BinaryTime"))>>),
  KeyValidityPeriod |-> SEQUENCE(<<
    REQ("doNotUseBefore", R("rfc6019", "BinaryTime")),
    OPT("doNotUseAfter", R("rfc6019", "BinaryTime"))>>),
  KeyDuration |-> CHOICE(<<
    REQ("hours", IMPL(CTX, 0, CON(INTEGER, RANGE(I(1), I(96))))),
    REQ("days", CON(INTEGER, RANGE(I(1), I(732)))),
    REQ("weeks", IMPL(CTX, 1, CON(INTEGER, RANGE(I(1), I(104))))),
    REQ("months", IMPL(CTX, 2, CON(INTEGER, RANGE(I(1), I(72))))),
    REQ("years", IMPL(CTX, 3, CON(INTEGER, RANGE(I(1), I(100)))))>>),
  SecurityAttribute |-> CON(INTEGER, RANGE(I(0), NOBOUND)),
  EnumeratedTag |-> SEQUENCE(<<
    REQ("tagName", OBJECT_IDENTIFIER),
    REQ("attributeList", SET_OF(R("rfc7906", "SecurityAttribute")))>>),
  FreeFormField |-> CHOICE(<<
    REQ("bitSetAttributes", BIT_STRING),
    REQ("securityAttributes", SET_OF(R("rfc7906", "SecurityAttribute")))>>),
  InformativeTag |-> SEQUENCE(<<
    REQ("tagName", OBJECT_IDENTIFIER),
    REQ("attributes", R("rfc7906", "FreeFormField"))>>),
  Classification |-> R("rfc2634", "ESSSecurityLabel"),
  SplitID |-> SEQUENCE(<<
    REQ("half", NAMED(ENUMERATED, <<NV("a", 0), NV("b", 1)>>)),
    OPT("combineAlg", R("rfc5280", "AlgorithmIdentifier"))>>),
  KeyPkgType |-> OBJECT_IDENTIFIER,
  SignatureUsage |-> R("rfc6010", "CMSContentConstraints"),
  PkiPath |-> CON(SEQUENCE_OF(R("rfc5280", "Certificate")), SIZE(1, MAXSIZE)),
  ContentDecryptKeyID |-> OCTET_STRING]

rfc7906_Values == [
  id_aa_contentHint |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 4>>)),
  id_aa_securityLabel |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 2>>)),
  id_aa_communityIdentifiers |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 40>>)),
  id_pkix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7>>)),
  id_pe |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1>>)),
  id_pe_subjectInfoAccess |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 11>>)),
  id_aa_binarySigningTime |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 46>>)),
  id_contentType |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 3>>)),
  id_messageDigest |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 4>>)),
  id_aa_KP_keyPkgIdAndReceiptReq |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 65>>)),
  id_aa_KP_keyProvinceV2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 71>>)),
  aa_keyProvince_v2 |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 71>>))>>)),
  id_aa_KP_manifest |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 72>>)),
  aa_manifest |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 72>>))>>)),
  id_kma_keyAlgorithm |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 1>>)),
  aa_keyAlgorithm |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 1>>))>>)),
  id_at_userCertificate |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 36>>)),
  aa_userCertificate |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<2, 5, 4, 36>>))>>)),
  id_kma_keyPkgReceiversV2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 16>>)),
  aa_keyPackageReceivers_v2 |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 16>>))>>)),
  id_kma_TSECNomenclature |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 3>>)),
  aa_tsecNomenclature |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 3>>))>>)),
  id_kma_keyPurpose |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 13>>)),
  aa_keyPurpose |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 14>>))>>)),
  id_kma_keyUse |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 14>>)),
  aa_keyUse |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<>>)),
  id_kma_transportKey |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 15>>)),
  aa_transportKey |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 15>>))>>)),
  id_kma_keyDistPeriod |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 5>>)),
  aa_keyDistributionPeriod |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 5>>))>>)),
  id_kma_keyValidityPeriod |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 6>>)),
  aa_keyValidityPeriod |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 6>>))>>)),
  id_kma_keyDuration |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 7>>)),
  ub_KeyDuration_months |-> CONST(INTEGER, VI(72)),
  ub_KeyDuration_hours |-> CONST(INTEGER, VI(96)),
  ub_KeyDuration_days |-> CONST(INTEGER, VI(732)),
  ub_KeyDuration_weeks |-> CONST(INTEGER, VI(104)),
  ub_KeyDuration_years |-> CONST(INTEGER, VI(100)),
  aa_keyDurationPeriod |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 7>>))>>)),
  id_aa_KP_classification |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 2>>)),
  id_enumeratedPermissiveAttributes |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 8, 3, 1>>)),
  id_enumeratedRestrictiveAttributes |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 8, 3, 4>>)),
  id_informativeAttributes |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 8, 3, 3>>)),
  aa_classification |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 2>>))>>)),
  id_kma_splitID |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 11>>)),
  aa_splitIdentifier |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 11>>))>>)),
  id_kma_keyPkgType |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 12>>)),
  aa_keyPackageType |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 12>>))>>)),
  id_kma_sigUsageV3 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 22>>)),
  aa_signatureUsage_v3 |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 19>>))>>)),
  id_kma_otherCertFormats |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 19>>)),
  aa_otherCertificateFormats |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<>>)),
  id_at_pkiPath |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 70>>)),
  aa_pkiPath |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<2, 5, 4, 70>>))>>)),
  id_kma_usefulCerts |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 20>>)),
  aa_usefulCertificates |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 20>>))>>)),
  id_kma_keyWrapAlgorithm |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 21>>)),
  aa_keyWrapAlgorithm |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 21>>))>>)),
  id_aa_KP_contentDecryptKeyID |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 66>>)),
  aa_contentDecryptKeyIdentifier |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 66>>))>>)),
  aa_certificatePointers |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 11>>))>>)),
  id_aa_KP_crlPointers |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 70>>)),
  aa_cRLDistributionPoints |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 70>>))>>)),
  id_errorCodes |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 22>>)),
  id_missingKeyType |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 22, 1>>)),
  id_privacyMarkTooLong |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 22, 2>>)),
  id_unrecognizedSecurityPolicy |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 22, 3>>))]

\* open type tables this module exports, with the table each one is
rfc7906_Tables == <<>>

\* what importing this module adds to the tables
rfc7906_Entries == <<
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 3>>), R("rfc5652", "ContentType")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 4>>), R("rfc5652", "MessageDigest")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 2>>), R("rfc7906", "Classification")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 4>>), R("rfc2634", "ContentHints")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 40>>), R("rfc4108", "CommunityIdentifiers")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 46>>), R("rfc6019", "BinarySigningTime")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 66>>), R("rfc7906", "ContentDecryptKeyID")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 65>>), R("rfc7191", "KeyPkgIdentifierAndReceiptReq")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 71>>), R("rfc7906", "KeyProvinceV2")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 72>>), R("rfc7906", "Manifest")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 1>>), R("rfc7906", "KeyAlgorithm")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 5, 4, 36>>), R("rfc5280", "Certificate")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 16>>), R("rfc7906", "KeyPkgReceiversV2")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 3>>), R("rfc7906", "TSECNomenclature")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 13>>), R("rfc7906", "KeyPurpose")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 14>>), R("rfc7906", "KeyUse")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 15>>), R("rfc7906", "TransOp")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 5>>), R("rfc7906", "KeyDistPeriod")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 6>>), R("rfc7906", "KeyValidityPeriod")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 7>>), R("rfc7906", "KeyDuration")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 11>>), R("rfc7906", "SplitID")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 12>>), R("rfc7906", "KeyPkgType")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 22>>), R("rfc7906", "SignatureUsage")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 19>>), R("rfc5652", "CertificateChoices")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 5, 4, 70>>), R("rfc7906", "PkiPath")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 20>>), R("rfc5652", "CertificateSet")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 13, 21>>), R("rfc5280", "AlgorithmIdentifier")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 11>>), R("rfc5280", "SubjectInfoAccessSyntax")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 70>>), R("rfc5280", "GeneralNames"))>>
=================================================================
