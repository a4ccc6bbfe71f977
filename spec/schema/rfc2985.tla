------------------------ MODULE rfc2985 ------------------------
\* https://www.rfc-editor.org/rfc/rfc2985.txt
EXTENDS Asn1Notation

rfc2985_Imports == <<"rfc7292", "rfc5958", "rfc5652", "rfc5280">>

rfc2985_StarImports == <<>>

rfc2985_Types == [
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  Attribute |-> R("rfc5280", "Attribute"),
  EmailAddress |-> R("rfc5280", "EmailAddress"),
  Extensions |-> R("rfc5280", "Extensions"),
  Time |-> R("rfc5280", "Time"),
  X520countryName |-> R("rfc5280", "X520countryName"),
  X520SerialNumber |-> R("rfc5280", "X520SerialNumber"),
  ContentInfo |-> R("rfc5652", "ContentInfo"),
  ContentType |-> R("rfc5652", "ContentType"),
  Countersignature |-> R("rfc5652", "Countersignature"),
  MessageDigest |-> R("rfc5652", "MessageDigest"),
  SignerInfo |-> R("rfc5652", "SignerInfo"),
  SigningTime |-> R("rfc5652", "SigningTime"),
  EncryptedPrivateKeyInfo |-> R("rfc5958", "EncryptedPrivateKeyInfo"),
  PFX |-> R("rfc7292", "PFX"),
  AttributeType |-> OBJECT_IDENTIFIER,
  AttributeValue |-> ANY_T,
  AttributeValues |-> SET_OF(R("rfc2985", "AttributeValue")),
  SingleAttributeValues |-> SET_OF(R("rfc2985", "AttributeValue")),
  SingleAttribute |-> SEQUENCE(<<
    REQ("type", R("rfc2985", "AttributeType")),
    OPEN("type", "rfc5280", "certificateAttributesMap", REQ("values", CON(R("rfc2985", "AttributeValues"), SIZE(1, 1))))>>),
  CMSAttribute |-> R("rfc5652", "Attribute"),
  CMSSingleAttribute |-> SEQUENCE(<<
    REQ("attrType", R("rfc2985", "AttributeType")),
    OPEN("attrType", "rfc5652", "cmsAttributesMap", REQ("attrValues", CON(R("rfc2985", "AttributeValues"), SIZE(1, 1))))>>),
  DirectoryString |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 255))),
    REQ("printableString", CON(PrintableString, SIZE(1, 255))),
    REQ("universalString", CON(UniversalString, SIZE(1, 255))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 255))),
    REQ("bmpString", CON(BMPString, SIZE(1, 255)))>>),
  PKCS9String |-> CHOICE(<<
    REQ("ia5String", CON(IA5String, SIZE(1, 255))),
    REQ("directoryString", R("rfc2985", "DirectoryString"))>>),
  GenderString |-> CON(CON(PrintableString, SIZE(1, 1)), VALUES(<<VSTR(<<77>>), VSTR(<<70>>), VSTR(<<109>>), VSTR(<<102>>)>>)),
  RandomNonce |-> CON(OCTET_STRING, SIZE(4, MAXSIZE)),
  SequenceNumber |-> CON(INTEGER, RANGE(I(1), NOBOUND)),
  ExtensionRequest |-> R("rfc5280", "Extensions"),
  AttributeSet |-> SET_OF(R("rfc5280", "Attribute")),
  FriendlyName |-> CON(BMPString, SIZE(1, 255)),
  SMIMECapability |-> R("rfc5280", "AlgorithmIdentifier"),
  SMIMECapabilities |-> SEQUENCE_OF(R("rfc2985", "SMIMECapability"))]

rfc2985_Values == [
  pkcs_9_ub_pkcs9String |-> CONST(INTEGER, VI(255)),
  pkcs_9_ub_challengePassword |-> CONST(INTEGER, VI(255)),
  pkcs_9_ub_emailAddress |-> CONST(INTEGER, VI(255)),
  pkcs_9_ub_friendlyName |-> CONST(INTEGER, VI(255)),
  pkcs_9_ub_match |-> CONST(INTEGER, VI(255)),
  pkcs_9_ub_signingDescription |-> CONST(INTEGER, VI(255)),
  pkcs_9_ub_unstructuredAddress |-> CONST(INTEGER, VI(255)),
  pkcs_9_ub_unstructuredName |-> CONST(INTEGER, VI(255)),
  ub_name |-> CONST(INTEGER, VI(32768)),
  pkcs_9_ub_placeOfBirth |-> CONST(INTEGER, VI(32768)),
  pkcs_9_ub_pseudonym |-> CONST(INTEGER, VI(32768)),
  ietf_at |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 9>>)),
  id_at |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4>>)),
  pkcs_9 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9>>)),
  pkcs_9_mo |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 0>>)),
  smime |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16>>)),
  certTypes |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 22>>)),
  crlTypes |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 23>>)),
  pkcs_9_oc |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 24>>)),
  pkcs_9_at |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 25>>)),
  pkcs_9_sx |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 26>>)),
  pkcs_9_mr |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 27>>)),
  pkcs_9_sx_pkcs9String |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 26, 1>>)),
  pkcs_9_sx_signingTime |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 26, 2>>)),
  pkcs_9_oc_pkcsEntity |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 24, 1>>)),
  pkcs_9_oc_naturalPerson |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 24, 2>>)),
  pkcs_9_mr_caseIgnoreMatch |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 27, 1>>)),
  pkcs_9_mr_signingTimeMatch |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 27, 2>>)),
  pkcs_9_at_pkcs7PDU |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 25, 5>>)),
  pKCS7PDU |-> CONST(R("rfc5280", "Attribute"), VSEQ(<<FV("type", VOID(<<1, 2, 840, 113549, 1, 9, 25, 5>>))>>)),
  pkcs_9_at_userPKCS12 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 113730, 3, 1, 216>>)),
  userPKCS12 |-> CONST(R("rfc5280", "Attribute"), VSEQ(<<FV("type", VOID(<<2, 16, 840, 1, 113730, 3, 1, 216>>))>>)),
  pkcs_9_at_pkcs15Token |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 25, 1>>)),
  pkcs_9_at_encryptedPrivateKeyInfo |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 25, 2>>)),
  encryptedPrivateKeyInfo |-> CONST(R("rfc5280", "Attribute"), VSEQ(<<FV("type", VOID(<<1, 2, 840, 113549, 1, 9, 25, 2>>))>>)),
  pkcs_9_at_emailAddress |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 1>>)),
  emailAddress |-> CONST(R("rfc5280", "Attribute"), VSEQ(<<FV("type", VOID(<<1, 2, 840, 113549, 1, 9, 1>>))>>)),
  pkcs_9_at_unstructuredName |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 2>>)),
  unstructuredName |-> CONST(R("rfc5280", "Attribute"), VSEQ(<<FV("type", VOID(<<1, 2, 840, 113549, 1, 9, 2>>))>>)),
  pkcs_9_at_unstructuredAddress |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 8>>)),
  unstructuredAddress |-> CONST(R("rfc5280", "Attribute"), VSEQ(<<FV("type", VOID(<<1, 2, 840, 113549, 1, 9, 8>>))>>)),
  pkcs_9_at_dateOfBirth |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 1>>)),
  dateOfBirth |-> CONST(R("rfc2985", "SingleAttribute"), VSEQ(<<FV("type", VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 1>>))>>)),
  pkcs_9_at_placeOfBirth |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 2>>)),
  placeOfBirth |-> CONST(R("rfc2985", "SingleAttribute"), VSEQ(<<FV("type", VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 2>>))>>)),
  pkcs_9_at_gender |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 3>>)),
  gender |-> CONST(R("rfc2985", "SingleAttribute"), VSEQ(<<FV("type", VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 3>>))>>)),
  pkcs_9_at_countryOfCitizenship |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 4>>)),
  countryOfCitizenship |-> CONST(R("rfc5280", "Attribute"), VSEQ(<<FV("type", VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 4>>))>>)),
  pkcs_9_at_countryOfResidence |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 5>>)),
  countryOfResidence |-> CONST(R("rfc5280", "Attribute"), VSEQ(<<FV("type", VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 5>>))>>)),
  id_at_pseudonym |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 65>>)),
  pseudonym |-> CONST(R("rfc5280", "Attribute"), VSEQ(<<FV("type", VOID(<<2, 5, 4, 65>>))>>)),
  id_at_serialNumber |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 5>>)),
  serialNumber |-> CONST(R("rfc5280", "Attribute"), VSEQ(<<FV("type", VOID(<<2, 5, 4, 5>>))>>)),
  pkcs_9_at_contentType |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 3>>)),
  contentType |-> CONST(R("rfc2985", "CMSSingleAttribute"), VSEQ(<<FV("attrType", VOID(<<1, 2, 840, 113549, 1, 9, 3>>))>>)),
  pkcs_9_at_messageDigest |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 4>>)),
  messageDigest |-> CONST(R("rfc2985", "CMSSingleAttribute"), VSEQ(<<FV("attrType", VOID(<<1, 2, 840, 113549, 1, 9, 4>>))>>)),
  pkcs_9_at_signingTime |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 5>>)),
  signingTime |-> CONST(R("rfc2985", "CMSSingleAttribute"), VSEQ(<<FV("attrType", VOID(<<1, 2, 840, 113549, 1, 9, 5>>))>>)),
  pkcs_9_at_randomNonce |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 25, 3>>)),
  randomNonce |-> CONST(R("rfc2985", "CMSSingleAttribute"), VSEQ(<<FV("attrType", VOID(<<1, 2, 840, 113549, 1, 9, 25, 3>>))>>)),
  pkcs_9_at_sequenceNumber |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 25, 4>>)),
  sequenceNumber |-> CONST(R("rfc2985", "CMSSingleAttribute"), VSEQ(<<FV("attrType", VOID(<<1, 2, 840, 113549, 1, 9, 25, 4>>))>>)),
  pkcs_9_at_counterSignature |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 6>>)),
  counterSignature |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<1, 2, 840, 113549, 1, 9, 6>>))>>)),
  pkcs_9_at_challengePassword |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 7>>)),
  challengePassword |-> CONST(R("rfc2985", "SingleAttribute"), VSEQ(<<FV("type", VOID(<<1, 2, 840, 113549, 1, 9, 7>>))>>)),
  pkcs_9_at_extensionRequest |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 14>>)),
  extensionRequest |-> CONST(R("rfc2985", "SingleAttribute"), VSEQ(<<FV("type", VOID(<<1, 2, 840, 113549, 1, 9, 14>>))>>)),
  pkcs_9_at_extendedCertificateAttributes |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 9>>)),
  extendedCertificateAttributes |-> CONST(R("rfc2985", "SingleAttribute"), VSEQ(<<FV("type", VOID(<<1, 2, 840, 113549, 1, 9, 9>>))>>)),
  pkcs_9_at_friendlyName |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 20>>)),
  friendlyName |-> CONST(R("rfc2985", "SingleAttribute"), VSEQ(<<FV("type", VOID(<<1, 2, 840, 113549, 1, 9, 20>>))>>)),
  pkcs_9_at_localKeyId |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 21>>)),
  localKeyId |-> CONST(R("rfc2985", "SingleAttribute"), VSEQ(<<FV("type", VOID(<<1, 2, 840, 113549, 1, 9, 21>>))>>)),
  pkcs_9_at_signingDescription |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 13>>)),
  signingDescription |-> CONST(R("rfc2985", "CMSSingleAttribute"), VSEQ(<<FV("attrType", VOID(<<1, 2, 840, 113549, 1, 9, 13>>))>>)),
  pkcs_9_at_smimeCapabilities |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 15>>)),
  smimeCapabilities |-> CONST(R("rfc2985", "CMSSingleAttribute"), VSEQ(<<FV("attrType", VOID(<<1, 2, 840, 113549, 1, 9, 15>>))>>))]

\* open type tables this module exports, with the table each one is
rfc2985_Tables == <<>>

\* what importing this module adds to the tables
rfc2985_Entries == <<
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 5, 4, 5>>), R("rfc5280", "X520SerialNumber")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 5, 4, 65>>), R("rfc2985", "DirectoryString")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 1>>), R("rfc5280", "EmailAddress")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 25, 5>>), R("rfc5652", "ContentInfo")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 16, 840, 1, 113730, 3, 1, 216>>), R("rfc7292", "PFX")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 25, 2>>), R("rfc5958", "EncryptedPrivateKeyInfo")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 2>>), R("rfc2985", "PKCS9String")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 8>>), R("rfc2985", "DirectoryString")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 1>>), GeneralizedTime),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 2>>), R("rfc2985", "DirectoryString")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 3>>), R("rfc2985", "GenderString")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 4>>), R("rfc5280", "X520countryName")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 5>>), R("rfc5280", "X520countryName")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 7>>), R("rfc2985", "DirectoryString")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 14>>), R("rfc2985", "ExtensionRequest")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 9>>), R("rfc2985", "AttributeSet")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 3>>), R("rfc5652", "ContentType")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 4>>), R("rfc5652", "MessageDigest")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 5>>), R("rfc5652", "SigningTime")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 6>>), R("rfc5652", "Countersignature")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 20>>), R("rfc2985", "FriendlyName")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 21>>), OCTET_STRING),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 25, 3>>), R("rfc2985", "RandomNonce")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 25, 4>>), R("rfc2985", "SequenceNumber")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 13>>), R("rfc2985", "DirectoryString"))>>
=================================================================
