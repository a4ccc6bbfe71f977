------------------------ MODULE rfc5755 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5755.txt
\* https://www.rfc-editor.org/rfc/rfc5912.txt (see Section 13)
EXTENDS Asn1Notation

rfc5755_Imports == <<"rfc5280", "rfc5652">>

rfc5755_StarImports == <<>>

rfc5755_Types == [
  ContentInfo |-> R("rfc5652", "ContentInfo"),
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  Attribute |-> R("rfc5280", "Attribute"),
  AuthorityInfoAccessSyntax |-> R("rfc5280", "AuthorityInfoAccessSyntax"),
  AuthorityKeyIdentifier |-> R("rfc5280", "AuthorityKeyIdentifier"),
  CertificateSerialNumber |-> R("rfc5280", "CertificateSerialNumber"),
  CRLDistributionPoints |-> R("rfc5280", "CRLDistributionPoints"),
  Extensions |-> R("rfc5280", "Extensions"),
  Extension |-> R("rfc5280", "Extension"),
  GeneralNames |-> R("rfc5280", "GeneralNames"),
  GeneralName |-> R("rfc5280", "GeneralName"),
  UniqueIdentifier |-> R("rfc5280", "UniqueIdentifier"),
  AttCertVersion |-> NAMED(INTEGER, <<NV("v2", 1)>>),
  IssuerSerial |-> SEQUENCE(<<
    REQ("issuer", R("rfc5280", "GeneralNames")),
    REQ("serial", R("rfc5280", "CertificateSerialNumber")),
    OPT("issuerUID", R("rfc5280", "UniqueIdentifier"))>>),
  ObjectDigestInfo |-> SEQUENCE(<<
    REQ("digestedObjectType", NAMED(ENUMERATED, <<NV("publicKey", 0), NV("publicKeyCert", 1), NV("otherObjectTypes", 2)>>)),
    OPT("otherObjectTypeID", OBJECT_IDENTIFIER),
    REQ("digestAlgorithm", R("rfc5280", "AlgorithmIdentifier")),
    REQ("objectDigest", BIT_STRING)>>),
  Holder |-> SEQUENCE(<<
    OPT("baseCertificateID", IMPL(CTX, 0, R("rfc5755", "IssuerSerial"))),
    OPT("entityName", IMPL(CTX, 1, R("rfc5280", "GeneralNames"))),
    OPT("objectDigestInfo", IMPL(CTX, 2, R("rfc5755", "ObjectDigestInfo")))>>),
  V2Form |-> SEQUENCE(<<
    OPT("issuerName", R("rfc5280", "GeneralNames")),
    OPT("baseCertificateID", IMPL(CTX, 0, R("rfc5755", "IssuerSerial"))),
    OPT("objectDigestInfo", IMPL(CTX, 1, R("rfc5755", "ObjectDigestInfo")))>>),
  AttCertIssuer |-> CHOICE(<<
    REQ("v1Form", R("rfc5280", "GeneralNames")),
    REQ("v2Form", IMPL(CTX, 0, R("rfc5755", "V2Form")))>>),
  AttCertValidityPeriod |-> SEQUENCE(<<
    REQ("notBeforeTime", GeneralizedTime),
    REQ("notAfterTime", GeneralizedTime)>>),
  AttributeCertificateInfo |-> SEQUENCE(<<
    REQ("version", R("rfc5755", "AttCertVersion")),
    REQ("holder", R("rfc5755", "Holder")),
    REQ("issuer", R("rfc5755", "AttCertIssuer")),
    REQ("signature", R("rfc5280", "AlgorithmIdentifier")),
    REQ("serialNumber", R("rfc5280", "CertificateSerialNumber")),
    REQ("attrCertValidityPeriod", R("rfc5755", "AttCertValidityPeriod")),
    REQ("attributes", SEQUENCE_OF(R("rfc5280", "Attribute"))),
    OPT("issuerUniqueID", R("rfc5280", "UniqueIdentifier")),
    OPT("extensions", R("rfc5280", "Extensions"))>>),
  AttributeCertificate |-> SEQUENCE(<<
    REQ("acinfo", R("rfc5755", "AttributeCertificateInfo")),
    REQ("signatureAlgorithm", R("rfc5280", "AlgorithmIdentifier")),
    REQ("signatureValue", BIT_STRING)>>),
  TargetCert |-> SEQUENCE(<<
    REQ("targetCertificate", R("rfc5755", "IssuerSerial")),
    OPT("targetName", R("rfc5280", "GeneralName")),
    OPT("certDigestInfo", R("rfc5755", "ObjectDigestInfo"))>>),
  Target |-> CHOICE(<<
    REQ("targetName", IMPL(CTX, 0, R("rfc5280", "GeneralName"))),
    REQ("targetGroup", IMPL(CTX, 1, R("rfc5280", "GeneralName"))),
    REQ("targetCert", IMPL(CTX, 2, R("rfc5755", "TargetCert")))>>),
  Targets |-> SEQUENCE_OF(R("rfc5755", "Target")),
  ProxyInfo |-> SEQUENCE_OF(R("rfc5755", "Targets")),
  AttrSpec |-> SEQUENCE_OF(OBJECT_IDENTIFIER),
  AAControls |-> SEQUENCE(<<
    OPT("pathLenConstraint", CON(INTEGER, RANGE(I(0), NOBOUND))),
    OPT("permittedAttrs", IMPL(CTX, 0, R("rfc5755", "AttrSpec"))),
    OPT("excludedAttrs", IMPL(CTX, 1, R("rfc5755", "AttrSpec"))),
    DFLT("permitUnSpecified", BOOLEAN_T, VB(TRUE))>>),
  SvceAuthInfo |-> SEQUENCE(<<
    REQ("service", R("rfc5280", "GeneralName")),
    REQ("ident", R("rfc5280", "GeneralName")),
    OPT("authInfo", OCTET_STRING)>>),
  IetfAttrSyntax |-> SEQUENCE(<<
    OPT("policyAuthority", IMPL(CTX, 0, R("rfc5280", "GeneralNames"))),
    REQ("values", SEQUENCE_OF(CHOICE(<<
          REQ("octets", OCTET_STRING),
          REQ("oid", OBJECT_IDENTIFIER),
          REQ("string", UTF8String)>>)))>>),
  RoleSyntax |-> SEQUENCE(<<
    OPT("roleAuthority", IMPL(CTX, 0, R("rfc5280", "GeneralNames"))),
    REQ("roleName", IMPL(CTX, 1, R("rfc5280", "GeneralName")))>>),
  ClassList |-> NAMED(BIT_STRING, <<NV("unmarked", 0), NV("unclassified", 1), NV("restricted", 2), NV("confidential", 3), NV("secret", 4), NV("topSecret", 5)>>),
  SecurityCategory |-> SEQUENCE(<<
    REQ("type", IMPL(CTX, 0, OBJECT_IDENTIFIER)),
    OPEN("type", "rfc5755", "securityCategoryMap", REQ("value", IMPL(CTX, 1, ANY_T)))>>),
  Clearance |-> SEQUENCE(<<
    REQ("policyId", OBJECT_IDENTIFIER),
    DFLT("classList", R("rfc5755", "ClassList"), VBITS(6, <<64>>)),
    OPT("securityCategories", SET_OF(R("rfc5755", "SecurityCategory")))>>),
  Clearance_rfc3281 |-> SEQUENCE(<<
    REQ("policyId", IMPL(CTX, 0, OBJECT_IDENTIFIER)),
    DFLT("classList", IMPL(CTX, 1, R("rfc5755", "ClassList")), VBITS(6, <<64>>)),
    OPT("securityCategories", IMPL(CTX, 2, SET_OF(R("rfc5755", "SecurityCategory"))))>>),
  ACClearAttrs |-> SEQUENCE(<<
    REQ("acIssuer", R("rfc5280", "GeneralName")),
    REQ("acSerial", INTEGER),
    REQ("attrs", SEQUENCE_OF(R("rfc5280", "Attribute")))>>)]

rfc5755_Values == [
  id_pkix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7>>)),
  id_pe |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1>>)),
  id_kp |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3>>)),
  id_aca |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 10>>)),
  id_ad |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48>>)),
  id_at |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4>>)),
  id_ce |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29>>)),
  id_pe_ac_auditIdentity |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 4>>)),
  id_ce_noRevAvail |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 56>>)),
  id_ce_targetInformation |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 55>>)),
  id_pe_ac_proxying |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 10>>)),
  id_pe_aaControls |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 6>>)),
  id_aca_authenticationInfo |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 10, 1>>)),
  id_aca_accessIdentity |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 10, 2>>)),
  id_aca_chargingIdentity |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 10, 3>>)),
  id_aca_group |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 10, 4>>)),
  id_at_role |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 72>>)),
  id_at_clearance |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 55>>)),
  id_at_clearance_rfc3281 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 1, 5, 55>>)),
  id_aca_encAttrs |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 10, 6>>))]

\* open type tables this module exports, with the table each one is
rfc5755_Tables == <<<<"securityCategoryMap", "rfc5755", "securityCategoryMap">>>>

\* what importing this module adds to the tables
rfc5755_Entries == <<
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 10, 1>>), R("rfc5755", "SvceAuthInfo")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 10, 2>>), R("rfc5755", "SvceAuthInfo")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 10, 3>>), R("rfc5755", "IetfAttrSyntax")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 10, 4>>), R("rfc5755", "IetfAttrSyntax")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 5, 4, 72>>), R("rfc5755", "RoleSyntax")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 5, 4, 55>>), R("rfc5755", "Clearance")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 5, 1, 5, 55>>), R("rfc5755", "Clearance_rfc3281")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 10, 6>>), R("rfc5652", "ContentInfo")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 4>>), OCTET_STRING),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 56>>), NULL_T),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 55>>), R("rfc5755", "Targets")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 10>>), R("rfc5755", "ProxyInfo")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 6>>), R("rfc5755", "AAControls"))>>
=================================================================
