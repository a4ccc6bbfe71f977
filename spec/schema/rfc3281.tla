------------------------ MODULE rfc3281 ------------------------
\* http://www.ietf.org/rfc/rfc3281.txt
EXTENDS Asn1Notation

rfc3281_Imports == <<"rfc3280">>

rfc3281_StarImports == <<>>

rfc3281_Types == [
  ObjectDigestInfo |-> SEQUENCE(<<
    REQ("digestedObjectType", NAMED(ENUMERATED, <<NV("publicKey", 0), NV("publicKeyCert", 1), NV("otherObjectTypes", 2)>>)),
    OPT("otherObjectTypeID", OBJECT_IDENTIFIER),
    REQ("digestAlgorithm", R("rfc3280", "AlgorithmIdentifier")),
    REQ("objectDigest", BIT_STRING)>>),
  IssuerSerial |-> SEQUENCE(<<
    REQ("issuer", R("rfc3280", "GeneralNames")),
    REQ("serial", R("rfc3280", "CertificateSerialNumber")),
    OPT("issuerUID", R("rfc3280", "UniqueIdentifier"))>>),
  TargetCert |-> SEQUENCE(<<
    REQ("targetCertificate", R("rfc3281", "IssuerSerial")),
    OPT("targetName", R("rfc3280", "GeneralName")),
    OPT("certDigestInfo", R("rfc3281", "ObjectDigestInfo"))>>),
  Target |-> CHOICE(<<
    REQ("targetName", IMPL(CTX, 0, R("rfc3280", "GeneralName"))),
    REQ("targetGroup", IMPL(CTX, 1, R("rfc3280", "GeneralName"))),
    REQ("targetCert", IMPL(CTX, 2, R("rfc3281", "TargetCert")))>>),
  Targets |-> SEQUENCE_OF(R("rfc3281", "Target")),
  ProxyInfo |-> SEQUENCE_OF(R("rfc3281", "Targets")),
  ClassList |-> NAMED(BIT_STRING, <<NV("unmarked", 0), NV("unclassified", 1), NV("restricted", 2), NV("confidential", 3), NV("secret", 4), NV("topSecret", 5)>>),
  SecurityCategory |-> SEQUENCE(<<
    REQ("type", IMPL(CTX, 0, OBJECT_IDENTIFIER)),
    REQ("value", IMPL(CTX, 1, ANY_T))>>),
  Clearance |-> SEQUENCE(<<
    REQ("policyId", IMPL(CTX, 0, OBJECT_IDENTIFIER)),
    DFLT("classList", IMPL(CTX, 1, R("rfc3281", "ClassList")), VBITS(6, <<64>>)),
    OPT("securityCategories", IMPL(CTX, 2, SET_OF(R("rfc3281", "SecurityCategory"))))>>),
  AttCertVersion |-> NAMED(INTEGER, <<NV("v2", 1)>>),
  AttrSpec |-> SEQUENCE_OF(OBJECT_IDENTIFIER),
  AAControls |-> SEQUENCE(<<
    OPT("pathLenConstraint", CON(INTEGER, RANGE(I(0), NOBOUND))),
    OPT("permittedAttrs", IMPL(CTX, 0, R("rfc3281", "AttrSpec"))),
    OPT("excludedAttrs", IMPL(CTX, 1, R("rfc3281", "AttrSpec"))),
    DFLT("permitUnSpecified", BOOLEAN_T, VB(TRUE))>>),
  AttCertValidityPeriod |-> SEQUENCE(<<
    REQ("notBeforeTime", GeneralizedTime),
    REQ("notAfterTime", GeneralizedTime)>>),
  V2Form |-> SEQUENCE(<<
    OPT("issuerName", R("rfc3280", "GeneralNames")),
    OPT("baseCertificateID", IMPL(CTX, 0, R("rfc3281", "IssuerSerial"))),
    OPT("objectDigestInfo", IMPL(CTX, 1, R("rfc3281", "ObjectDigestInfo")))>>),
  AttCertIssuer |-> CHOICE(<<
    REQ("v1Form", R("rfc3280", "GeneralNames")),
    REQ("v2Form", IMPL(CTX, 0, R("rfc3281", "V2Form")))>>),
  Holder |-> SEQUENCE(<<
    OPT("baseCertificateID", IMPL(CTX, 0, R("rfc3281", "IssuerSerial"))),
    OPT("entityName", IMPL(CTX, 1, R("rfc3280", "GeneralNames"))),
    OPT("objectDigestInfo", IMPL(CTX, 2, R("rfc3281", "ObjectDigestInfo")))>>),
  AttributeCertificateInfo |-> SEQUENCE(<<
    REQ("version", R("rfc3281", "AttCertVersion")),
    REQ("holder", R("rfc3281", "Holder")),
    REQ("issuer", R("rfc3281", "AttCertIssuer")),
    REQ("signature", R("rfc3280", "AlgorithmIdentifier")),
    REQ("serialNumber", R("rfc3280", "CertificateSerialNumber")),
    REQ("attrCertValidityPeriod", R("rfc3281", "AttCertValidityPeriod")),
    REQ("attributes", SEQUENCE_OF(R("rfc3280", "Attribute"))),
    OPT("issuerUniqueID", R("rfc3280", "UniqueIdentifier")),
    OPT("extensions", R("rfc3280", "Extensions"))>>),
  AttributeCertificate |-> SEQUENCE(<<
    REQ("acinfo", R("rfc3281", "AttributeCertificateInfo")),
    REQ("signatureAlgorithm", R("rfc3280", "AlgorithmIdentifier")),
    REQ("signatureValue", BIT_STRING)>>),
  RoleSyntax |-> SEQUENCE(<<
    OPT("roleAuthority", IMPL(CTX, 0, R("rfc3280", "GeneralNames"))),
    REQ("roleName", IMPL(CTX, 1, R("rfc3280", "GeneralName")))>>),
  ACClearAttrs |-> SEQUENCE(<<
    REQ("acIssuer", R("rfc3280", "GeneralName")),
    REQ("acSerial", INTEGER),
    REQ("attrs", SEQUENCE_OF(R("rfc3280", "Attribute")))>>),
  SvceAuthInfo |-> SEQUENCE(<<
    REQ("service", R("rfc3280", "GeneralName")),
    REQ("ident", R("rfc3280", "GeneralName")),
    OPT("authInfo", OCTET_STRING)>>),
  IetfAttrSyntax |-> SEQUENCE(<<
    OPT("policyAuthority", IMPL(CTX, 0, R("rfc3280", "GeneralNames"))),
    REQ("values", SEQUENCE_OF(CHOICE(<<
          REQ("octets", OCTET_STRING),
          REQ("oid", OBJECT_IDENTIFIER),
          REQ("string", UTF8String)>>)))>>)]

rfc3281_Values == [
  id_at_role |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 72>>)),
  id_pe_aaControls |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 6>>)),
  id_ce_targetInformation |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 55>>)),
  id_pe_ac_auditIdentity |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 4>>)),
  id_aca |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 10>>)),
  id_at_clearance |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 1, 5, 55>>)),
  id_aca_authenticationInfo |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 10, 1>>)),
  id_mod |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 0>>)),
  id_mod_attribute_cert |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 0, 12>>)),
  id_aca_accessIdentity |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 10, 2>>)),
  id_aca_chargingIdentity |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 10, 3>>)),
  id_aca_group |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 10, 4>>)),
  id_pe_ac_proxying |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 10>>)),
  id_aca_encAttrs |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 10, 6>>))]

\* open type tables this module exports, with the table each one is
rfc3281_Tables == <<>>

\* what importing this module adds to the tables
rfc3281_Entries == <<
>>
=================================================================
