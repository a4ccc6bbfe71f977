------------------------ MODULE rfc5652 ------------------------
\* http://www.ietf.org/rfc/rfc5652.txt
EXTENDS Asn1Notation

rfc5652_Imports == <<"rfc3281", "rfc5280">>

rfc5652_StarImports == <<>>

rfc5652_Types == [
  AttCertVersionV1 |-> NAMED(INTEGER, <<NV("v1", 0)>>),
  AttributeCertificateInfoV1 |-> SEQUENCE(<<
    DFLT("version", R("rfc5652", "AttCertVersionV1"), VI(0)),
    REQ("subject", CHOICE(<<
        REQ("baseCertificateID", EXPL(CTX, 0, R("rfc3281", "IssuerSerial"))),
        REQ("subjectName", EXPL(CTX, 1, R("rfc5280", "GeneralNames")))>>)),
    REQ("issuer", R("rfc5280", "GeneralNames")),
    REQ("signature", R("rfc5280", "AlgorithmIdentifier")),
    REQ("serialNumber", R("rfc5280", "CertificateSerialNumber")),
    REQ("attCertValidityPeriod", R("rfc3281", "AttCertValidityPeriod")),
    REQ("attributes", SEQUENCE_OF(R("rfc5280", "Attribute"))),
    OPT("issuerUniqueID", R("rfc5280", "UniqueIdentifier")),
    OPT("extensions", R("rfc5280", "Extensions"))>>),
  AttributeCertificateV1 |-> SEQUENCE(<<
    REQ("acInfo", R("rfc5652", "AttributeCertificateInfoV1")),
    REQ("signatureAlgorithm", R("rfc5280", "AlgorithmIdentifier")),
    REQ("signature", BIT_STRING)>>),
  AttributeValue |-> ANY_T,
  Attribute |-> SEQUENCE(<<
    REQ("attrType", OBJECT_IDENTIFIER),
    OPEN("attrType", "rfc5652", "cmsAttributesMap", REQ("attrValues", SET_OF(R("rfc5652", "AttributeValue"))))>>),
  SignedAttributes |-> CON(SET_OF(R("rfc5652", "Attribute")), SIZE(1, MAXSIZE)),
  AttributeCertificateV2 |-> R("rfc3281", "AttributeCertificate"),
  OtherKeyAttribute |-> SEQUENCE(<<
    REQ("keyAttrId", OBJECT_IDENTIFIER),
    OPEN("keyAttrId", "rfc5652", "otherKeyAttributesMap", OPT("keyAttr", ANY_T))>>),
  UnauthAttributes |-> CON(SET_OF(R("rfc5652", "Attribute")), SIZE(1, MAXSIZE)),
  SignatureValue |-> OCTET_STRING,
  IssuerAndSerialNumber |-> SEQUENCE(<<
    REQ("issuer", R("rfc5280", "Name")),
    REQ("serialNumber", R("rfc5280", "CertificateSerialNumber"))>>),
  SubjectKeyIdentifier |-> OCTET_STRING,
  RecipientKeyIdentifier |-> SEQUENCE(<<
    REQ("subjectKeyIdentifier", R("rfc5652", "SubjectKeyIdentifier")),
    OPT("date", GeneralizedTime),
    OPT("other", R("rfc5652", "OtherKeyAttribute"))>>),
  KeyAgreeRecipientIdentifier |-> CHOICE(<<
    REQ("issuerAndSerialNumber", R("rfc5652", "IssuerAndSerialNumber")),
    REQ("rKeyId", IMPL(CTX, 0, R("rfc5652", "RecipientKeyIdentifier")))>>),
  EncryptedKey |-> OCTET_STRING,
  RecipientEncryptedKey |-> SEQUENCE(<<
    REQ("rid", R("rfc5652", "KeyAgreeRecipientIdentifier")),
    REQ("encryptedKey", R("rfc5652", "EncryptedKey"))>>),
  RecipientEncryptedKeys |-> SEQUENCE_OF(R("rfc5652", "RecipientEncryptedKey")),
  MessageAuthenticationCode |-> OCTET_STRING,
  CMSVersion |-> NAMED(INTEGER, <<NV("v0", 0), NV("v1", 1), NV("v2", 2), NV("v3", 3), NV("v4", 4), NV("v5", 5)>>),
  OtherCertificateFormat |-> SEQUENCE(<<
    REQ("otherCertFormat", OBJECT_IDENTIFIER),
    OPEN("otherCertFormat", "rfc5652", "otherCertFormatMap", REQ("otherCert", ANY_T))>>),
  ExtendedCertificateInfo |-> SEQUENCE(<<
    REQ("version", R("rfc5652", "CMSVersion")),
    REQ("certificate", R("rfc5280", "Certificate")),
    REQ("attributes", R("rfc5652", "UnauthAttributes"))>>),
  Signature |-> BIT_STRING,
  SignatureAlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  ExtendedCertificate |-> SEQUENCE(<<
    REQ("extendedCertificateInfo", R("rfc5652", "ExtendedCertificateInfo")),
    REQ("signatureAlgorithm", R("rfc5652", "SignatureAlgorithmIdentifier")),
    REQ("signature", R("rfc5652", "Signature"))>>),
  CertificateChoices |-> CHOICE(<<
    REQ("certificate", R("rfc5280", "Certificate")),
    REQ("extendedCertificate", IMPL(CTX, 0, R("rfc5652", "ExtendedCertificate"))),
    REQ("v1AttrCert", IMPL(CTX, 1, R("rfc5652", "AttributeCertificateV1"))),
    REQ("v2AttrCert", IMPL(CTX, 2, R("rfc5652", "AttributeCertificateV2"))),
    REQ("other", IMPL(CTX, 3, R("rfc5652", "OtherCertificateFormat")))>>),
  CertificateSet |-> SET_OF(R("rfc5652", "CertificateChoices")),
  OtherRevocationInfoFormat |-> SEQUENCE(<<
    REQ("otherRevInfoFormat", OBJECT_IDENTIFIER),
    OPEN("otherRevInfoFormat", "rfc5652", "otherRevInfoFormatMap", REQ("otherRevInfo", ANY_T))>>),
  RevocationInfoChoice |-> CHOICE(<<
    REQ("crl", R("rfc5280", "CertificateList")),
    REQ("other", IMPL(CTX, 1, R("rfc5652", "OtherRevocationInfoFormat")))>>),
  RevocationInfoChoices |-> SET_OF(R("rfc5652", "RevocationInfoChoice")),
  OriginatorInfo |-> SEQUENCE(<<
    OPT("certs", IMPL(CTX, 0, R("rfc5652", "CertificateSet"))),
    OPT("crls", IMPL(CTX, 1, R("rfc5652", "RevocationInfoChoices")))>>),
  ContentType |-> OBJECT_IDENTIFIER,
  EncryptedContent |-> OCTET_STRING,
  ContentEncryptionAlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  EncryptedContentInfo |-> SEQUENCE(<<
    REQ("contentType", R("rfc5652", "ContentType")),
    REQ("contentEncryptionAlgorithm", R("rfc5652", "ContentEncryptionAlgorithmIdentifier")),
    OPT("encryptedContent", IMPL(CTX, 0, R("rfc5652", "EncryptedContent")))>>),
  UnprotectedAttributes |-> CON(SET_OF(R("rfc5652", "Attribute")), SIZE(1, MAXSIZE)),
  KeyEncryptionAlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  KEKIdentifier |-> SEQUENCE(<<
    REQ("keyIdentifier", OCTET_STRING),
    OPT("date", GeneralizedTime),
    OPT("other", R("rfc5652", "OtherKeyAttribute"))>>),
  KEKRecipientInfo |-> SEQUENCE(<<
    REQ("version", R("rfc5652", "CMSVersion")),
    REQ("kekid", R("rfc5652", "KEKIdentifier")),
    REQ("keyEncryptionAlgorithm", R("rfc5652", "KeyEncryptionAlgorithmIdentifier")),
    REQ("encryptedKey", R("rfc5652", "EncryptedKey"))>>),
  KeyDerivationAlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  PasswordRecipientInfo |-> SEQUENCE(<<
    REQ("version", R("rfc5652", "CMSVersion")),
    OPT("keyDerivationAlgorithm", IMPL(CTX, 0, R("rfc5652", "KeyDerivationAlgorithmIdentifier"))),
    REQ("keyEncryptionAlgorithm", R("rfc5652", "KeyEncryptionAlgorithmIdentifier")),
    REQ("encryptedKey", R("rfc5652", "EncryptedKey"))>>),
  RecipientIdentifier |-> CHOICE(<<
    REQ("issuerAndSerialNumber", R("rfc5652", "IssuerAndSerialNumber")),
    REQ("subjectKeyIdentifier", IMPL(CTX, 0, R("rfc5652", "SubjectKeyIdentifier")))>>),
  KeyTransRecipientInfo |-> SEQUENCE(<<
    REQ("version", R("rfc5652", "CMSVersion")),
    REQ("rid", R("rfc5652", "RecipientIdentifier")),
    REQ("keyEncryptionAlgorithm", R("rfc5652", "KeyEncryptionAlgorithmIdentifier")),
    REQ("encryptedKey", R("rfc5652", "EncryptedKey"))>>),
  UserKeyingMaterial |-> OCTET_STRING,
  OriginatorPublicKey |-> SEQUENCE(<<
    REQ("algorithm", R("rfc5280", "AlgorithmIdentifier")),
    REQ("publicKey", BIT_STRING)>>),
  OriginatorIdentifierOrKey |-> CHOICE(<<
    REQ("issuerAndSerialNumber", R("rfc5652", "IssuerAndSerialNumber")),
    REQ("subjectKeyIdentifier", IMPL(CTX, 0, R("rfc5652", "SubjectKeyIdentifier"))),
    REQ("originatorKey", IMPL(CTX, 1, R("rfc5652", "OriginatorPublicKey")))>>),
  KeyAgreeRecipientInfo |-> SEQUENCE(<<
    REQ("version", R("rfc5652", "CMSVersion")),
    REQ("originator", EXPL(CTX, 0, R("rfc5652", "OriginatorIdentifierOrKey"))),
    OPT("ukm", EXPL(CTX, 1, R("rfc5652", "UserKeyingMaterial"))),
    REQ("keyEncryptionAlgorithm", R("rfc5652", "KeyEncryptionAlgorithmIdentifier")),
    REQ("recipientEncryptedKeys", R("rfc5652", "RecipientEncryptedKeys"))>>),
  OtherRecipientInfo |-> SEQUENCE(<<
    REQ("oriType", OBJECT_IDENTIFIER),
    OPEN("oriType", "rfc5652", "otherRecipientInfoMap", REQ("oriValue", ANY_T))>>),
  RecipientInfo |-> CHOICE(<<
    REQ("ktri", R("rfc5652", "KeyTransRecipientInfo")),
    REQ("kari", IMPL(CTX, 1, R("rfc5652", "KeyAgreeRecipientInfo"))),
    REQ("kekri", IMPL(CTX, 2, R("rfc5652", "KEKRecipientInfo"))),
    REQ("pwri", IMPL(CTX, 3, R("rfc5652", "PasswordRecipientInfo"))),
    REQ("ori", IMPL(CTX, 4, R("rfc5652", "OtherRecipientInfo")))>>),
  RecipientInfos |-> CON(SET_OF(R("rfc5652", "RecipientInfo")), SIZE(1, MAXSIZE)),
  EnvelopedData |-> SEQUENCE(<<
    REQ("version", R("rfc5652", "CMSVersion")),
    OPT("originatorInfo", IMPL(CTX, 0, R("rfc5652", "OriginatorInfo"))),
    REQ("recipientInfos", R("rfc5652", "RecipientInfos")),
    REQ("encryptedContentInfo", R("rfc5652", "EncryptedContentInfo")),
    OPT("unprotectedAttrs", IMPL(CTX, 1, R("rfc5652", "UnprotectedAttributes")))>>),
  DigestAlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  EncryptedData |-> SEQUENCE(<<
    REQ("version", R("rfc5652", "CMSVersion")),
    REQ("encryptedContentInfo", R("rfc5652", "EncryptedContentInfo")),
    OPT("unprotectedAttrs", IMPL(CTX, 1, R("rfc5652", "UnprotectedAttributes")))>>),
  MessageAuthenticationCodeAlgorithm |-> R("rfc5280", "AlgorithmIdentifier"),
  UnsignedAttributes |-> CON(SET_OF(R("rfc5652", "Attribute")), SIZE(1, MAXSIZE)),
  SignerIdentifier |-> CHOICE(<<
    REQ("issuerAndSerialNumber", R("rfc5652", "IssuerAndSerialNumber")),
    REQ("subjectKeyIdentifier", IMPL(CTX, 0, R("rfc5652", "SubjectKeyIdentifier")))>>),
  SignerInfo |-> SEQUENCE(<<
    REQ("version", R("rfc5652", "CMSVersion")),
    REQ("sid", R("rfc5652", "SignerIdentifier")),
    REQ("digestAlgorithm", R("rfc5652", "DigestAlgorithmIdentifier")),
    OPT("signedAttrs", IMPL(CTX, 0, R("rfc5652", "SignedAttributes"))),
    REQ("signatureAlgorithm", R("rfc5652", "SignatureAlgorithmIdentifier")),
    REQ("signature", R("rfc5652", "SignatureValue")),
    OPT("unsignedAttrs", IMPL(CTX, 1, R("rfc5652", "UnsignedAttributes")))>>),
  SignerInfos |-> SET_OF(R("rfc5652", "SignerInfo")),
  Countersignature |-> R("rfc5652", "SignerInfo"),
  ContentInfo |-> SEQUENCE(<<
    REQ("contentType", R("rfc5652", "ContentType")),
    OPEN("contentType", "rfc5652", "cmsContentTypesMap", REQ("content", EXPL(CTX, 0, ANY_T)))>>),
  EncapsulatedContentInfo |-> SEQUENCE(<<
    REQ("eContentType", R("rfc5652", "ContentType")),
    OPT("eContent", EXPL(CTX, 0, OCTET_STRING))>>),
  MessageDigest |-> OCTET_STRING,
  AuthAttributes |-> CON(SET_OF(R("rfc5652", "Attribute")), SIZE(1, MAXSIZE)),
  Time |-> CHOICE(<<
    REQ("utcTime", UTCTime),
    REQ("generalTime", GeneralizedTime)>>),
  AuthenticatedData |-> SEQUENCE(<<
    REQ("version", R("rfc5652", "CMSVersion")),
    OPT("originatorInfo", IMPL(CTX, 0, R("rfc5652", "OriginatorInfo"))),
    REQ("recipientInfos", R("rfc5652", "RecipientInfos")),
    REQ("macAlgorithm", R("rfc5652", "MessageAuthenticationCodeAlgorithm")),
    OPT("digestAlgorithm", IMPL(CTX, 1, R("rfc5652", "DigestAlgorithmIdentifier"))),
    REQ("encapContentInfo", R("rfc5652", "EncapsulatedContentInfo")),
    OPT("authAttrs", IMPL(CTX, 2, R("rfc5652", "AuthAttributes"))),
    REQ("mac", R("rfc5652", "MessageAuthenticationCode")),
    OPT("unauthAttrs", IMPL(CTX, 3, R("rfc5652", "UnauthAttributes")))>>),
  ExtendedCertificateOrCertificate |-> CHOICE(<<
    REQ("certificate", R("rfc5280", "Certificate")),
    REQ("extendedCertificate", IMPL(CTX, 0, R("rfc5652", "ExtendedCertificate")))>>),
  Digest |-> OCTET_STRING,
  DigestedData |-> SEQUENCE(<<
    REQ("version", R("rfc5652", "CMSVersion")),
    REQ("digestAlgorithm", R("rfc5652", "DigestAlgorithmIdentifier")),
    REQ("encapContentInfo", R("rfc5652", "EncapsulatedContentInfo")),
    REQ("digest", R("rfc5652", "Digest"))>>),
  DigestAlgorithmIdentifiers |-> SET_OF(R("rfc5652", "DigestAlgorithmIdentifier")),
  SignedData |-> SEQUENCE(<<
    REQ("version", R("rfc5652", "CMSVersion")),
    REQ("digestAlgorithms", R("rfc5652", "DigestAlgorithmIdentifiers")),
    REQ("encapContentInfo", R("rfc5652", "EncapsulatedContentInfo")),
    OPT("certificates", IMPL(CTX, 0, R("rfc5652", "CertificateSet"))),
    OPT("crls", IMPL(CTX, 1, R("rfc5652", "RevocationInfoChoices"))),
    REQ("signerInfos", R("rfc5652", "SignerInfos"))>>),
  SigningTime |-> R("rfc5652", "Time")]

rfc5652_Values == [
  id_encryptedData |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 7, 6>>)),
  id_ct_contentInfo |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 6>>)),
  id_digestedData |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 7, 5>>)),
  id_messageDigest |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 4>>)),
  id_signedData |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 7, 2>>)),
  id_countersignature |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 6>>)),
  id_data |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 7, 1>>)),
  id_contentType |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 3>>)),
  id_envelopedData |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 7, 3>>)),
  id_signingTime |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 5>>)),
  id_ct_authData |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 2>>))]

\* open type tables this module exports, with the table each one is
rfc5652_Tables == <<<<"cmsContentTypesMap", "rfc5652", "cmsContentTypesMap">>, <<"cmsAttributesMap", "rfc5652", "cmsAttributesMap">>, <<"otherKeyAttributesMap", "rfc5652", "otherKeyAttributesMap">>, <<"otherCertFormatMap", "rfc5652", "otherCertFormatMap">>, <<"otherRevInfoFormatMap", "rfc5652", "otherRevInfoFormatMap">>, <<"otherRecipientInfoMap", "rfc5652", "otherRecipientInfoMap">>>>

\* what importing this module adds to the tables
rfc5652_Entries == <<
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 6>>), R("rfc5652", "ContentInfo")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 7, 1>>), OCTET_STRING),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 7, 2>>), R("rfc5652", "SignedData")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 7, 3>>), R("rfc5652", "EnvelopedData")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 7, 5>>), R("rfc5652", "DigestedData")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 7, 6>>), R("rfc5652", "EncryptedData")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 2>>), R("rfc5652", "AuthenticatedData")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 3>>), R("rfc5652", "ContentType")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 4>>), R("rfc5652", "MessageDigest")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 5>>), R("rfc5652", "SigningTime")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 6>>), R("rfc5652", "Countersignature"))>>
=================================================================
