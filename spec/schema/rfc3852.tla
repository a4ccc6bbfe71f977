------------------------ MODULE rfc3852 ------------------------
\* http://www.ietf.org/rfc/rfc3852.txt
EXTENDS Asn1Notation

rfc3852_Imports == <<"rfc3280", "rfc3281">>

rfc3852_StarImports == <<>>

rfc3852_Types == [
  AttributeValue |-> ANY_T,
  Attribute |-> SEQUENCE(<<
    REQ("attrType", OBJECT_IDENTIFIER),
    REQ("attrValues", SET_OF(R("rfc3852", "AttributeValue")))>>),
  SignedAttributes |-> CON(SET_OF(R("rfc3852", "Attribute")), SIZE(1, MAXSIZE)),
  OtherRevocationInfoFormat |-> SEQUENCE(<<
    REQ("otherRevInfoFormat", OBJECT_IDENTIFIER),
    REQ("otherRevInfo", ANY_T)>>),
  RevocationInfoChoice |-> CHOICE(<<
    REQ("crl", R("rfc3280", "CertificateList")),
    REQ("other", IMPL(CTX, 1, R("rfc3852", "OtherRevocationInfoFormat")))>>),
  RevocationInfoChoices |-> SET_OF(R("rfc3852", "RevocationInfoChoice")),
  OtherKeyAttribute |-> SEQUENCE(<<
    REQ("keyAttrId", OBJECT_IDENTIFIER),
    OPT("keyAttr", ANY_T)>>),
  KeyEncryptionAlgorithmIdentifier |-> R("rfc3280", "AlgorithmIdentifier"),
  EncryptedKey |-> OCTET_STRING,
  CMSVersion |-> NAMED(INTEGER, <<NV("v0", 0), NV("v1", 1), NV("v2", 2), NV("v3", 3), NV("v4", 4), NV("v5", 5)>>),
  KEKIdentifier |-> SEQUENCE(<<
    REQ("keyIdentifier", OCTET_STRING),
    OPT("date", GeneralizedTime),
    OPT("other", R("rfc3852", "OtherKeyAttribute"))>>),
  KEKRecipientInfo |-> SEQUENCE(<<
    REQ("version", R("rfc3852", "CMSVersion")),
    REQ("kekid", R("rfc3852", "KEKIdentifier")),
    REQ("keyEncryptionAlgorithm", R("rfc3852", "KeyEncryptionAlgorithmIdentifier")),
    REQ("encryptedKey", R("rfc3852", "EncryptedKey"))>>),
  KeyDerivationAlgorithmIdentifier |-> R("rfc3280", "AlgorithmIdentifier"),
  PasswordRecipientInfo |-> SEQUENCE(<<
    REQ("version", R("rfc3852", "CMSVersion")),
    OPT("keyDerivationAlgorithm", IMPL(CTX, 0, R("rfc3852", "KeyDerivationAlgorithmIdentifier"))),
    REQ("keyEncryptionAlgorithm", R("rfc3852", "KeyEncryptionAlgorithmIdentifier")),
    REQ("encryptedKey", R("rfc3852", "EncryptedKey"))>>),
  OtherRecipientInfo |-> SEQUENCE(<<
    REQ("oriType", OBJECT_IDENTIFIER),
    REQ("oriValue", ANY_T)>>),
  IssuerAndSerialNumber |-> SEQUENCE(<<
    REQ("issuer", R("rfc3280", "Name")),
    REQ("serialNumber", R("rfc3280", "CertificateSerialNumber"))>>),
  SubjectKeyIdentifier |-> OCTET_STRING,
  RecipientKeyIdentifier |-> SEQUENCE(<<
    REQ("subjectKeyIdentifier", R("rfc3852", "SubjectKeyIdentifier")),
    OPT("date", GeneralizedTime),
    OPT("other", R("rfc3852", "OtherKeyAttribute"))>>),
  KeyAgreeRecipientIdentifier |-> CHOICE(<<
    REQ("issuerAndSerialNumber", R("rfc3852", "IssuerAndSerialNumber")),
    REQ("rKeyId", IMPL(CTX, 0, R("rfc3852", "RecipientKeyIdentifier")))>>),
  RecipientEncryptedKey |-> SEQUENCE(<<
    REQ("rid", R("rfc3852", "KeyAgreeRecipientIdentifier")),
    REQ("encryptedKey", R("rfc3852", "EncryptedKey"))>>),
  RecipientEncryptedKeys |-> SEQUENCE_OF(R("rfc3852", "RecipientEncryptedKey")),
  UserKeyingMaterial |-> OCTET_STRING,
  OriginatorPublicKey |-> SEQUENCE(<<
    REQ("algorithm", R("rfc3280", "AlgorithmIdentifier")),
    REQ("publicKey", BIT_STRING)>>),
  OriginatorIdentifierOrKey |-> CHOICE(<<
    REQ("issuerAndSerialNumber", R("rfc3852", "IssuerAndSerialNumber")),
    REQ("subjectKeyIdentifier", IMPL(CTX, 0, R("rfc3852", "SubjectKeyIdentifier"))),
    REQ("originatorKey", IMPL(CTX, 1, R("rfc3852", "OriginatorPublicKey")))>>),
  KeyAgreeRecipientInfo |-> SEQUENCE(<<
    REQ("version", R("rfc3852", "CMSVersion")),
    REQ("originator", EXPL(CTX, 0, R("rfc3852", "OriginatorIdentifierOrKey"))),
    OPT("ukm", EXPL(CTX, 1, R("rfc3852", "UserKeyingMaterial"))),
    REQ("keyEncryptionAlgorithm", R("rfc3852", "KeyEncryptionAlgorithmIdentifier")),
    REQ("recipientEncryptedKeys", R("rfc3852", "RecipientEncryptedKeys"))>>),
  RecipientIdentifier |-> CHOICE(<<
    REQ("issuerAndSerialNumber", R("rfc3852", "IssuerAndSerialNumber")),
    REQ("subjectKeyIdentifier", IMPL(CTX, 0, R("rfc3852", "SubjectKeyIdentifier")))>>),
  KeyTransRecipientInfo |-> SEQUENCE(<<
    REQ("version", R("rfc3852", "CMSVersion")),
    REQ("rid", R("rfc3852", "RecipientIdentifier")),
    REQ("keyEncryptionAlgorithm", R("rfc3852", "KeyEncryptionAlgorithmIdentifier")),
    REQ("encryptedKey", R("rfc3852", "EncryptedKey"))>>),
  RecipientInfo |-> CHOICE(<<
    REQ("ktri", R("rfc3852", "KeyTransRecipientInfo")),
    REQ("kari", IMPL(CTX, 1, R("rfc3852", "KeyAgreeRecipientInfo"))),
    REQ("kekri", IMPL(CTX, 2, R("rfc3852", "KEKRecipientInfo"))),
    REQ("pwri", IMPL(CTX, 3, R("rfc3852", "PasswordRecipientInfo"))),
    REQ("ori", IMPL(CTX, 4, R("rfc3852", "OtherRecipientInfo")))>>),
  RecipientInfos |-> CON(SET_OF(R("rfc3852", "RecipientInfo")), SIZE(1, MAXSIZE)),
  DigestAlgorithmIdentifier |-> R("rfc3280", "AlgorithmIdentifier"),
  Signature |-> BIT_STRING,
  SignerIdentifier |-> CHOICE(<<
    REQ("issuerAndSerialNumber", R("rfc3852", "IssuerAndSerialNumber")),
    REQ("subjectKeyIdentifier", IMPL(CTX, 0, R("rfc3852", "SubjectKeyIdentifier")))>>),
  UnprotectedAttributes |-> CON(SET_OF(R("rfc3852", "Attribute")), SIZE(1, MAXSIZE)),
  ContentType |-> OBJECT_IDENTIFIER,
  EncryptedContent |-> OCTET_STRING,
  ContentEncryptionAlgorithmIdentifier |-> R("rfc3280", "AlgorithmIdentifier"),
  EncryptedContentInfo |-> SEQUENCE(<<
    REQ("contentType", R("rfc3852", "ContentType")),
    REQ("contentEncryptionAlgorithm", R("rfc3852", "ContentEncryptionAlgorithmIdentifier")),
    OPT("encryptedContent", IMPL(CTX, 0, R("rfc3852", "EncryptedContent")))>>),
  EncryptedData |-> SEQUENCE(<<
    REQ("version", R("rfc3852", "CMSVersion")),
    REQ("encryptedContentInfo", R("rfc3852", "EncryptedContentInfo")),
    OPT("unprotectedAttrs", IMPL(CTX, 1, R("rfc3852", "UnprotectedAttributes")))>>),
  DigestAlgorithmIdentifiers |-> SET_OF(R("rfc3852", "DigestAlgorithmIdentifier")),
  EncapsulatedContentInfo |-> SEQUENCE(<<
    REQ("eContentType", R("rfc3852", "ContentType")),
    OPT("eContent", EXPL(CTX, 0, OCTET_STRING))>>),
  Digest |-> OCTET_STRING,
  DigestedData |-> SEQUENCE(<<
    REQ("version", R("rfc3852", "CMSVersion")),
    REQ("digestAlgorithm", R("rfc3852", "DigestAlgorithmIdentifier")),
    REQ("encapContentInfo", R("rfc3852", "EncapsulatedContentInfo")),
    REQ("digest", R("rfc3852", "Digest"))>>),
  ContentInfo |-> SEQUENCE(<<
    REQ("contentType", R("rfc3852", "ContentType")),
    REQ("content", EXPL(CTX, 0, ANY_T))>>),
  UnauthAttributes |-> CON(SET_OF(R("rfc3852", "Attribute")), SIZE(1, MAXSIZE)),
  ExtendedCertificateInfo |-> SEQUENCE(<<
    REQ("version", R("rfc3852", "CMSVersion")),
    REQ("certificate", R("rfc3280", "Certificate")),
    REQ("attributes", R("rfc3852", "UnauthAttributes"))>>),
  SignatureAlgorithmIdentifier |-> R("rfc3280", "AlgorithmIdentifier"),
  ExtendedCertificate |-> SEQUENCE(<<
    REQ("extendedCertificateInfo", R("rfc3852", "ExtendedCertificateInfo")),
    REQ("signatureAlgorithm", R("rfc3852", "SignatureAlgorithmIdentifier")),
    REQ("signature", R("rfc3852", "Signature"))>>),
  OtherCertificateFormat |-> SEQUENCE(<<
    REQ("otherCertFormat", OBJECT_IDENTIFIER),
    REQ("otherCert", ANY_T)>>),
  AttributeCertificateV2 |-> R("rfc3281", "AttributeCertificate"),
  AttCertVersionV1 |-> NAMED(INTEGER, <<NV("v1", 0)>>),
  AttributeCertificateInfoV1 |-> SEQUENCE(<<
    DFLT("version", R("rfc3852", "AttCertVersionV1"), VI(0)),
    REQ("subject", CHOICE(<<
        REQ("baseCertificateID", EXPL(CTX, 0, R("rfc3281", "IssuerSerial"))),
        REQ("subjectName", EXPL(CTX, 1, R("rfc3280", "GeneralNames")))>>)),
    REQ("issuer", R("rfc3280", "GeneralNames")),
    REQ("signature", R("rfc3280", "AlgorithmIdentifier")),
    REQ("serialNumber", R("rfc3280", "CertificateSerialNumber")),
    REQ("attCertValidityPeriod", R("rfc3281", "AttCertValidityPeriod")),
    REQ("attributes", SEQUENCE_OF(R("rfc3280", "Attribute"))),
    OPT("issuerUniqueID", R("rfc3280", "UniqueIdentifier")),
    OPT("extensions", R("rfc3280", "Extensions"))>>),
  AttributeCertificateV1 |-> SEQUENCE(<<
    REQ("acInfo", R("rfc3852", "AttributeCertificateInfoV1")),
    REQ("signatureAlgorithm", R("rfc3280", "AlgorithmIdentifier")),
    REQ("signature", BIT_STRING)>>),
  CertificateChoices |-> CHOICE(<<
    REQ("certificate", R("rfc3280", "Certificate")),
    REQ("extendedCertificate", IMPL(CTX, 0, R("rfc3852", "ExtendedCertificate"))),
    REQ("v1AttrCert", IMPL(CTX, 1, R("rfc3852", "AttributeCertificateV1"))),
    REQ("v2AttrCert", IMPL(CTX, 2, R("rfc3852", "AttributeCertificateV2"))),
    REQ("other", IMPL(CTX, 3, R("rfc3852", "OtherCertificateFormat")))>>),
  CertificateSet |-> SET_OF(R("rfc3852", "CertificateChoices")),
  MessageAuthenticationCode |-> OCTET_STRING,
  UnsignedAttributes |-> CON(SET_OF(R("rfc3852", "Attribute")), SIZE(1, MAXSIZE)),
  SignatureValue |-> OCTET_STRING,
  SignerInfo |-> SEQUENCE(<<
    REQ("version", R("rfc3852", "CMSVersion")),
    REQ("sid", R("rfc3852", "SignerIdentifier")),
    REQ("digestAlgorithm", R("rfc3852", "DigestAlgorithmIdentifier")),
    OPT("signedAttrs", IMPL(CTX, 0, R("rfc3852", "SignedAttributes"))),
    REQ("signatureAlgorithm", R("rfc3852", "SignatureAlgorithmIdentifier")),
    REQ("signature", R("rfc3852", "SignatureValue")),
    OPT("unsignedAttrs", IMPL(CTX, 1, R("rfc3852", "UnsignedAttributes")))>>),
  SignerInfos |-> SET_OF(R("rfc3852", "SignerInfo")),
  SignedData |-> SEQUENCE(<<
    REQ("version", R("rfc3852", "CMSVersion")),
    REQ("digestAlgorithms", R("rfc3852", "DigestAlgorithmIdentifiers")),
    REQ("encapContentInfo", R("rfc3852", "EncapsulatedContentInfo")),
    OPT("certificates", IMPL(CTX, 0, R("rfc3852", "CertificateSet"))),
    OPT("crls", IMPL(CTX, 1, R("rfc3852", "RevocationInfoChoices"))),
    REQ("signerInfos", R("rfc3852", "SignerInfos"))>>),
  MessageAuthenticationCodeAlgorithm |-> R("rfc3280", "AlgorithmIdentifier"),
  MessageDigest |-> OCTET_STRING,
  Time |-> CHOICE(<<
    REQ("utcTime", UTCTime),
    REQ("generalTime", GeneralizedTime)>>),
  OriginatorInfo |-> SEQUENCE(<<
    OPT("certs", IMPL(CTX, 0, R("rfc3852", "CertificateSet"))),
    OPT("crls", IMPL(CTX, 1, R("rfc3852", "RevocationInfoChoices")))>>),
  AuthAttributes |-> CON(SET_OF(R("rfc3852", "Attribute")), SIZE(1, MAXSIZE)),
  AuthenticatedData |-> SEQUENCE(<<
    REQ("version", R("rfc3852", "CMSVersion")),
    OPT("originatorInfo", IMPL(CTX, 0, R("rfc3852", "OriginatorInfo"))),
    REQ("recipientInfos", R("rfc3852", "RecipientInfos")),
    REQ("macAlgorithm", R("rfc3852", "MessageAuthenticationCodeAlgorithm")),
    OPT("digestAlgorithm", IMPL(CTX, 1, R("rfc3852", "DigestAlgorithmIdentifier"))),
    REQ("encapContentInfo", R("rfc3852", "EncapsulatedContentInfo")),
    OPT("authAttrs", IMPL(CTX, 2, R("rfc3852", "AuthAttributes"))),
    REQ("mac", R("rfc3852", "MessageAuthenticationCode")),
    OPT("unauthAttrs", IMPL(CTX, 3, R("rfc3852", "UnauthAttributes")))>>),
  EnvelopedData |-> SEQUENCE(<<
    REQ("version", R("rfc3852", "CMSVersion")),
    OPT("originatorInfo", IMPL(CTX, 0, R("rfc3852", "OriginatorInfo"))),
    REQ("recipientInfos", R("rfc3852", "RecipientInfos")),
    REQ("encryptedContentInfo", R("rfc3852", "EncryptedContentInfo")),
    OPT("unprotectedAttrs", IMPL(CTX, 1, R("rfc3852", "UnprotectedAttributes")))>>),
  Countersignature |-> R("rfc3852", "SignerInfo"),
  ExtendedCertificateOrCertificate |-> CHOICE(<<
    REQ("certificate", R("rfc3280", "Certificate")),
    REQ("extendedCertificate", IMPL(CTX, 0, R("rfc3852", "ExtendedCertificate")))>>),
  SigningTime |-> R("rfc3852", "Time")]

rfc3852_Values == [
  id_signedData |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 7, 2>>)),
  id_contentType |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 3>>)),
  id_data |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 7, 1>>)),
  id_messageDigest |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 4>>)),
  id_ct_contentInfo |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 6>>)),
  id_envelopedData |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 7, 3>>)),
  id_digestedData |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 7, 5>>)),
  id_signingTime |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 5>>)),
  id_encryptedData |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 7, 6>>)),
  id_ct_authData |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 2>>)),
  id_countersignature |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 6>>))]

\* open type tables this module exports, with the table each one is
rfc3852_Tables == <<>>

\* what importing this module adds to the tables
rfc3852_Entries == <<
>>
=================================================================
