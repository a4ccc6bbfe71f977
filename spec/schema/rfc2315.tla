------------------------ MODULE rfc2315 ------------------------
\* https://opensource.apple.com/source/Security/Security-55179.1/libsecurity_asn1/asn1/pkcs7.asn.auto.html
EXTENDS Asn1Notation

rfc2315_Imports == <<"rfc2459">>

rfc2315_StarImports == <<"rfc2459">>

rfc2315_Types == [
  Attribute |-> SEQUENCE(<<
    REQ("type", R("rfc2459", "AttributeType")),
    REQ("values", SET_OF(R("rfc2459", "AttributeValue")))>>),
  Version |-> INTEGER,
  AttributeValueAssertion |-> SEQUENCE(<<
    REQ("attributeType", R("rfc2459", "AttributeType")),
    OPEN("attributeType", "rfc2459", "certificateAttributesMap", REQ("attributeValue", R("rfc2459", "AttributeValue")))>>),
  ContentType |-> OBJECT_IDENTIFIER,
  ContentEncryptionAlgorithmIdentifier |-> R("rfc2459", "AlgorithmIdentifier"),
  EncryptedContent |-> OCTET_STRING,
  EncryptedContentInfo |-> SEQUENCE(<<
    REQ("contentType", R("rfc2315", "ContentType")),
    REQ("contentEncryptionAlgorithm", R("rfc2315", "ContentEncryptionAlgorithmIdentifier")),
    OPT("encryptedContent", IMPL(CTX, 0, R("rfc2315", "EncryptedContent")))>>),
  EncryptedData |-> SEQUENCE(<<
    REQ("version", R("rfc2315", "Version")),
    REQ("encryptedContentInfo", R("rfc2315", "EncryptedContentInfo"))>>),
  DigestAlgorithmIdentifier |-> R("rfc2459", "AlgorithmIdentifier"),
  DigestAlgorithmIdentifiers |-> SET_OF(R("rfc2315", "DigestAlgorithmIdentifier")),
  Digest |-> OCTET_STRING,
  ContentInfo |-> SEQUENCE(<<
    REQ("contentType", R("rfc2315", "ContentType")),
    OPEN("contentType", "rfc2315", "contentTypeMap", OPT("content", EXPL(CTX, 0, ANY_T)))>>),
  DigestedData |-> SEQUENCE(<<
    REQ("version", R("rfc2315", "Version")),
    REQ("digestAlgorithm", R("rfc2315", "DigestAlgorithmIdentifier")),
    REQ("contentInfo", R("rfc2315", "ContentInfo")),
    REQ("digest", R("rfc2315", "Digest"))>>),
  IssuerAndSerialNumber |-> SEQUENCE(<<
    REQ("issuer", R("rfc2459", "Name")),
    REQ("serialNumber", R("rfc2459", "CertificateSerialNumber"))>>),
  KeyEncryptionAlgorithmIdentifier |-> R("rfc2459", "AlgorithmIdentifier"),
  EncryptedKey |-> OCTET_STRING,
  RecipientInfo |-> SEQUENCE(<<
    REQ("version", R("rfc2315", "Version")),
    REQ("issuerAndSerialNumber", R("rfc2315", "IssuerAndSerialNumber")),
    REQ("keyEncryptionAlgorithm", R("rfc2315", "KeyEncryptionAlgorithmIdentifier")),
    REQ("encryptedKey", R("rfc2315", "EncryptedKey"))>>),
  RecipientInfos |-> SET_OF(R("rfc2315", "RecipientInfo")),
  Attributes |-> SET_OF(R("rfc2315", "Attribute")),
  ExtendedCertificateInfo |-> SEQUENCE(<<
    REQ("version", R("rfc2315", "Version")),
    REQ("certificate", R("rfc2459", "Certificate")),
    REQ("attributes", R("rfc2315", "Attributes"))>>),
  SignatureAlgorithmIdentifier |-> R("rfc2459", "AlgorithmIdentifier"),
  Signature |-> BIT_STRING,
  ExtendedCertificate |-> SEQUENCE(<<
    REQ("extendedCertificateInfo", R("rfc2315", "ExtendedCertificateInfo")),
    REQ("signatureAlgorithm", R("rfc2315", "SignatureAlgorithmIdentifier")),
    REQ("signature", R("rfc2315", "Signature"))>>),
  ExtendedCertificateOrCertificate |-> CHOICE(<<
    REQ("certificate", R("rfc2459", "Certificate")),
    REQ("extendedCertificate", IMPL(CTX, 0, R("rfc2315", "ExtendedCertificate")))>>),
  ExtendedCertificatesAndCertificates |-> SET_OF(R("rfc2315", "ExtendedCertificateOrCertificate")),
  SerialNumber |-> INTEGER,
  CRLEntry |-> SEQUENCE(<<
    REQ("userCertificate", R("rfc2315", "SerialNumber")),
    REQ("revocationDate", UTCTime)>>),
  TBSCertificateRevocationList |-> SEQUENCE(<<
    REQ("signature", R("rfc2459", "AlgorithmIdentifier")),
    REQ("issuer", R("rfc2459", "Name")),
    REQ("lastUpdate", UTCTime),
    REQ("nextUpdate", UTCTime),
    OPT("revokedCertificates", SEQUENCE_OF(R("rfc2315", "CRLEntry")))>>),
  CertificateRevocationList |-> SEQUENCE(<<
    REQ("tbsCertificateRevocationList", R("rfc2315", "TBSCertificateRevocationList")),
    REQ("signatureAlgorithm", R("rfc2459", "AlgorithmIdentifier")),
    REQ("signature", BIT_STRING)>>),
  CertificateRevocationLists |-> SET_OF(R("rfc2315", "CertificateRevocationList")),
  DigestEncryptionAlgorithmIdentifier |-> R("rfc2459", "AlgorithmIdentifier"),
  EncryptedDigest |-> OCTET_STRING,
  SignerInfo |-> SEQUENCE(<<
    REQ("version", R("rfc2315", "Version")),
    REQ("issuerAndSerialNumber", R("rfc2315", "IssuerAndSerialNumber")),
    REQ("digestAlgorithm", R("rfc2315", "DigestAlgorithmIdentifier")),
    OPT("authenticatedAttributes", IMPL(CTX, 0, R("rfc2315", "Attributes"))),
    REQ("digestEncryptionAlgorithm", R("rfc2315", "DigestEncryptionAlgorithmIdentifier")),
    REQ("encryptedDigest", R("rfc2315", "EncryptedDigest")),
    OPT("unauthenticatedAttributes", IMPL(CTX, 1, R("rfc2315", "Attributes")))>>),
  SignerInfos |-> SET_OF(R("rfc2315", "SignerInfo")),
  SignedAndEnvelopedData |-> SEQUENCE(<<
    REQ("version", R("rfc2315", "Version")),
    REQ("recipientInfos", R("rfc2315", "RecipientInfos")),
    REQ("digestAlgorithms", R("rfc2315", "DigestAlgorithmIdentifiers")),
    REQ("encryptedContentInfo", R("rfc2315", "EncryptedContentInfo")),
    OPT("certificates", IMPL(CTX, 0, R("rfc2315", "ExtendedCertificatesAndCertificates"))),
    OPT("crls", IMPL(CTX, 1, R("rfc2315", "CertificateRevocationLists"))),
    REQ("signerInfos", R("rfc2315", "SignerInfos"))>>),
  EnvelopedData |-> SEQUENCE(<<
    REQ("version", R("rfc2315", "Version")),
    REQ("recipientInfos", R("rfc2315", "RecipientInfos")),
    REQ("encryptedContentInfo", R("rfc2315", "EncryptedContentInfo"))>>),
  DigestInfo |-> SEQUENCE(<<
    REQ("digestAlgorithm", R("rfc2315", "DigestAlgorithmIdentifier")),
    REQ("digest", R("rfc2315", "Digest"))>>),
  SignedData |-> SEQUENCE(<<
    REQ("version", R("rfc2315", "Version")),
    REQ("digestAlgorithms", R("rfc2315", "DigestAlgorithmIdentifiers")),
    REQ("contentInfo", R("rfc2315", "ContentInfo")),
    OPT("certificates", IMPL(CTX, 0, R("rfc2315", "ExtendedCertificatesAndCertificates"))),
    OPT("crls", IMPL(CTX, 1, R("rfc2315", "CertificateRevocationLists"))),
    REQ("signerInfos", R("rfc2315", "SignerInfos"))>>),
  Data |-> OCTET_STRING]

rfc2315_Values == [
  pkcs_7 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 7>>)),
  data |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 7, 1>>)),
  signedData |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 7, 2>>)),
  envelopedData |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 7, 3>>)),
  signedAndEnvelopedData |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 7, 4>>)),
  digestedData |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 7, 5>>)),
  encryptedData |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 7, 6>>))]

\* open type tables this module exports, with the table each one is
rfc2315_Tables == <<<<"contentTypeMap", "rfc2315", "contentTypeMap">>>>

\* what importing this module adds to the tables
rfc2315_Entries == <<
  ENTRY("rfc2315", "contentTypeMap", VOID(<<1, 2, 840, 113549, 1, 7, 1>>), R("rfc2315", "Data")),
  ENTRY("rfc2315", "contentTypeMap", VOID(<<1, 2, 840, 113549, 1, 7, 2>>), R("rfc2315", "SignedData")),
  ENTRY("rfc2315", "contentTypeMap", VOID(<<1, 2, 840, 113549, 1, 7, 3>>), R("rfc2315", "EnvelopedData")),
  ENTRY("rfc2315", "contentTypeMap", VOID(<<1, 2, 840, 113549, 1, 7, 4>>), R("rfc2315", "SignedAndEnvelopedData")),
  ENTRY("rfc2315", "contentTypeMap", VOID(<<1, 2, 840, 113549, 1, 7, 5>>), R("rfc2315", "DigestedData")),
  ENTRY("rfc2315", "contentTypeMap", VOID(<<1, 2, 840, 113549, 1, 7, 6>>), R("rfc2315", "EncryptedData"))>>
=================================================================
