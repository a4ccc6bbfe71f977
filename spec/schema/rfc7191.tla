------------------------ MODULE rfc7191 ------------------------
\* https://www.rfc-editor.org/rfc/rfc7191.txt
EXTENDS Asn1Notation

rfc7191_Imports == <<"rfc5280", "rfc5652">>

rfc7191_StarImports == <<>>

rfc7191_Types == [
  DistinguishedName |-> R("rfc5280", "DistinguishedName"),
  AttributeValue |-> ANY_T,
  AttributeValues |-> CON(SET_OF(R("rfc7191", "AttributeValue")), SIZE(1, 1)),
  SingleAttribute |-> SEQUENCE(<<
    REQ("attrType", OBJECT_IDENTIFIER),
    OPEN("attrType", "rfc5652", "cmsAttributesMap", REQ("attrValues", R("rfc7191", "AttributeValues")))>>),
  SIREntityNameType |-> OBJECT_IDENTIFIER,
  SIREntityNameValue |-> ANY_T,
  SIREntityName |-> SEQUENCE(<<
    REQ("sirenType", R("rfc7191", "SIREntityNameType")),
    REQ("sirenValue", OCTET_STRING)>>),
  SIREntityNames |-> CON(SEQUENCE_OF(R("rfc7191", "SIREntityName")), SIZE(1, MAXSIZE)),
  siren_dn |-> R("rfc7191", "SIREntityName"),
  EnumeratedErrorCode |-> NAMED(ENUMERATED, <<NV("decodeFailure", 1), NV("badContentInfo", 2), NV("badSignedData", 3), NV("badEncapContent", 4), NV("badCertificate", 5), NV("badSignerInfo", 6), NV("badSignedAttrs", 7), NV("badUnsignedAttrs", 8), NV("missingContent", 9), NV("noTrustAnchor", 10), NV("notAuthorized", 11), NV("badDigestAlgorithm", 12), NV("badSignatureAlgorithm", 13), NV("unsupportedKeySize", 14), NV("unsupportedParameters", 15), NV("signatureFailure", 16), NV("insufficientMemory", 17), NV("incorrectTarget", 23), NV("missingSignature", 29), NV("resourcesBusy", 30), NV("versionNumberMismatch", 31), NV("revokedCertificate", 33), NV("ambiguousDecrypt", 60), NV("noDecryptKey", 61), NV("badEncryptedData", 62), NV("badEnvelopedData", 63), NV("badAuthenticatedData", 64), NV("badAuthEnvelopedData", 65), NV("badKeyAgreeRecipientInfo", 66), NV("badKEKRecipientInfo", 67), NV("badEncryptContent", 68), NV("badEncryptAlgorithm", 69), NV("missingCiphertext", 70), NV("decryptFailure", 71), NV("badMACAlgorithm", 72), NV("badAuthAttrs", 73), NV("badUnauthAttrs", 74), NV("invalidMAC", 75), NV("mismatchedDigestAlg", 76), NV("missingCertificate", 77), NV("tooManySigners", 78), NV("missingSignedAttributes", 79), NV("derEncodingNotUsed", 80), NV("missingContentHints", 81), NV("invalidAttributeLocation", 82), NV("badMessageDigest", 83), NV("badKeyPackage", 84), NV("badAttributes", 85), NV("attributeComparisonFailure", 86), NV("unsupportedSymmetricKeyPackage", 87), NV("unsupportedAsymmetricKeyPackage", 88), NV("constraintViolation", 89), NV("ambiguousDefaultValue", 90), NV("noMatchingRecipientInfo", 91), NV("unsupportedKeyWrapAlgorithm", 92), NV("badKeyTransRecipientInfo", 93), NV("other", 127)>>),
  ErrorCodeChoice |-> CHOICE(<<
    REQ("enum", R("rfc7191", "EnumeratedErrorCode")),
    REQ("oid", OBJECT_IDENTIFIER)>>),
  KeyPkgID |-> OCTET_STRING,
  KeyPkgIdentifier |-> CHOICE(<<
    REQ("pkgID", R("rfc7191", "KeyPkgID")),
    REQ("attribute", R("rfc7191", "SingleAttribute"))>>),
  KeyPkgVersion |-> CON(NAMED(INTEGER, <<NV("v1", 1), NV("v2", 2)>>), RANGE(I(1), I(65535))),
  KeyPackageError |-> SEQUENCE(<<
    DFLT("version", R("rfc7191", "KeyPkgVersion"), VI(2)),
    OPT("errorOf", EXPL(CTX, 0, R("rfc7191", "KeyPkgIdentifier"))),
    REQ("errorBy", R("rfc7191", "SIREntityName")),
    REQ("errorCode", R("rfc7191", "ErrorCodeChoice"))>>),
  KeyPackageReceipt |-> SEQUENCE(<<
    DFLT("version", R("rfc7191", "KeyPkgVersion"), VI(2)),
    REQ("receiptOf", R("rfc7191", "KeyPkgIdentifier")),
    REQ("receivedBy", R("rfc7191", "SIREntityName"))>>),
  KeyPkgReceiptReq |-> SEQUENCE(<<
    DFLT("encryptReceipt", BOOLEAN_T, VB(FALSE)),
    OPT("receiptsFrom", IMPL(CTX, 0, R("rfc7191", "SIREntityNames"))),
    REQ("receiptsTo", R("rfc7191", "SIREntityNames"))>>),
  KeyPkgIdentifierAndReceiptReq |-> SEQUENCE(<<
    REQ("pkgID", R("rfc7191", "KeyPkgID")),
    OPT("receiptReq", R("rfc7191", "KeyPkgReceiptReq"))>>)]

rfc7191_Values == [
  id_dn |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 16, 0>>)),
  id_ct_KP_keyPackageError |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 78, 6>>)),
  id_ct_KP_keyPackageReceipt |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 78, 3>>)),
  id_aa_KP_keyPkgIdAndReceiptReq |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 65>>))]

\* open type tables this module exports, with the table each one is
rfc7191_Tables == <<>>

\* what importing this module adds to the tables
rfc7191_Entries == <<
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 78, 6>>), R("rfc7191", "KeyPackageError")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 78, 3>>), R("rfc7191", "KeyPackageReceipt")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 65>>), R("rfc7191", "KeyPkgIdentifierAndReceiptReq"))>>
=================================================================
