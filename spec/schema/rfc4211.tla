------------------------ MODULE rfc4211 ------------------------
\* http://www.ietf.org/rfc/rfc4211.txt
EXTENDS Asn1Notation

rfc4211_Imports == <<"rfc3280", "rfc3852">>

rfc4211_StarImports == <<>>

rfc4211_Types == [
  SinglePubInfo |-> SEQUENCE(<<
    REQ("pubMethod", NAMED(INTEGER, <<NV("dontCare", 0), NV("x500", 1), NV("web", 2), NV("ldap", 3)>>)),
    OPT("pubLocation", R("rfc3280", "GeneralName"))>>),
  UTF8Pairs |-> UTF8String,
  PKMACValue |-> SEQUENCE(<<
    REQ("algId", R("rfc3280", "AlgorithmIdentifier")),
    REQ("value", BIT_STRING)>>),
  POPOSigningKeyInput |-> SEQUENCE(<<
    REQ("authInfo", CHOICE(<<
        REQ("sender", EXPL(CTX, 0, R("rfc3280", "GeneralName"))),
        REQ("publicKeyMAC", R("rfc4211", "PKMACValue"))>>)),
    REQ("publicKey", R("rfc3280", "SubjectPublicKeyInfo"))>>),
  POPOSigningKey |-> SEQUENCE(<<
    OPT("poposkInput", IMPL(CTX, 0, R("rfc4211", "POPOSigningKeyInput"))),
    REQ("algorithmIdentifier", R("rfc3280", "AlgorithmIdentifier")),
    REQ("signature", BIT_STRING)>>),
  Attributes |-> SET_OF(R("rfc3280", "Attribute")),
  PrivateKeyInfo |-> SEQUENCE(<<
    REQ("version", INTEGER),
    REQ("privateKeyAlgorithm", R("rfc3280", "AlgorithmIdentifier")),
    REQ("privateKey", OCTET_STRING),
    OPT("attributes", IMPL(CTX, 0, R("rfc4211", "Attributes")))>>),
  EncryptedValue |-> SEQUENCE(<<
    OPT("intendedAlg", IMPL(CTX, 0, R("rfc3280", "AlgorithmIdentifier"))),
    OPT("symmAlg", IMPL(CTX, 1, R("rfc3280", "AlgorithmIdentifier"))),
    OPT("encSymmKey", IMPL(CTX, 2, BIT_STRING)),
    OPT("keyAlg", IMPL(CTX, 3, R("rfc3280", "AlgorithmIdentifier"))),
    OPT("valueHint", IMPL(CTX, 4, OCTET_STRING)),
    REQ("encValue", BIT_STRING)>>),
  EncryptedKey |-> CHOICE(<<
    REQ("encryptedValue", R("rfc4211", "EncryptedValue")),
    REQ("envelopedData", IMPL(CTX, 0, R("rfc3852", "EnvelopedData")))>>),
  KeyGenParameters |-> OCTET_STRING,
  PKIArchiveOptions |-> CHOICE(<<
    REQ("encryptedPrivKey", EXPL(CTX, 0, R("rfc4211", "EncryptedKey"))),
    REQ("keyGenParameters", IMPL(CTX, 1, R("rfc4211", "KeyGenParameters"))),
    REQ("archiveRemGenPrivKey", IMPL(CTX, 2, BOOLEAN_T))>>),
  ProtocolEncrKey |-> R("rfc3280", "SubjectPublicKeyInfo"),
  Authenticator |-> UTF8String,
  SubsequentMessage |-> NAMED(INTEGER, <<NV("encrCert", 0), NV("challengeResp", 1)>>),
  AttributeTypeAndValue |-> SEQUENCE(<<
    REQ("type", OBJECT_IDENTIFIER),
    REQ("value", ANY_T)>>),
  POPOPrivKey |-> CHOICE(<<
    REQ("thisMessage", IMPL(CTX, 0, BIT_STRING)),
    REQ("subsequentMessage", IMPL(CTX, 1, R("rfc4211", "SubsequentMessage"))),
    REQ("dhMAC", IMPL(CTX, 2, BIT_STRING)),
    REQ("agreeMAC", IMPL(CTX, 3, R("rfc4211", "PKMACValue"))),
    REQ("encryptedKey", IMPL(CTX, 4, R("rfc3852", "EnvelopedData")))>>),
  ProofOfPossession |-> CHOICE(<<
    REQ("raVerified", IMPL(CTX, 0, NULL_T)),
    REQ("signature", IMPL(CTX, 1, R("rfc4211", "POPOSigningKey"))),
    REQ("keyEncipherment", EXPL(CTX, 2, R("rfc4211", "POPOPrivKey"))),
    REQ("keyAgreement", EXPL(CTX, 3, R("rfc4211", "POPOPrivKey")))>>),
  OptionalValidity |-> SEQUENCE(<<
    OPT("notBefore", EXPL(CTX, 0, R("rfc3280", "Time"))),
    OPT("notAfter", EXPL(CTX, 1, R("rfc3280", "Time")))>>),
  CertTemplate |-> SEQUENCE(<<
    OPT("version", IMPL(CTX, 0, R("rfc3280", "Version"))),
    OPT("serialNumber", IMPL(CTX, 1, INTEGER)),
    OPT("signingAlg", IMPL(CTX, 2, R("rfc3280", "AlgorithmIdentifier"))),
    OPT("issuer", EXPL(CTX, 3, R("rfc3280", "Name"))),
    OPT("validity", IMPL(CTX, 4, R("rfc4211", "OptionalValidity"))),
    OPT("subject", EXPL(CTX, 5, R("rfc3280", "Name"))),
    OPT("publicKey", IMPL(CTX, 6, R("rfc3280", "SubjectPublicKeyInfo"))),
    OPT("issuerUID", IMPL(CTX, 7, R("rfc3280", "UniqueIdentifier"))),
    OPT("subjectUID", IMPL(CTX, 8, R("rfc3280", "UniqueIdentifier"))),
    OPT("extensions", IMPL(CTX, 9, R("rfc3280", "Extensions")))>>),
  Controls |-> CON(SEQUENCE_OF(R("rfc4211", "AttributeTypeAndValue")), SIZE(1, MAXSIZE)),
  CertRequest |-> SEQUENCE(<<
    REQ("certReqId", INTEGER),
    REQ("certTemplate", R("rfc4211", "CertTemplate")),
    OPT("controls", R("rfc4211", "Controls"))>>),
  CertReqMsg |-> SEQUENCE(<<
    REQ("certReq", R("rfc4211", "CertRequest")),
    OPT("popo", R("rfc4211", "ProofOfPossession")),
    OPT("regInfo", SEQUENCE_OF(R("rfc4211", "AttributeTypeAndValue")))>>),
  CertReqMessages |-> CON(SEQUENCE_OF(R("rfc4211", "CertReqMsg")), SIZE(1, MAXSIZE)),
  CertReq |-> R("rfc4211", "CertRequest"),
  CertId |-> SEQUENCE(<<
    REQ("issuer", R("rfc3280", "GeneralName")),
    REQ("serialNumber", INTEGER)>>),
  OldCertId |-> R("rfc4211", "CertId"),
  PKIPublicationInfo |-> SEQUENCE(<<
    REQ("action", NAMED(INTEGER, <<NV("dontPublish", 0), NV("pleasePublish", 1)>>)),
    OPT("pubInfos", SEQUENCE_OF(R("rfc4211", "SinglePubInfo")))>>),
  EncKeyWithID |-> SEQUENCE(<<
    REQ("privateKey", R("rfc4211", "PrivateKeyInfo")),
    OPT("identifier", CHOICE(<<
        REQ("string", UTF8String),
        REQ("generalName", R("rfc3280", "GeneralName"))>>))>>),
  PBMParameter |-> SEQUENCE(<<
    REQ("salt", OCTET_STRING),
    REQ("owf", R("rfc3280", "AlgorithmIdentifier")),
    REQ("iterationCount", INTEGER),
    REQ("mac", R("rfc3280", "AlgorithmIdentifier"))>>),
  RegToken |-> UTF8String]

rfc4211_Values == [
  id_pkix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7>>)),
  id_pkip |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5>>)),
  id_regCtrl |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5, 1>>)),
  id_regCtrl_authenticator |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5, 1, 2>>)),
  id_regInfo |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5, 2>>)),
  id_regInfo_certReq |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5, 2, 2>>)),
  id_regCtrl_pkiPublicationInfo |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5, 1, 3>>)),
  id_regCtrl_protocolEncrKey |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5, 1, 6>>)),
  id_regCtrl_oldCertID |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5, 1, 5>>)),
  id_smime |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16>>)),
  id_regCtrl_regToken |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5, 1, 1>>)),
  id_regCtrl_pkiArchiveOptions |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5, 1, 4>>)),
  id_regInfo_utf8Pairs |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5, 2, 1>>)),
  id_ct |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1>>)),
  id_ct_encKeyWithID |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 21>>))]

\* open type tables this module exports, with the table each one is
rfc4211_Tables == <<>>

\* what importing this module adds to the tables
rfc4211_Entries == <<
>>
=================================================================
