------------------------ MODULE rfc2511 ------------------------
\* http://tools.ietf.org/html/rfc2511
EXTENDS Asn1Notation

rfc2511_Imports == <<"rfc2315", "rfc2459">>

rfc2511_StarImports == <<"rfc2459">>

rfc2511_Types == [
  UTF8Pairs |-> UTF8String,
  ProtocolEncrKey |-> R("rfc2459", "SubjectPublicKeyInfo"),
  CertId |-> SEQUENCE(<<
    REQ("issuer", R("rfc2459", "GeneralName")),
    REQ("serialNumber", INTEGER)>>),
  OldCertId |-> R("rfc2511", "CertId"),
  KeyGenParameters |-> OCTET_STRING,
  EncryptedValue |-> SEQUENCE(<<
    OPT("intendedAlg", IMPL(CTX, 0, R("rfc2459", "AlgorithmIdentifier"))),
    OPT("symmAlg", IMPL(CTX, 1, R("rfc2459", "AlgorithmIdentifier"))),
    OPT("encSymmKey", IMPL(CTX, 2, BIT_STRING)),
    OPT("keyAlg", IMPL(CTX, 3, R("rfc2459", "AlgorithmIdentifier"))),
    OPT("valueHint", IMPL(CTX, 4, OCTET_STRING)),
    REQ("encValue", BIT_STRING)>>),
  EncryptedKey |-> CHOICE(<<
    REQ("encryptedValue", R("rfc2511", "EncryptedValue")),
    REQ("envelopedData", IMPL(CTX, 0, R("rfc2315", "EnvelopedData")))>>),
  PKIArchiveOptions |-> CHOICE(<<
    REQ("encryptedPrivKey", EXPL(CTX, 0, R("rfc2511", "EncryptedKey"))),
    REQ("keyGenParameters", IMPL(CTX, 1, R("rfc2511", "KeyGenParameters"))),
    REQ("archiveRemGenPrivKey", IMPL(CTX, 2, BOOLEAN_T))>>),
  SinglePubInfo |-> SEQUENCE(<<
    REQ("pubMethod", NAMED(INTEGER, <<NV("dontCare", 0), NV("x500", 1), NV("web", 2), NV("ldap", 3)>>)),
    OPT("pubLocation", R("rfc2459", "GeneralName"))>>),
  PKIPublicationInfo |-> SEQUENCE(<<
    REQ("action", NAMED(INTEGER, <<NV("dontPublish", 0), NV("pleasePublish", 1)>>)),
    OPT("pubInfos", CON(SEQUENCE_OF(R("rfc2511", "SinglePubInfo")), SIZE(1, MAXSIZE)))>>),
  Authenticator |-> UTF8String,
  RegToken |-> UTF8String,
  SubsequentMessage |-> NAMED(INTEGER, <<NV("encrCert", 0), NV("challengeResp", 1)>>),
  POPOPrivKey |-> CHOICE(<<
    REQ("thisMessage", IMPL(CTX, 0, BIT_STRING)),
    REQ("subsequentMessage", IMPL(CTX, 1, R("rfc2511", "SubsequentMessage"))),
    REQ("dhMAC", IMPL(CTX, 2, BIT_STRING))>>),
  PBMParameter |-> SEQUENCE(<<
    REQ("salt", OCTET_STRING),
    REQ("owf", R("rfc2459", "AlgorithmIdentifier")),
    REQ("iterationCount", INTEGER),
    REQ("mac", R("rfc2459", "AlgorithmIdentifier"))>>),
  PKMACValue |-> SEQUENCE(<<
    REQ("algId", R("rfc2459", "AlgorithmIdentifier")),
    REQ("value", BIT_STRING)>>),
  POPOSigningKeyInput |-> SEQUENCE(<<
    REQ("authInfo", CHOICE(<<
        REQ("sender", IMPL(CTX, 0, R("rfc2459", "GeneralName"))),
        REQ("publicKeyMAC", R("rfc2511", "PKMACValue"))>>)),
    REQ("publicKey", R("rfc2459", "SubjectPublicKeyInfo"))>>),
  POPOSigningKey |-> SEQUENCE(<<
    OPT("poposkInput", IMPL(CTX, 0, R("rfc2511", "POPOSigningKeyInput"))),
    REQ("algorithmIdentifier", R("rfc2459", "AlgorithmIdentifier")),
    REQ("signature", BIT_STRING)>>),
  ProofOfPossession |-> CHOICE(<<
    REQ("raVerified", IMPL(CTX, 0, NULL_T)),
    REQ("signature", IMPL(CTX, 1, R("rfc2511", "POPOSigningKey"))),
    REQ("keyEncipherment", EXPL(CTX, 2, R("rfc2511", "POPOPrivKey"))),
    REQ("keyAgreement", EXPL(CTX, 3, R("rfc2511", "POPOPrivKey")))>>),
  Controls |-> CON(SEQUENCE_OF(R("rfc2459", "AttributeTypeAndValue")), SIZE(1, MAXSIZE)),
  OptionalValidity |-> SEQUENCE(<<
    OPT("notBefore", IMPL(CTX, 0, R("rfc2459", "Time"))),
    OPT("notAfter", IMPL(CTX, 1, R("rfc2459", "Time")))>>),
  CertTemplate |-> SEQUENCE(<<
    OPT("version", IMPL(CTX, 0, R("rfc2459", "Version"))),
    OPT("serialNumber", IMPL(CTX, 1, INTEGER)),
    OPT("signingAlg", IMPL(CTX, 2, R("rfc2459", "AlgorithmIdentifier"))),
    OPT("issuer", EXPL(CTX, 3, R("rfc2459", "Name"))),
    OPT("validity", IMPL(CTX, 4, R("rfc2511", "OptionalValidity"))),
    OPT("subject", EXPL(CTX, 5, R("rfc2459", "Name"))),
    OPT("publicKey", IMPL(CTX, 6, R("rfc2459", "SubjectPublicKeyInfo"))),
    OPT("issuerUID", IMPL(CTX, 7, R("rfc2459", "UniqueIdentifier"))),
    OPT("subjectUID", IMPL(CTX, 8, R("rfc2459", "UniqueIdentifier"))),
    OPT("extensions", IMPL(CTX, 9, R("rfc2459", "Extensions")))>>),
  CertRequest |-> SEQUENCE(<<
    REQ("certReqId", INTEGER),
    REQ("certTemplate", R("rfc2511", "CertTemplate")),
    OPT("controls", R("rfc2511", "Controls"))>>),
  CertReq |-> R("rfc2511", "CertRequest"),
  CertReqMsg |-> SEQUENCE(<<
    REQ("certReq", R("rfc2511", "CertRequest")),
    OPT("pop", R("rfc2511", "ProofOfPossession")),
    OPT("regInfo", CON(SEQUENCE_OF(R("rfc2459", "AttributeTypeAndValue")), SIZE(1, MAXSIZE)))>>),
  CertReqMessages |-> CON(SEQUENCE_OF(R("rfc2511", "CertReqMsg")), SIZE(1, MAXSIZE))]

rfc2511_Values == [
  id_pkix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7>>)),
  id_pkip |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5>>)),
  id_regCtrl |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5, 1>>)),
  id_regCtrl_regToken |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5, 1, 1>>)),
  id_regCtrl_authenticator |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5, 1, 2>>)),
  id_regCtrl_pkiPublicationInfo |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5, 1, 3>>)),
  id_regCtrl_pkiArchiveOptions |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5, 1, 4>>)),
  id_regCtrl_oldCertID |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5, 1, 5>>)),
  id_regCtrl_protocolEncrKey |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5, 1, 6>>)),
  id_regInfo |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5, 2>>)),
  id_regInfo_utf8Pairs |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5, 2, 1>>)),
  id_regInfo_certReq |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 5, 2, 2>>))]

\* open type tables this module exports, with the table each one is
rfc2511_Tables == <<>>

\* what importing this module adds to the tables
rfc2511_Entries == <<
>>
=================================================================
