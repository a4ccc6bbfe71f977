------------------------ MODULE rfc4210 ------------------------
EXTENDS Asn1Notation

rfc4210_Imports == <<"rfc2314", "rfc2459", "rfc2511">>

rfc4210_StarImports == <<>>

rfc4210_Types == [
  KeyIdentifier |-> OCTET_STRING,
  CMPCertificate |-> R("rfc2459", "Certificate"),
  OOBCert |-> R("rfc4210", "CMPCertificate"),
  CertAnnContent |-> R("rfc4210", "CMPCertificate"),
  PKIFreeText |-> CON(SEQUENCE_OF(UTF8String), SIZE(1, MAXSIZE)),
  PollRepContent |-> SEQUENCE_OF(SEQUENCE(<<
      REQ("certReqId", INTEGER),
      REQ("checkAfter", INTEGER),
      OPT("reason", R("rfc4210", "PKIFreeText"))>>)),
  PollReqContent |-> SEQUENCE_OF(SEQUENCE(<<
      REQ("certReqId", INTEGER)>>)),
  InfoTypeAndValue |-> SEQUENCE(<<
    REQ("infoType", OBJECT_IDENTIFIER),
    OPT("infoValue", ANY_T)>>),
  GenRepContent |-> SEQUENCE_OF(R("rfc4210", "InfoTypeAndValue")),
  GenMsgContent |-> SEQUENCE_OF(R("rfc4210", "InfoTypeAndValue")),
  PKIConfirmContent |-> NULL_T,
  CRLAnnContent |-> SEQUENCE_OF(R("rfc2459", "CertificateList")),
  CAKeyUpdAnnContent |-> SEQUENCE(<<
    REQ("oldWithNew", R("rfc4210", "CMPCertificate")),
    REQ("newWithOld", R("rfc4210", "CMPCertificate")),
    REQ("newWithNew", R("rfc4210", "CMPCertificate"))>>),
  RevDetails |-> SEQUENCE(<<
    REQ("certDetails", R("rfc2511", "CertTemplate")),
    OPT("crlEntryDetails", R("rfc2459", "Extensions"))>>),
  RevReqContent |-> SEQUENCE_OF(R("rfc4210", "RevDetails")),
  CertOrEncCert |-> CHOICE(<<
    REQ("certificate", EXPL(CTX, 0, R("rfc4210", "CMPCertificate"))),
    REQ("encryptedCert", EXPL(CTX, 1, R("rfc2511", "EncryptedValue")))>>),
  CertifiedKeyPair |-> SEQUENCE(<<
    REQ("certOrEncCert", R("rfc4210", "CertOrEncCert")),
    OPT("privateKey", EXPL(CTX, 0, R("rfc2511", "EncryptedValue"))),
    OPT("publicationInfo", EXPL(CTX, 1, R("rfc2511", "PKIPublicationInfo")))>>),
  POPODecKeyRespContent |-> SEQUENCE_OF(INTEGER),
  Challenge |-> SEQUENCE(<<
    OPT("owf", R("rfc2459", "AlgorithmIdentifier")),
    REQ("witness", OCTET_STRING),
    REQ("challenge", OCTET_STRING)>>),
  PKIStatus |-> NAMED(INTEGER, <<NV("accepted", 0), NV("grantedWithMods", 1), NV("rejection", 2), NV("waiting", 3), NV("revocationWarning", 4), NV("revocationNotification", 5), NV("keyUpdateWarning", 6)>>),
  PKIFailureInfo |-> NAMED(BIT_STRING, <<NV("badAlg", 0), NV("badMessageCheck", 1), NV("badRequest", 2), NV("badTime", 3), NV("badCertId", 4), NV("badDataFormat", 5), NV("wrongAuthority", 6), NV("incorrectData", 7), NV("missingTimeStamp", 8), NV("badPOP", 9), NV("certRevoked", 10), NV("certConfirmed", 11), NV("wrongIntegrity", 12), NV("badRecipientNonce", 13), NV("timeNotAvailable", 14), NV("unacceptedPolicy", 15), NV("unacceptedExtension", 16), NV("addInfoNotAvailable", 17), NV("badSenderNonce", 18), NV("badCertTemplate", 19), NV("signerNotTrusted", 20), NV("transactionIdInUse", 21), NV("unsupportedVersion", 22), NV("notAuthorized", 23), NV("systemUnavail", 24), NV("systemFailure", 25), NV("duplicateCertReq", 26)>>),
  PKIStatusInfo |-> SEQUENCE(<<
    REQ("status", R("rfc4210", "PKIStatus")),
    OPT("statusString", R("rfc4210", "PKIFreeText")),
    OPT("failInfo", R("rfc4210", "PKIFailureInfo"))>>),
  ErrorMsgContent |-> SEQUENCE(<<
    REQ("pKIStatusInfo", R("rfc4210", "PKIStatusInfo")),
    OPT("errorCode", INTEGER),
    OPT("errorDetails", R("rfc4210", "PKIFreeText"))>>),
  CertStatus |-> SEQUENCE(<<
    REQ("certHash", OCTET_STRING),
    REQ("certReqId", INTEGER),
    OPT("statusInfo", R("rfc4210", "PKIStatusInfo"))>>),
  CertConfirmContent |-> SEQUENCE_OF(R("rfc4210", "CertStatus")),
  RevAnnContent |-> SEQUENCE(<<
    REQ("status", R("rfc4210", "PKIStatus")),
    REQ("certId", R("rfc2511", "CertId")),
    REQ("willBeRevokedAt", GeneralizedTime),
    REQ("badSinceDate", GeneralizedTime),
    OPT("crlDetails", R("rfc2459", "Extensions"))>>),
  RevRepContent |-> SEQUENCE(<<
    REQ("status", CON(SEQUENCE_OF(R("rfc4210", "PKIStatusInfo")), SIZE(1, MAXSIZE))),
    OPT("revCerts", EXPL(CTX, 0, CON(SEQUENCE_OF(R("rfc2511", "CertId")), SIZE(1, MAXSIZE)))),
    OPT("crls", EXPL(CTX, 1, CON(SEQUENCE_OF(R("rfc2459", "CertificateList")), SIZE(1, MAXSIZE))))>>),
  KeyRecRepContent |-> SEQUENCE(<<
    REQ("status", R("rfc4210", "PKIStatusInfo")),
    OPT("newSigCert", EXPL(CTX, 0, R("rfc4210", "CMPCertificate"))),
    OPT("caCerts", EXPL(CTX, 1, CON(SEQUENCE_OF(R("rfc4210", "CMPCertificate")), SIZE(1, MAXSIZE)))),
    OPT("keyPairHist", EXPL(CTX, 2, CON(SEQUENCE_OF(R("rfc4210", "CertifiedKeyPair")), SIZE(1, MAXSIZE))))>>),
  CertResponse |-> SEQUENCE(<<
    REQ("certReqId", INTEGER),
    REQ("status", R("rfc4210", "PKIStatusInfo")),
    OPT("certifiedKeyPair", R("rfc4210", "CertifiedKeyPair")),
    OPT("rspInfo", OCTET_STRING)>>),
  CertRepMessage |-> SEQUENCE(<<
    OPT("caPubs", EXPL(CTX, 1, CON(SEQUENCE_OF(R("rfc4210", "CMPCertificate")), SIZE(1, MAXSIZE)))),
    REQ("response", SEQUENCE_OF(R("rfc4210", "CertResponse")))>>),
  POPODecKeyChallContent |-> SEQUENCE_OF(R("rfc4210", "Challenge")),
  OOBCertHash |-> SEQUENCE(<<
    OPT("hashAlg", EXPL(CTX, 0, R("rfc2459", "AlgorithmIdentifier"))),
    OPT("certId", EXPL(CTX, 1, R("rfc2511", "CertId"))),
    REQ("hashVal", BIT_STRING)>>),
  NestedMessageContent |-> SEQUENCE_OF(ANY_T),
  DHBMParameter |-> SEQUENCE(<<
    REQ("owf", R("rfc2459", "AlgorithmIdentifier")),
    REQ("mac", R("rfc2459", "AlgorithmIdentifier"))>>),
  PBMParameter |-> SEQUENCE(<<
    REQ("salt", CON(OCTET_STRING, SIZE(0, 128))),
    REQ("owf", R("rfc2459", "AlgorithmIdentifier")),
    REQ("iterationCount", INTEGER),
    REQ("mac", R("rfc2459", "AlgorithmIdentifier"))>>),
  PKIProtection |-> BIT_STRING,
  PKIBody |-> CHOICE(<<
    REQ("ir", EXPL(CTX, 0, R("rfc2511", "CertReqMessages"))),
    REQ("ip", EXPL(CTX, 1, R("rfc4210", "CertRepMessage"))),
    REQ("cr", EXPL(CTX, 2, R("rfc2511", "CertReqMessages"))),
    REQ("cp", EXPL(CTX, 3, R("rfc4210", "CertRepMessage"))),
    REQ("p10cr", EXPL(CTX, 4, R("rfc2314", "CertificationRequest"))),
    REQ("popdecc", EXPL(CTX, 5, R("rfc4210", "POPODecKeyChallContent"))),
    REQ("popdecr", EXPL(CTX, 6, R("rfc4210", "POPODecKeyRespContent"))),
    REQ("kur", EXPL(CTX, 7, R("rfc2511", "CertReqMessages"))),
    REQ("kup", EXPL(CTX, 8, R("rfc4210", "CertRepMessage"))),
    REQ("krr", EXPL(CTX, 9, R("rfc2511", "CertReqMessages"))),
    REQ("krp", EXPL(CTX, 10, R("rfc4210", "KeyRecRepContent"))),
    REQ("rr", EXPL(CTX, 11, R("rfc4210", "RevReqContent"))),
    REQ("rp", EXPL(CTX, 12, R("rfc4210", "RevRepContent"))),
    REQ("ccr", EXPL(CTX, 13, R("rfc2511", "CertReqMessages"))),
    REQ("ccp", EXPL(CTX, 14, R("rfc4210", "CertRepMessage"))),
    REQ("ckuann", EXPL(CTX, 15, R("rfc4210", "CAKeyUpdAnnContent"))),
    REQ("cann", EXPL(CTX, 16, R("rfc4210", "CertAnnContent"))),
    REQ("rann", EXPL(CTX, 17, R("rfc4210", "RevAnnContent"))),
    REQ("crlann", EXPL(CTX, 18, R("rfc4210", "CRLAnnContent"))),
    REQ("pkiconf", EXPL(CTX, 19, R("rfc4210", "PKIConfirmContent"))),
    REQ("nested", EXPL(CTX, 20, R("rfc4210", "NestedMessageContent"))),
    REQ("genm", EXPL(CTX, 21, R("rfc4210", "GenMsgContent"))),
    REQ("gen", EXPL(CTX, 22, R("rfc4210", "GenRepContent"))),
    REQ("error", EXPL(CTX, 23, R("rfc4210", "ErrorMsgContent"))),
    REQ("certConf", EXPL(CTX, 24, R("rfc4210", "CertConfirmContent"))),
    REQ("pollReq", EXPL(CTX, 25, R("rfc4210", "PollReqContent"))),
    REQ("pollRep", EXPL(CTX, 26, R("rfc4210", "PollRepContent")))>>),
  PKIHeader |-> SEQUENCE(<<
    REQ("pvno", NAMED(INTEGER, <<NV("cmp1999", 1), NV("cmp2000", 2)>>)),
    REQ("sender", R("rfc2459", "GeneralName")),
    REQ("recipient", R("rfc2459", "GeneralName")),
    OPT("messageTime", EXPL(CTX, 0, GeneralizedTime)),
    OPT("protectionAlg", EXPL(CTX, 1, R("rfc2459", "AlgorithmIdentifier"))),
    OPT("senderKID", EXPL(CTX, 2, R("rfc2459", "KeyIdentifier"))),
    OPT("recipKID", EXPL(CTX, 3, R("rfc2459", "KeyIdentifier"))),
    OPT("transactionID", EXPL(CTX, 4, OCTET_STRING)),
    OPT("senderNonce", EXPL(CTX, 5, OCTET_STRING)),
    OPT("recipNonce", EXPL(CTX, 6, OCTET_STRING)),
    OPT("freeText", EXPL(CTX, 7, R("rfc4210", "PKIFreeText"))),
    OPT("generalInfo", EXPL(CTX, 8, CON(SEQUENCE_OF(R("rfc4210", "InfoTypeAndValue")), SIZE(1, MAXSIZE))))>>),
  ProtectedPart |-> SEQUENCE(<<
    REQ("header", R("rfc4210", "PKIHeader")),
    REQ("infoValue", R("rfc4210", "PKIBody"))>>),
  PKIMessage |-> SEQUENCE(<<
    REQ("header", R("rfc4210", "PKIHeader")),
    REQ("body", R("rfc4210", "PKIBody")),
    OPT("protection", EXPL(CTX, 0, R("rfc4210", "PKIProtection"))),
    OPT("extraCerts", EXPL(CTX, 1, CON(SEQUENCE_OF(R("rfc4210", "CMPCertificate")), SIZE(1, MAXSIZE))))>>),
  PKIMessages |-> CON(SEQUENCE_OF(R("rfc4210", "PKIMessage")), SIZE(1, MAXSIZE))]

rfc4210_Values == [
  id_DHBasedMac |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113533, 7, 66, 30>>)),
  id_PasswordBasedMac |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113533, 7, 66, 13>>)),
  nestedMessageContent |-> CONST(EXPL(CTX, 20, R("rfc4210", "NestedMessageContent")), VOF(<<>>))]

\* open type tables this module exports, with the table each one is
rfc4210_Tables == <<>>

\* what importing this module adds to the tables
rfc4210_Entries == <<
>>
=================================================================
