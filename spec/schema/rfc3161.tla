------------------------ MODULE rfc3161 ------------------------
\* https://www.rfc-editor.org/rfc/rfc3161.txt
EXTENDS Asn1Notation

rfc3161_Imports == <<"rfc4210", "rfc5280", "rfc5652">>

rfc3161_StarImports == <<>>

rfc3161_Types == [
  Extensions |-> R("rfc5280", "Extensions"),
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  GeneralName |-> R("rfc5280", "GeneralName"),
  ContentInfo |-> R("rfc5652", "ContentInfo"),
  PKIFreeText |-> R("rfc4210", "PKIFreeText"),
  Accuracy |-> SEQUENCE(<<
    OPT("seconds", INTEGER),
    OPT("millis", IMPL(CTX, 0, CON(INTEGER, RANGE(I(1), I(999))))),
    OPT("micros", IMPL(CTX, 1, CON(INTEGER, RANGE(I(1), I(999)))))>>),
  MessageImprint |-> SEQUENCE(<<
    REQ("hashAlgorithm", R("rfc5280", "AlgorithmIdentifier")),
    REQ("hashedMessage", OCTET_STRING)>>),
  PKIFailureInfo |-> NAMED(BIT_STRING, <<NV("badAlg", 0), NV("badRequest", 2), NV("badDataFormat", 5), NV("timeNotAvailable", 14), NV("unacceptedPolicy", 15), NV("unacceptedExtension", 16), NV("addInfoNotAvailable", 17), NV("systemFailure", 25)>>),
  PKIStatus |-> NAMED(INTEGER, <<NV("granted", 0), NV("grantedWithMods", 1), NV("rejection", 2), NV("waiting", 3), NV("revocationWarning", 4), NV("revocationNotification", 5)>>),
  PKIStatusInfo |-> SEQUENCE(<<
    REQ("status", R("rfc3161", "PKIStatus")),
    OPT("statusString", R("rfc4210", "PKIFreeText")),
    OPT("failInfo", R("rfc3161", "PKIFailureInfo"))>>),
  TSAPolicyId |-> OBJECT_IDENTIFIER,
  TSTInfo |-> SEQUENCE(<<
    REQ("version", NAMED(INTEGER, <<NV("v1", 1)>>)),
    REQ("policy", R("rfc3161", "TSAPolicyId")),
    REQ("messageImprint", R("rfc3161", "MessageImprint")),
    REQ("serialNumber", INTEGER),
    REQ("genTime", GeneralizedTime),
    OPT("accuracy", R("rfc3161", "Accuracy")),
    DFLT("ordering", BOOLEAN_T, VB(FALSE)),
    OPT("nonce", INTEGER),
    OPT("tsa", IMPL(CTX, 0, R("rfc5280", "GeneralName"))),
    OPT("extensions", IMPL(CTX, 1, R("rfc5280", "Extensions")))>>),
  TimeStampReq |-> SEQUENCE(<<
    REQ("version", NAMED(INTEGER, <<NV("v1", 1)>>)),
    REQ("messageImprint", R("rfc3161", "MessageImprint")),
    OPT("reqPolicy", R("rfc3161", "TSAPolicyId")),
    OPT("nonce", INTEGER),
    DFLT("certReq", BOOLEAN_T, VB(FALSE)),
    OPT("extensions", IMPL(CTX, 0, R("rfc5280", "Extensions")))>>),
  TimeStampToken |-> R("rfc5652", "ContentInfo"),
  TimeStampResp |-> SEQUENCE(<<
    REQ("status", R("rfc3161", "PKIStatusInfo")),
    OPT("timeStampToken", R("rfc3161", "TimeStampToken"))>>)]

rfc3161_Values == [
  id_ct_TSTInfo |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 4>>))]

\* open type tables this module exports, with the table each one is
rfc3161_Tables == <<>>

\* what importing this module adds to the tables
rfc3161_Entries == <<
>>
=================================================================
