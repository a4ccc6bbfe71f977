------------------------ MODULE rfc2560 ------------------------
EXTENDS Asn1Notation

rfc2560_Imports == <<"rfc2459">>

rfc2560_StarImports == <<>>

rfc2560_Types == [
  CRLReason |-> NAMED(ENUMERATED, <<NV("unspecified", 0), NV("keyCompromise", 1), NV("cACompromise", 2), NV("affiliationChanged", 3), NV("superseded", 4), NV("cessationOfOperation", 5), NV("certificateHold", 6), NV("removeFromCRL", 8), NV("privilegeWithdrawn", 9), NV("aACompromise", 10)>>),
  GeneralName |-> R("rfc2459", "GeneralName"),
  AcceptableResponses |-> SEQUENCE_OF(OBJECT_IDENTIFIER),
  ArchiveCutoff |-> GeneralizedTime,
  UnknownInfo |-> NULL_T,
  RevokedInfo |-> SEQUENCE(<<
    REQ("revocationTime", GeneralizedTime),
    OPT("revocationReason", EXPL(CTX, 0, R("rfc2560", "CRLReason")))>>),
  CertID |-> SEQUENCE(<<
    REQ("hashAlgorithm", R("rfc2459", "AlgorithmIdentifier")),
    REQ("issuerNameHash", OCTET_STRING),
    REQ("issuerKeyHash", OCTET_STRING),
    REQ("serialNumber", R("rfc2459", "CertificateSerialNumber"))>>),
  CertStatus |-> CHOICE(<<
    REQ("good", IMPL(CTX, 0, NULL_T)),
    REQ("revoked", IMPL(CTX, 1, R("rfc2560", "RevokedInfo"))),
    REQ("unknown", IMPL(CTX, 2, R("rfc2560", "UnknownInfo")))>>),
  SingleResponse |-> SEQUENCE(<<
    REQ("certID", R("rfc2560", "CertID")),
    REQ("certStatus", R("rfc2560", "CertStatus")),
    REQ("thisUpdate", GeneralizedTime),
    OPT("nextUpdate", EXPL(CTX, 0, GeneralizedTime)),
    OPT("singleExtensions", EXPL(CTX, 1, R("rfc2459", "Extensions")))>>),
  KeyHash |-> OCTET_STRING,
  ResponderID |-> CHOICE(<<
    REQ("byName", EXPL(CTX, 1, R("rfc2459", "Name"))),
    REQ("byKey", EXPL(CTX, 2, R("rfc2560", "KeyHash")))>>),
  Version |-> NAMED(INTEGER, <<NV("v1", 0)>>),
  ResponseData |-> SEQUENCE(<<
    DFLT("version", EXPL(CTX, 0, R("rfc2560", "Version")), VI(0)),
    REQ("responderID", R("rfc2560", "ResponderID")),
    REQ("producedAt", GeneralizedTime),
    REQ("responses", SEQUENCE_OF(R("rfc2560", "SingleResponse"))),
    OPT("responseExtensions", EXPL(CTX, 1, R("rfc2459", "Extensions")))>>),
  BasicOCSPResponse |-> SEQUENCE(<<
    REQ("tbsResponseData", R("rfc2560", "ResponseData")),
    REQ("signatureAlgorithm", R("rfc2459", "AlgorithmIdentifier")),
    REQ("signature", BIT_STRING),
    OPT("certs", EXPL(CTX, 0, SEQUENCE_OF(R("rfc2459", "Certificate"))))>>),
  ResponseBytes |-> SEQUENCE(<<
    REQ("responseType", OBJECT_IDENTIFIER),
    REQ("response", OCTET_STRING)>>),
  OCSPResponseStatus |-> NAMED(ENUMERATED, <<NV("successful", 0), NV("malformedRequest", 1), NV("internalError", 2), NV("tryLater", 3), NV("undefinedStatus", 4), NV("sigRequired", 5), NV("unauthorized", 6)>>),
  OCSPResponse |-> SEQUENCE(<<
    REQ("responseStatus", R("rfc2560", "OCSPResponseStatus")),
    OPT("responseBytes", EXPL(CTX, 0, R("rfc2560", "ResponseBytes")))>>),
  Request |-> SEQUENCE(<<
    REQ("reqCert", R("rfc2560", "CertID")),
    OPT("singleRequestExtensions", EXPL(CTX, 0, R("rfc2459", "Extensions")))>>),
  Signature |-> SEQUENCE(<<
    REQ("signatureAlgorithm", R("rfc2459", "AlgorithmIdentifier")),
    REQ("signature", BIT_STRING),
    OPT("certs", EXPL(CTX, 0, SEQUENCE_OF(R("rfc2459", "Certificate"))))>>),
  TBSRequest |-> SEQUENCE(<<
    DFLT("version", EXPL(CTX, 0, R("rfc2560", "Version")), VI(0)),
    OPT("requestorName", EXPL(CTX, 1, R("rfc2459", "GeneralName"))),
    REQ("requestList", SEQUENCE_OF(R("rfc2560", "Request"))),
    OPT("requestExtensions", EXPL(CTX, 2, R("rfc2459", "Extensions")))>>),
  OCSPRequest |-> SEQUENCE(<<
    REQ("tbsRequest", R("rfc2560", "TBSRequest")),
    OPT("optionalSignature", EXPL(CTX, 0, R("rfc2560", "Signature")))>>)]

rfc2560_Values == [
  id_kp_OCSPSigning |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 9>>)),
  id_pkix_ocsp |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1>>)),
  id_pkix_ocsp_basic |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 1>>)),
  id_pkix_ocsp_nonce |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 2>>)),
  id_pkix_ocsp_crl |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 3>>)),
  id_pkix_ocsp_response |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 4>>)),
  id_pkix_ocsp_nocheck |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 5>>)),
  id_pkix_ocsp_archive_cutoff |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 6>>)),
  id_pkix_ocsp_service_locator |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 7>>))]

\* open type tables this module exports, with the table each one is
rfc2560_Tables == <<>>

\* what importing this module adds to the tables
rfc2560_Entries == <<
>>
=================================================================
