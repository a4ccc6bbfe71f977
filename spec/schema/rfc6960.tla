------------------------ MODULE rfc6960 ------------------------
\* https://www.rfc-editor.org/rfc/rfc6960.txt
EXTENDS Asn1Notation

rfc6960_Imports == <<"rfc2560", "rfc5280">>

rfc6960_StarImports == <<>>

rfc6960_Types == [
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  AuthorityInfoAccessSyntax |-> R("rfc5280", "AuthorityInfoAccessSyntax"),
  Certificate |-> R("rfc5280", "Certificate"),
  CertificateSerialNumber |-> R("rfc5280", "CertificateSerialNumber"),
  CRLReason |-> R("rfc5280", "CRLReason"),
  Extensions |-> R("rfc5280", "Extensions"),
  GeneralName |-> R("rfc5280", "GeneralName"),
  Name |-> R("rfc5280", "Name"),
  AcceptableResponses |-> R("rfc2560", "AcceptableResponses"),
  ArchiveCutoff |-> R("rfc2560", "ArchiveCutoff"),
  CertStatus |-> R("rfc2560", "CertStatus"),
  KeyHash |-> R("rfc2560", "KeyHash"),
  OCSPResponse |-> R("rfc2560", "OCSPResponse"),
  OCSPResponseStatus |-> R("rfc2560", "OCSPResponseStatus"),
  ResponseBytes |-> R("rfc2560", "ResponseBytes"),
  RevokedInfo |-> R("rfc2560", "RevokedInfo"),
  UnknownInfo |-> R("rfc2560", "UnknownInfo"),
  Version |-> R("rfc2560", "Version"),
  CertID |-> SEQUENCE(<<
    REQ("hashAlgorithm", R("rfc5280", "AlgorithmIdentifier")),
    REQ("issuerNameHash", OCTET_STRING),
    REQ("issuerKeyHash", OCTET_STRING),
    REQ("serialNumber", R("rfc5280", "CertificateSerialNumber"))>>),
  SingleResponse |-> SEQUENCE(<<
    REQ("certID", R("rfc6960", "CertID")),
    REQ("certStatus", R("rfc2560", "CertStatus")),
    REQ("thisUpdate", GeneralizedTime),
    OPT("nextUpdate", EXPL(CTX, 0, GeneralizedTime)),
    OPT("singleExtensions", EXPL(CTX, 1, R("rfc5280", "Extensions")))>>),
  ResponderID |-> CHOICE(<<
    REQ("byName", EXPL(CTX, 1, R("rfc5280", "Name"))),
    REQ("byKey", EXPL(CTX, 2, R("rfc2560", "KeyHash")))>>),
  ResponseData |-> SEQUENCE(<<
    DFLT("version", EXPL(CTX, 0, R("rfc2560", "Version")), VI(0)),
    REQ("responderID", R("rfc6960", "ResponderID")),
    REQ("producedAt", GeneralizedTime),
    REQ("responses", SEQUENCE_OF(R("rfc6960", "SingleResponse"))),
    OPT("responseExtensions", EXPL(CTX, 1, R("rfc5280", "Extensions")))>>),
  BasicOCSPResponse |-> SEQUENCE(<<
    REQ("tbsResponseData", R("rfc6960", "ResponseData")),
    REQ("signatureAlgorithm", R("rfc5280", "AlgorithmIdentifier")),
    REQ("signature", BIT_STRING),
    OPT("certs", EXPL(CTX, 0, SEQUENCE_OF(R("rfc5280", "Certificate"))))>>),
  Request |-> SEQUENCE(<<
    REQ("reqCert", R("rfc6960", "CertID")),
    OPT("singleRequestExtensions", EXPL(CTX, 0, R("rfc5280", "Extensions")))>>),
  Signature |-> SEQUENCE(<<
    REQ("signatureAlgorithm", R("rfc5280", "AlgorithmIdentifier")),
    REQ("signature", BIT_STRING),
    OPT("certs", EXPL(CTX, 0, SEQUENCE_OF(R("rfc5280", "Certificate"))))>>),
  TBSRequest |-> SEQUENCE(<<
    DFLT("version", EXPL(CTX, 0, R("rfc2560", "Version")), VI(0)),
    OPT("requestorName", EXPL(CTX, 1, R("rfc5280", "GeneralName"))),
    REQ("requestList", SEQUENCE_OF(R("rfc6960", "Request"))),
    OPT("requestExtensions", EXPL(CTX, 2, R("rfc5280", "Extensions")))>>),
  OCSPRequest |-> SEQUENCE(<<
    REQ("tbsRequest", R("rfc6960", "TBSRequest")),
    OPT("optionalSignature", EXPL(CTX, 0, R("rfc6960", "Signature")))>>),
  ServiceLocator |-> SEQUENCE(<<
    REQ("issuer", R("rfc5280", "Name")),
    REQ("locator", R("rfc5280", "AuthorityInfoAccessSyntax"))>>),
  CrlID |-> SEQUENCE(<<
    OPT("crlUrl", EXPL(CTX, 0, IA5String)),
    OPT("crlNum", EXPL(CTX, 1, INTEGER)),
    OPT("crlTime", EXPL(CTX, 2, GeneralizedTime))>>),
  PreferredSignatureAlgorithm |-> SEQUENCE(<<
    REQ("sigIdentifier", R("rfc5280", "AlgorithmIdentifier")),
    OPT("certIdentifier", R("rfc5280", "AlgorithmIdentifier"))>>),
  PreferredSignatureAlgorithms |-> SEQUENCE_OF(R("rfc6960", "PreferredSignatureAlgorithm"))]

rfc6960_Values == [
  id_kp |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3>>)),
  id_ad_ocsp |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1>>)),
  id_kp_OCSPSigning |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 9>>)),
  id_pkix_ocsp |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1>>)),
  id_pkix_ocsp_archive_cutoff |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 6>>)),
  id_pkix_ocsp_basic |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 1>>)),
  id_pkix_ocsp_crl |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 3>>)),
  id_pkix_ocsp_nocheck |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 5>>)),
  id_pkix_ocsp_nonce |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 2>>)),
  id_pkix_ocsp_response |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 4>>)),
  id_pkix_ocsp_service_locator |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 7>>)),
  id_pkix_ocsp_pref_sig_algs |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 8>>)),
  id_pkix_ocsp_extended_revoke |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 9>>))]

\* open type tables this module exports, with the table each one is
rfc6960_Tables == <<<<"ocspResponseMap", "rfc6960", "ocspResponseMap">>>>

\* what importing this module adds to the tables
rfc6960_Entries == <<
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 5>>), NULL_T),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 2>>), OCTET_STRING),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 4>>), R("rfc2560", "AcceptableResponses")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 7>>), R("rfc6960", "ServiceLocator")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 8>>), R("rfc6960", "PreferredSignatureAlgorithms")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 3>>), R("rfc6960", "CrlID")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 6>>), R("rfc2560", "ArchiveCutoff")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 9>>), NULL_T),
  ENTRY("rfc6960", "ocspResponseMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1, 1>>), R("rfc6960", "BasicOCSPResponse"))>>
=================================================================
