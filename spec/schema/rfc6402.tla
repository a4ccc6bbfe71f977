------------------------ MODULE rfc6402 ------------------------
\* https://www.rfc-editor.org/rfc/rfc6402.txt
EXTENDS Asn1Notation

rfc6402_Imports == <<"rfc4211", "rfc5280", "rfc5652">>

rfc6402_StarImports == <<>>

rfc6402_Types == [
  ChangeSubjectName |-> SEQUENCE(<<
    OPT("subject", R("rfc5280", "Name")),
    OPT("subjectAlt", R("rfc5280", "GeneralNames"))>>),
  AttributeValue |-> ANY_T,
  CMCStatus |-> NAMED(INTEGER, <<NV("success", 0), NV("failed", 2), NV("pending", 3), NV("noSupport", 4), NV("confirmRequired", 5), NV("popRequired", 6), NV("partial", 7)>>),
  PendInfo |-> SEQUENCE(<<
    REQ("pendToken", OCTET_STRING),
    REQ("pendTime", GeneralizedTime)>>),
  BodyPartID |-> CON(INTEGER, RANGE(I(0), BIG(<<0, 255, 255, 255, 255>>))),
  BodyPartPath |-> CON(SEQUENCE_OF(R("rfc6402", "BodyPartID")), SIZE(1, MAXSIZE)),
  BodyPartReference |-> CHOICE(<<
    REQ("bodyPartID", R("rfc6402", "BodyPartID")),
    REQ("bodyPartPath", R("rfc6402", "BodyPartPath"))>>),
  CMCFailInfo |-> NAMED(INTEGER, <<NV("badAlg", 0), NV("badMessageCheck", 1), NV("badRequest", 2), NV("badTime", 3), NV("badCertId", 4), NV("unsupportedExt", 5), NV("mustArchiveKeys", 6), NV("badIdentity", 7), NV("popRequired", 8), NV("popFailed", 9), NV("noKeyReuse", 10), NV("internalCAError", 11), NV("tryLater", 12), NV("authDataFail", 13)>>),
  CMCStatusInfoV2 |-> SEQUENCE(<<
    REQ("cMCStatus", R("rfc6402", "CMCStatus")),
    REQ("bodyList", SEQUENCE_OF(R("rfc6402", "BodyPartReference"))),
    OPT("statusString", UTF8String),
    OPT("otherInfo", CHOICE(<<
        REQ("failInfo", R("rfc6402", "CMCFailInfo")),
        REQ("pendInfo", R("rfc6402", "PendInfo")),
        REQ("extendedFailInfo", IMPL(CTX, 1, SEQUENCE(<<
            REQ("failInfoOID", OBJECT_IDENTIFIER),
            REQ("failInfoValue", R("rfc6402", "AttributeValue"))>>)))>>))>>),
  GetCRL |-> SEQUENCE(<<
    REQ("issuerName", R("rfc5280", "Name")),
    OPT("cRLName", R("rfc5280", "GeneralName")),
    OPT("time", GeneralizedTime),
    OPT("reasons", R("rfc5280", "ReasonFlags"))>>),
  PopLinkWitnessV2 |-> SEQUENCE(<<
    REQ("keyGenAlgorithm", R("rfc5280", "AlgorithmIdentifier")),
    REQ("macAlgorithm", R("rfc5280", "AlgorithmIdentifier")),
    REQ("witness", OCTET_STRING)>>),
  ControlsProcessed |-> SEQUENCE(<<
    REQ("bodyList", SEQUENCE_OF(R("rfc6402", "BodyPartReference")))>>),
  CertificationRequest |-> SEQUENCE(<<
    REQ("certificationRequestInfo", SEQUENCE(<<
        REQ("version", INTEGER),
        REQ("subject", R("rfc5280", "Name")),
        REQ("subjectPublicKeyInfo", SEQUENCE(<<
            REQ("algorithm", R("rfc5280", "AlgorithmIdentifier")),
            REQ("subjectPublicKey", BIT_STRING)>>)),
        REQ("attributes", IMPL(CTX, 0, SET_OF(R("rfc5652", "Attribute"))))>>)),
    REQ("signatureAlgorithm", R("rfc5280", "AlgorithmIdentifier")),
    REQ("signature", BIT_STRING)>>),
  TaggedCertificationRequest |-> SEQUENCE(<<
    REQ("bodyPartID", R("rfc6402", "BodyPartID")),
    REQ("certificationRequest", R("rfc6402", "CertificationRequest"))>>),
  TaggedRequest |-> CHOICE(<<
    REQ("tcr", IMPL(CTX, 0, R("rfc6402", "TaggedCertificationRequest"))),
    REQ("crm", IMPL(CTX, 1, R("rfc4211", "CertReqMsg"))),
    REQ("orm", IMPL(CTX, 2, SEQUENCE(<<
        REQ("bodyPartID", R("rfc6402", "BodyPartID")),
        REQ("requestMessageType", OBJECT_IDENTIFIER),
        REQ("requestMessageValue", ANY_T)>>)))>>),
  PublishTrustAnchors |-> SEQUENCE(<<
    REQ("seqNumber", INTEGER),
    REQ("hashAlgorithm", R("rfc5280", "AlgorithmIdentifier")),
    REQ("anchorHashes", SEQUENCE_OF(OCTET_STRING))>>),
  RevokeRequest |-> SEQUENCE(<<
    REQ("issuerName", R("rfc5280", "Name")),
    REQ("serialNumber", INTEGER),
    REQ("reason", R("rfc5280", "CRLReason")),
    OPT("invalidityDate", GeneralizedTime),
    OPT("passphrase", OCTET_STRING),
    OPT("comment", UTF8String)>>),
  TaggedContentInfo |-> SEQUENCE(<<
    REQ("bodyPartID", R("rfc6402", "BodyPartID")),
    REQ("contentInfo", R("rfc5652", "ContentInfo"))>>),
  IdentifyProofV2 |-> SEQUENCE(<<
    REQ("proofAlgID", R("rfc5280", "AlgorithmIdentifier")),
    REQ("macAlgId", R("rfc5280", "AlgorithmIdentifier")),
    REQ("witness", OCTET_STRING)>>),
  CMCPublicationInfo |-> SEQUENCE(<<
    REQ("hashAlg", R("rfc5280", "AlgorithmIdentifier")),
    REQ("certHashes", SEQUENCE_OF(OCTET_STRING)),
    REQ("pubInfo", R("rfc4211", "PKIPublicationInfo"))>>),
  CMCStatusInfo |-> SEQUENCE(<<
    REQ("cMCStatus", R("rfc6402", "CMCStatus")),
    REQ("bodyList", SEQUENCE_OF(R("rfc6402", "BodyPartID"))),
    OPT("statusString", UTF8String),
    OPT("otherInfo", CHOICE(<<
        REQ("failInfo", R("rfc6402", "CMCFailInfo")),
        REQ("pendInfo", R("rfc6402", "PendInfo"))>>))>>),
  DecryptedPOP |-> SEQUENCE(<<
    REQ("bodyPartID", R("rfc6402", "BodyPartID")),
    REQ("thePOPAlgID", R("rfc5280", "AlgorithmIdentifier")),
    REQ("thePOP", OCTET_STRING)>>),
  TaggedAttribute |-> SEQUENCE(<<
    REQ("bodyPartID", R("rfc6402", "BodyPartID")),
    REQ("attrType", OBJECT_IDENTIFIER),
    OPEN("attrType", "rfc5652", "cmsAttributesMap", REQ("attrValues", SET_OF(R("rfc6402", "AttributeValue"))))>>),
  OtherMsg |-> SEQUENCE(<<
    REQ("bodyPartID", R("rfc6402", "BodyPartID")),
    REQ("otherMsgType", OBJECT_IDENTIFIER),
    REQ("otherMsgValue", ANY_T)>>),
  PKIData |-> SEQUENCE(<<
    REQ("controlSequence", SEQUENCE_OF(R("rfc6402", "TaggedAttribute"))),
    REQ("reqSequence", SEQUENCE_OF(R("rfc6402", "TaggedRequest"))),
    REQ("cmsSequence", SEQUENCE_OF(R("rfc6402", "TaggedContentInfo"))),
    REQ("otherMsgSequence", SEQUENCE_OF(R("rfc6402", "OtherMsg")))>>),
  BodyPartList |-> CON(SEQUENCE_OF(R("rfc6402", "BodyPartID")), SIZE(1, MAXSIZE)),
  AuthPublish |-> R("rfc6402", "BodyPartID"),
  CMCUnsignedData |-> SEQUENCE(<<
    REQ("bodyPartPath", R("rfc6402", "BodyPartPath")),
    REQ("identifier", OBJECT_IDENTIFIER),
    REQ("content", ANY_T)>>),
  CMCCertId |-> R("rfc5652", "IssuerAndSerialNumber"),
  PKIResponse |-> SEQUENCE(<<
    REQ("controlSequence", SEQUENCE_OF(R("rfc6402", "TaggedAttribute"))),
    REQ("cmsSequence", SEQUENCE_OF(R("rfc6402", "TaggedContentInfo"))),
    REQ("otherMsgSequence", SEQUENCE_OF(R("rfc6402", "OtherMsg")))>>),
  ResponseBody |-> R("rfc6402", "PKIResponse"),
  ModCertTemplate |-> SEQUENCE(<<
    REQ("pkiDataReference", R("rfc6402", "BodyPartPath")),
    REQ("certReferences", R("rfc6402", "BodyPartList")),
    DFLT("replace", BOOLEAN_T, VB(TRUE)),
    REQ("certTemplate", R("rfc4211", "CertTemplate"))>>),
  ExtensionReq |-> CON(SEQUENCE_OF(R("rfc5280", "Extension")), SIZE(1, MAXSIZE)),
  LraPopWitness |-> SEQUENCE(<<
    REQ("pkiDataBodyid", R("rfc6402", "BodyPartID")),
    REQ("bodyIds", SEQUENCE_OF(R("rfc6402", "BodyPartID")))>>),
  GetCert |-> SEQUENCE(<<
    REQ("issuerName", R("rfc5280", "GeneralName")),
    REQ("serialNumber", INTEGER)>>),
  AddExtensions |-> SEQUENCE(<<
    REQ("pkiDataReference", R("rfc6402", "BodyPartID")),
    REQ("certReferences", SEQUENCE_OF(R("rfc6402", "BodyPartID"))),
    REQ("extensions", SEQUENCE_OF(R("rfc5280", "Extension")))>>),
  EncryptedPOP |-> SEQUENCE(<<
    REQ("request", R("rfc6402", "TaggedRequest")),
    REQ("cms", R("rfc5652", "ContentInfo")),
    REQ("thePOPAlgID", R("rfc5280", "AlgorithmIdentifier")),
    REQ("witnessAlgID", R("rfc5280", "AlgorithmIdentifier")),
    REQ("witness", OCTET_STRING)>>),
  NoSignatureValue |-> OCTET_STRING]

rfc6402_Values == [
  bodyIdMax |-> CONST(INTEGER, VBIG(<<0, 255, 255, 255, 255>>)),
  id_pkix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7>>)),
  id_cmc |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7>>)),
  id_cmc_batchResponses |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 29>>)),
  id_cmc_popLinkWitness |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 23>>)),
  id_cmc_popLinkWitnessV2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 33>>)),
  id_cmc_identityProofV2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 34>>)),
  id_cmc_revokeRequest |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 17>>)),
  id_cmc_recipientNonce |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 7>>)),
  id_cmc_popLinkRandom |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 22>>)),
  id_cmc_statusInfo |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 1>>)),
  id_cmc_trustedAnchors |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 26>>)),
  id_cmc_transactionId |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 5>>)),
  id_cmc_encryptedPOP |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 9>>)),
  id_cmc_senderNonce |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 6>>)),
  id_cmc_authData |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 27>>)),
  id_kp_cmcCA |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 27>>)),
  id_cmc_confirmCertAcceptance |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 24>>)),
  id_cmc_raIdentityWitness |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 35>>)),
  id_ExtensionReq |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 14>>)),
  id_cct |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 12>>)),
  id_cct_PKIData |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 12, 2>>)),
  id_kp_cmcRA |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 28>>)),
  id_cmc_addExtensions |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 8>>)),
  id_cmc_modCertTemplate |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 31>>)),
  id_cmc_responseBody |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 37>>)),
  id_cmc_statusInfoV2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 25>>)),
  id_cmc_lraPOPWitness |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 11>>)),
  id_cmc_regInfo |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 18>>)),
  id_cmc_identityProof |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 3>>)),
  id_kp_cmcArchive |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 28>>)),
  id_cmc_publishCert |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 30>>)),
  id_cmc_dataReturn |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 4>>)),
  id_aa |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2>>)),
  id_aa_cmc_unsignedData |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 34>>)),
  id_cmc_getCert |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 15>>)),
  id_cmc_batchRequests |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 28>>)),
  id_cmc_decryptedPOP |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 10>>)),
  id_cmc_responseInfo |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 19>>)),
  id_cmc_changeSubjectName |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 36>>)),
  id_cmc_identification |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 2>>)),
  id_cmc_queryPending |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 21>>)),
  id_cmc_getCRL |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 16>>)),
  id_cct_PKIResponse |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 12, 3>>)),
  id_cmc_controlProcessed |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 32>>)),
  id_ad_cmc |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 12>>)),
  id_alg_noSignature |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 2>>))]

\* open type tables this module exports, with the table each one is
rfc6402_Tables == <<<<"cmcControlAttributesMap", "rfc5652", "cmsAttributesMap">>>>

\* what importing this module adds to the tables
rfc6402_Entries == <<
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 12, 2>>), R("rfc6402", "PKIData")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 12, 3>>), R("rfc6402", "PKIResponse")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 1>>), R("rfc6402", "CMCStatusInfo")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 25>>), R("rfc6402", "CMCStatusInfoV2")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 2>>), UTF8String),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 3>>), OCTET_STRING),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 34>>), R("rfc6402", "IdentifyProofV2")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 4>>), OCTET_STRING),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 5>>), INTEGER),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 6>>), OCTET_STRING),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 7>>), OCTET_STRING),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 8>>), R("rfc6402", "AddExtensions")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 9>>), R("rfc6402", "EncryptedPOP")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 10>>), R("rfc6402", "DecryptedPOP")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 11>>), R("rfc6402", "LraPopWitness")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 15>>), R("rfc6402", "GetCert")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 16>>), R("rfc6402", "GetCRL")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 17>>), R("rfc6402", "RevokeRequest")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 18>>), OCTET_STRING),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 19>>), OCTET_STRING),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 21>>), OCTET_STRING),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 22>>), OCTET_STRING),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 23>>), OCTET_STRING),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 33>>), R("rfc6402", "PopLinkWitnessV2")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 24>>), R("rfc6402", "CMCCertId")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 26>>), R("rfc6402", "PublishTrustAnchors")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 27>>), R("rfc6402", "AuthPublish")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 28>>), R("rfc6402", "BodyPartList")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 29>>), R("rfc6402", "BodyPartList")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 30>>), R("rfc6402", "CMCPublicationInfo")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 31>>), R("rfc6402", "ModCertTemplate")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 32>>), R("rfc6402", "ControlsProcessed")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 14>>), R("rfc6402", "ExtensionReq"))>>
=================================================================
