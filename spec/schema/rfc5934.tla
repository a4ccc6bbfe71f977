------------------------ MODULE rfc5934 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5934.txt
EXTENDS Asn1Notation

rfc5934_Imports == <<"rfc2985", "rfc5280", "rfc5652", "rfc5914">>

rfc5934_StarImports == <<>>

rfc5934_Types == [
  SingleAttribute |-> R("rfc2985", "SingleAttribute"),
  CertPathControls |-> R("rfc5914", "CertPathControls"),
  TrustAnchorChoice |-> R("rfc5914", "TrustAnchorChoice"),
  TrustAnchorTitle |-> R("rfc5914", "TrustAnchorTitle"),
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  AnotherName |-> R("rfc5280", "AnotherName"),
  Attribute |-> R("rfc5280", "Attribute"),
  Certificate |-> R("rfc5280", "Certificate"),
  CertificateSerialNumber |-> R("rfc5280", "CertificateSerialNumber"),
  Extension |-> R("rfc5280", "Extension"),
  Extensions |-> R("rfc5280", "Extensions"),
  KeyIdentifier |-> R("rfc5280", "KeyIdentifier"),
  Name |-> R("rfc5280", "Name"),
  SubjectPublicKeyInfo |-> R("rfc5280", "SubjectPublicKeyInfo"),
  TBSCertificate |-> R("rfc5280", "TBSCertificate"),
  Validity |-> R("rfc5280", "Validity"),
  TAMPVersion |-> NAMED(INTEGER, <<NV("v1", 1), NV("v2", 2)>>),
  TerseOrVerbose |-> NAMED(ENUMERATED, <<NV("terse", 1), NV("verbose", 2)>>),
  HardwareSerialEntry |-> CHOICE(<<
    REQ("all", NULL_T),
    REQ("single", OCTET_STRING),
    REQ("block", SEQUENCE(<<
        REQ("low", OCTET_STRING),
        REQ("high", OCTET_STRING)>>))>>),
  HardwareModules |-> SEQUENCE(<<
    REQ("hwType", OBJECT_IDENTIFIER),
    REQ("hwSerialEntries", CON(SEQUENCE_OF(R("rfc5934", "HardwareSerialEntry")), SIZE(1, MAXSIZE)))>>),
  HardwareModuleIdentifierList |-> CON(SEQUENCE_OF(R("rfc5934", "HardwareModules")), SIZE(1, MAXSIZE)),
  Community |-> OBJECT_IDENTIFIER,
  CommunityIdentifierList |-> CON(SEQUENCE_OF(R("rfc5934", "Community")), SIZE(0, MAXSIZE)),
  TargetIdentifier |-> CHOICE(<<
    REQ("hwModules", IMPL(CTX, 1, R("rfc5934", "HardwareModuleIdentifierList"))),
    REQ("communities", IMPL(CTX, 2, R("rfc5934", "CommunityIdentifierList"))),
    REQ("allModules", IMPL(CTX, 3, NULL_T)),
    REQ("uri", IMPL(CTX, 4, IA5String)),
    REQ("otherName", IMPL(CTX, 5, R("rfc5280", "AnotherName")))>>),
  SeqNumber |-> CON(INTEGER, RANGE(I(0), BIG(<<127, 255, 255, 255, 255, 255, 255, 255>>))),
  TAMPMsgRef |-> SEQUENCE(<<
    REQ("target", R("rfc5934", "TargetIdentifier")),
    REQ("seqNum", R("rfc5934", "SeqNumber"))>>),
  TAMPStatusQuery |-> SEQUENCE(<<
    DFLT("version", IMPL(CTX, 0, R("rfc5934", "TAMPVersion")), VI(2)),
    DFLT("terse", IMPL(CTX, 1, R("rfc5934", "TerseOrVerbose")), VI(2)),
    REQ("query", R("rfc5934", "TAMPMsgRef"))>>),
  KeyIdentifiers |-> CON(SEQUENCE_OF(R("rfc5280", "KeyIdentifier")), SIZE(1, MAXSIZE)),
  TrustAnchorChoiceList |-> CON(SEQUENCE_OF(R("rfc5914", "TrustAnchorChoice")), SIZE(1, MAXSIZE)),
  TAMPSequenceNumber |-> SEQUENCE(<<
    REQ("keyId", R("rfc5280", "KeyIdentifier")),
    REQ("seqNumber", R("rfc5934", "SeqNumber"))>>),
  TAMPSequenceNumbers |-> CON(SEQUENCE_OF(R("rfc5934", "TAMPSequenceNumber")), SIZE(1, MAXSIZE)),
  TerseStatusResponse |-> SEQUENCE(<<
    REQ("taKeyIds", R("rfc5934", "KeyIdentifiers")),
    OPT("communities", R("rfc5934", "CommunityIdentifierList"))>>),
  VerboseStatusResponse |-> SEQUENCE(<<
    REQ("taInfo", R("rfc5934", "TrustAnchorChoiceList")),
    OPT("continPubKeyDecryptAlg", IMPL(CTX, 0, R("rfc5280", "AlgorithmIdentifier"))),
    OPT("communities", IMPL(CTX, 1, R("rfc5934", "CommunityIdentifierList"))),
    OPT("tampSeqNumbers", IMPL(CTX, 2, R("rfc5934", "TAMPSequenceNumbers")))>>),
  StatusResponse |-> CHOICE(<<
    REQ("terseResponse", IMPL(CTX, 0, R("rfc5934", "TerseStatusResponse"))),
    REQ("verboseResponse", IMPL(CTX, 1, R("rfc5934", "VerboseStatusResponse")))>>),
  TAMPStatusResponse |-> SEQUENCE(<<
    DFLT("version", IMPL(CTX, 0, R("rfc5934", "TAMPVersion")), VI(2)),
    REQ("query", R("rfc5934", "TAMPMsgRef")),
    REQ("response", R("rfc5934", "StatusResponse")),
    DFLT("usesApex", BOOLEAN_T, VB(TRUE))>>),
  TBSCertificateChangeInfo |-> SEQUENCE(<<
    OPT("serialNumber", R("rfc5280", "CertificateSerialNumber")),
    OPT("signature", IMPL(CTX, 0, R("rfc5280", "AlgorithmIdentifier"))),
    OPT("issuer", IMPL(CTX, 1, R("rfc5280", "Name"))),
    OPT("validity", IMPL(CTX, 2, R("rfc5280", "Validity"))),
    OPT("subject", IMPL(CTX, 3, R("rfc5280", "Name"))),
    REQ("subjectPublicKeyInfo", IMPL(CTX, 4, R("rfc5280", "SubjectPublicKeyInfo"))),
    OPT("exts", EXPL(CTX, 5, R("rfc5280", "Extensions")))>>),
  TrustAnchorChangeInfo |-> SEQUENCE(<<
    REQ("pubKey", R("rfc5280", "SubjectPublicKeyInfo")),
    OPT("keyId", R("rfc5280", "KeyIdentifier")),
    OPT("taTitle", R("rfc5914", "TrustAnchorTitle")),
    OPT("certPath", R("rfc5914", "CertPathControls")),
    OPT("exts", IMPL(CTX, 1, R("rfc5280", "Extensions")))>>),
  TrustAnchorChangeInfoChoice |-> CHOICE(<<
    REQ("tbsCertChange", IMPL(CTX, 0, R("rfc5934", "TBSCertificateChangeInfo"))),
    REQ("taChange", IMPL(CTX, 1, R("rfc5934", "TrustAnchorChangeInfo")))>>),
  TrustAnchorUpdate |-> CHOICE(<<
    REQ("add", IMPL(CTX, 1, R("rfc5914", "TrustAnchorChoice"))),
    REQ("remove", IMPL(CTX, 2, R("rfc5280", "SubjectPublicKeyInfo"))),
    REQ("change", EXPL(CTX, 3, R("rfc5934", "TrustAnchorChangeInfoChoice")))>>),
  TAMPUpdate |-> SEQUENCE(<<
    DFLT("version", IMPL(CTX, 0, R("rfc5934", "TAMPVersion")), VI(2)),
    DFLT("terse", IMPL(CTX, 1, R("rfc5934", "TerseOrVerbose")), VI(2)),
    REQ("msgRef", R("rfc5934", "TAMPMsgRef")),
    REQ("updates", CON(SEQUENCE_OF(R("rfc5934", "TrustAnchorUpdate")), SIZE(1, MAXSIZE))),
    OPT("tampSeqNumbers", IMPL(CTX, 2, R("rfc5934", "TAMPSequenceNumbers")))>>),
  StatusCode |-> NAMED(ENUMERATED, <<NV("success", 0), NV("decodeFailure", 1), NV("badContentInfo", 2), NV("badSignedData", 3), NV("badEncapContent", 4), NV("badCertificate", 5), NV("badSignerInfo", 6), NV("badSignedAttrs", 7), NV("badUnsignedAttrs", 8), NV("missingContent", 9), NV("noTrustAnchor", 10), NV("notAuthorized", 11), NV("badDigestAlgorithm", 12), NV("badSignatureAlgorithm", 13), NV("unsupportedKeySize", 14), NV("unsupportedParameters", 15), NV("signatureFailure", 16), NV("insufficientMemory", 17), NV("unsupportedTAMPMsgType", 18), NV("apexTAMPAnchor", 19), NV("improperTAAddition", 20), NV("seqNumFailure", 21), NV("contingencyPublicKeyDecrypt", 22), NV("incorrectTarget", 23), NV("communityUpdateFailed", 24), NV("trustAnchorNotFound", 25), NV("unsupportedTAAlgorithm", 26), NV("unsupportedTAKeySize", 27), NV("unsupportedContinPubKeyDecryptAlg", 28), NV("missingSignature", 29), NV("resourcesBusy", 30), NV("versionNumberMismatch", 31), NV("missingPolicySet", 32), NV("revokedCertificate", 33), NV("unsupportedTrustAnchorFormat", 34), NV("improperTAChange", 35), NV("malformed", 36), NV("cmsError", 37), NV("unsupportedTargetIdentifier", 38), NV("other", 127)>>),
  StatusCodeList |-> CON(SEQUENCE_OF(R("rfc5934", "StatusCode")), SIZE(1, MAXSIZE)),
  TerseUpdateConfirm |-> R("rfc5934", "StatusCodeList"),
  VerboseUpdateConfirm |-> SEQUENCE(<<
    REQ("status", R("rfc5934", "StatusCodeList")),
    REQ("taInfo", R("rfc5934", "TrustAnchorChoiceList")),
    OPT("tampSeqNumbers", R("rfc5934", "TAMPSequenceNumbers")),
    DFLT("usesApex", BOOLEAN_T, VB(TRUE))>>),
  UpdateConfirm |-> CHOICE(<<
    REQ("terseConfirm", IMPL(CTX, 0, R("rfc5934", "TerseUpdateConfirm"))),
    REQ("verboseConfirm", IMPL(CTX, 1, R("rfc5934", "VerboseUpdateConfirm")))>>),
  TAMPUpdateConfirm |-> SEQUENCE(<<
    DFLT("version", IMPL(CTX, 0, R("rfc5934", "TAMPVersion")), VI(2)),
    REQ("update", R("rfc5934", "TAMPMsgRef")),
    REQ("confirm", R("rfc5934", "UpdateConfirm"))>>),
  TAMPApexUpdate |-> SEQUENCE(<<
    DFLT("version", IMPL(CTX, 0, R("rfc5934", "TAMPVersion")), VI(2)),
    DFLT("terse", IMPL(CTX, 1, R("rfc5934", "TerseOrVerbose")), VI(2)),
    REQ("msgRef", R("rfc5934", "TAMPMsgRef")),
    REQ("clearTrustAnchors", BOOLEAN_T),
    REQ("clearCommunities", BOOLEAN_T),
    OPT("seqNumber", R("rfc5934", "SeqNumber")),
    REQ("apexTA", R("rfc5914", "TrustAnchorChoice"))>>),
  TerseApexUpdateConfirm |-> R("rfc5934", "StatusCode"),
  VerboseApexUpdateConfirm |-> SEQUENCE(<<
    REQ("status", R("rfc5934", "StatusCode")),
    REQ("taInfo", R("rfc5934", "TrustAnchorChoiceList")),
    OPT("communities", IMPL(CTX, 0, R("rfc5934", "CommunityIdentifierList"))),
    OPT("tampSeqNumbers", IMPL(CTX, 1, R("rfc5934", "TAMPSequenceNumbers")))>>),
  ApexUpdateConfirm |-> CHOICE(<<
    REQ("terseApexConfirm", IMPL(CTX, 0, R("rfc5934", "TerseApexUpdateConfirm"))),
    REQ("verboseApexConfirm", IMPL(CTX, 1, R("rfc5934", "VerboseApexUpdateConfirm")))>>),
  TAMPApexUpdateConfirm |-> SEQUENCE(<<
    DFLT("version", IMPL(CTX, 0, R("rfc5934", "TAMPVersion")), VI(2)),
    REQ("apexReplace", R("rfc5934", "TAMPMsgRef")),
    REQ("apexConfirm", R("rfc5934", "ApexUpdateConfirm"))>>),
  CommunityUpdates |-> SEQUENCE(<<
    OPT("remove", IMPL(CTX, 1, R("rfc5934", "CommunityIdentifierList"))),
    OPT("add", IMPL(CTX, 2, R("rfc5934", "CommunityIdentifierList")))>>),
  TAMPCommunityUpdate |-> SEQUENCE(<<
    DFLT("version", IMPL(CTX, 0, R("rfc5934", "TAMPVersion")), VI(2)),
    DFLT("terse", IMPL(CTX, 1, R("rfc5934", "TerseOrVerbose")), VI(2)),
    REQ("msgRef", R("rfc5934", "TAMPMsgRef")),
    REQ("updates", R("rfc5934", "CommunityUpdates"))>>),
  TerseCommunityConfirm |-> R("rfc5934", "StatusCode"),
  VerboseCommunityConfirm |-> SEQUENCE(<<
    REQ("status", R("rfc5934", "StatusCode")),
    OPT("communities", R("rfc5934", "CommunityIdentifierList"))>>),
  CommunityConfirm |-> CHOICE(<<
    REQ("terseCommConfirm", IMPL(CTX, 0, R("rfc5934", "TerseCommunityConfirm"))),
    REQ("verboseCommConfirm", IMPL(CTX, 1, R("rfc5934", "VerboseCommunityConfirm")))>>),
  TAMPCommunityUpdateConfirm |-> SEQUENCE(<<
    DFLT("version", IMPL(CTX, 0, R("rfc5934", "TAMPVersion")), VI(2)),
    REQ("update", R("rfc5934", "TAMPMsgRef")),
    REQ("commConfirm", R("rfc5934", "CommunityConfirm"))>>),
  SequenceNumberAdjust |-> SEQUENCE(<<
    DFLT("version", IMPL(CTX, 0, R("rfc5934", "TAMPVersion")), VI(2)),
    REQ("msgRef", R("rfc5934", "TAMPMsgRef"))>>),
  SequenceNumberAdjustConfirm |-> SEQUENCE(<<
    DFLT("version", IMPL(CTX, 0, R("rfc5934", "TAMPVersion")), VI(2)),
    REQ("adjust", R("rfc5934", "TAMPMsgRef")),
    REQ("status", R("rfc5934", "StatusCode"))>>),
  TAMPError |-> SEQUENCE(<<
    DFLT("version", IMPL(CTX, 0, R("rfc5934", "TAMPVersion")), VI(2)),
    REQ("msgType", OBJECT_IDENTIFIER),
    REQ("status", R("rfc5934", "StatusCode")),
    OPT("msgRef", R("rfc5934", "TAMPMsgRef"))>>),
  PlaintextSymmetricKey |-> OCTET_STRING,
  ApexContingencyKey |-> SEQUENCE(<<
    REQ("wrapAlgorithm", R("rfc5280", "AlgorithmIdentifier")),
    REQ("wrappedContinPubKey", OCTET_STRING)>>)]

rfc5934_Values == [
  id_tamp |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77>>)),
  id_ct_TAMP_statusQuery |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 1>>)),
  tamp_status_query |-> CONST(R("rfc5652", "ContentInfo"), VSEQ(<<FV("contentType", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 1>>))>>)),
  id_ct_TAMP_statusResponse |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 2>>)),
  tamp_status_response |-> CONST(R("rfc5652", "ContentInfo"), VSEQ(<<FV("contentType", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 2>>))>>)),
  id_ct_TAMP_update |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 3>>)),
  tamp_update |-> CONST(R("rfc5652", "ContentInfo"), VSEQ(<<FV("contentType", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 3>>))>>)),
  id_ct_TAMP_updateConfirm |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 4>>)),
  tamp_update_confirm |-> CONST(R("rfc5652", "ContentInfo"), VSEQ(<<FV("contentType", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 4>>))>>)),
  id_ct_TAMP_apexUpdate |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 5>>)),
  tamp_apex_update |-> CONST(R("rfc5652", "ContentInfo"), VSEQ(<<FV("contentType", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 5>>))>>)),
  id_ct_TAMP_apexUpdateConfirm |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 6>>)),
  tamp_apex_update_confirm |-> CONST(R("rfc5652", "ContentInfo"), VSEQ(<<FV("contentType", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 6>>))>>)),
  id_ct_TAMP_communityUpdate |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 7>>)),
  tamp_community_update |-> CONST(R("rfc5652", "ContentInfo"), VSEQ(<<FV("contentType", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 7>>))>>)),
  id_ct_TAMP_communityUpdateConfirm |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 8>>)),
  tamp_community_update_confirm |-> CONST(R("rfc5652", "ContentInfo"), VSEQ(<<FV("contentType", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 8>>))>>)),
  id_ct_TAMP_seqNumAdjust |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 10>>)),
  tamp_sequence_number_adjust |-> CONST(R("rfc5652", "ContentInfo"), VSEQ(<<FV("contentType", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 10>>))>>)),
  id_ct_TAMP_seqNumAdjustConfirm |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 11>>)),
  tamp_sequence_number_adjust_confirm |-> CONST(R("rfc5652", "ContentInfo"), VSEQ(<<FV("contentType", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 11>>))>>)),
  id_ct_TAMP_error |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 9>>)),
  tamp_error |-> CONST(R("rfc5652", "ContentInfo"), VSEQ(<<FV("contentType", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 9>>))>>)),
  id_attributes |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 5>>)),
  id_aa_TAMP_contingencyPublicKeyDecryptKey |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 63>>)),
  contingency_public_key_decrypt_key |-> CONST(R("rfc5280", "Attribute"), VSEQ(<<FV("type", VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 63>>))>>)),
  id_pe_wrappedApexContinKey |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 20>>)),
  wrappedApexContinKey |-> CONST(R("rfc5280", "Extension"), VSEQ(<<FV("extnID", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 20>>)), FV("critical", VB(FALSE))>>))]

\* open type tables this module exports, with the table each one is
rfc5934_Tables == <<>>

\* what importing this module adds to the tables
rfc5934_Entries == <<
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 20>>), R("rfc5934", "ApexContingencyKey")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 1>>), R("rfc5934", "TAMPStatusQuery")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 2>>), R("rfc5934", "TAMPStatusResponse")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 3>>), R("rfc5934", "TAMPUpdate")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 4>>), R("rfc5934", "TAMPUpdateConfirm")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 5>>), R("rfc5934", "TAMPApexUpdate")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 6>>), R("rfc5934", "TAMPApexUpdateConfirm")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 7>>), R("rfc5934", "TAMPCommunityUpdate")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 8>>), R("rfc5934", "TAMPCommunityUpdateConfirm")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 10>>), R("rfc5934", "SequenceNumberAdjust")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 11>>), R("rfc5934", "SequenceNumberAdjustConfirm")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 77, 9>>), R("rfc5934", "TAMPError")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 63>>), R("rfc5934", "PlaintextSymmetricKey"))>>
=================================================================
