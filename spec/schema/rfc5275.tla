------------------------ MODULE rfc5275 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5275.txt
EXTENDS Asn1Notation

rfc5275_Imports == <<"rfc3565", "rfc5280", "rfc5652", "rfc5751", "rfc5755">>

rfc5275_StarImports == <<>>

rfc5275_Types == [
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  Certificate |-> R("rfc5280", "Certificate"),
  GeneralName |-> R("rfc5280", "GeneralName"),
  CertificateSet |-> R("rfc5652", "CertificateSet"),
  KEKIdentifier |-> R("rfc5652", "KEKIdentifier"),
  RecipientInfos |-> R("rfc5652", "RecipientInfos"),
  SMIMECapability |-> R("rfc5751", "SMIMECapability"),
  AttributeCertificate |-> R("rfc5755", "AttributeCertificate"),
  Certificates |-> SEQUENCE(<<
    OPT("pKC", IMPL(CTX, 0, R("rfc5280", "Certificate"))),
    OPT("aC", IMPL(CTX, 1, CON(SEQUENCE_OF(R("rfc5755", "AttributeCertificate")), SIZE(1, MAXSIZE)))),
    OPT("certPath", IMPL(CTX, 2, R("rfc5652", "CertificateSet")))>>),
  GLInfo |-> SEQUENCE(<<
    REQ("glName", R("rfc5280", "GeneralName")),
    REQ("glAddress", R("rfc5280", "GeneralName"))>>),
  GLOwnerInfo |-> SEQUENCE(<<
    REQ("glOwnerName", R("rfc5280", "GeneralName")),
    REQ("glOwnerAddress", R("rfc5280", "GeneralName")),
    OPT("certificates", R("rfc5275", "Certificates"))>>),
  GLAdministration |-> NAMED(INTEGER, <<NV("unmanaged", 0), NV("managed", 1), NV("closed", 2)>>),
  GLKeyAttributes |-> SEQUENCE(<<
    DFLT("rekeyControlledByGLO", IMPL(CTX, 0, BOOLEAN_T), VB(FALSE)),
    DFLT("recipientsNotMutuallyAware", IMPL(CTX, 1, BOOLEAN_T), VB(TRUE)),
    DFLT("duration", IMPL(CTX, 2, INTEGER), VI(0)),
    DFLT("generationCounter", IMPL(CTX, 3, INTEGER), VI(2)),
    DFLT("requestedAlgorithm", IMPL(CTX, 4, R("rfc5751", "SMIMECapability")), VSEQ(<<FV("capabilityID", VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 5>>))>>))>>),
  GLUseKEK |-> SEQUENCE(<<
    REQ("glInfo", R("rfc5275", "GLInfo")),
    REQ("glOwnerInfo", CON(SEQUENCE_OF(R("rfc5275", "GLOwnerInfo")), SIZE(1, MAXSIZE))),
    DFLT("glAdministration", R("rfc5275", "GLAdministration"), VI(1)),
    OPT("glKeyAttributes", R("rfc5275", "GLKeyAttributes"))>>),
  DeleteGL |-> R("rfc5280", "GeneralName"),
  GLMember |-> SEQUENCE(<<
    REQ("glMemberName", R("rfc5280", "GeneralName")),
    OPT("glMemberAddress", R("rfc5280", "GeneralName")),
    OPT("certificates", R("rfc5275", "Certificates"))>>),
  GLAddMember |-> SEQUENCE(<<
    REQ("glName", R("rfc5280", "GeneralName")),
    REQ("glMember", R("rfc5275", "GLMember"))>>),
  GLDeleteMember |-> SEQUENCE(<<
    REQ("glName", R("rfc5280", "GeneralName")),
    REQ("glMemberToDelete", R("rfc5280", "GeneralName"))>>),
  GLNewKeyAttributes |-> SEQUENCE(<<
    OPT("rekeyControlledByGLO", IMPL(CTX, 0, BOOLEAN_T)),
    OPT("recipientsNotMutuallyAware", IMPL(CTX, 1, BOOLEAN_T)),
    OPT("duration", IMPL(CTX, 2, INTEGER)),
    OPT("generationCounter", IMPL(CTX, 3, INTEGER)),
    OPT("requestedAlgorithm", IMPL(CTX, 4, R("rfc5280", "AlgorithmIdentifier")))>>),
  GLRekey |-> SEQUENCE(<<
    REQ("glName", R("rfc5280", "GeneralName")),
    OPT("glAdministration", R("rfc5275", "GLAdministration")),
    OPT("glNewKeyAttributes", R("rfc5275", "GLNewKeyAttributes")),
    OPT("glRekeyAllGLKeys", BOOLEAN_T)>>),
  GLOwnerAdministration |-> SEQUENCE(<<
    REQ("glName", R("rfc5280", "GeneralName")),
    REQ("glOwnerInfo", R("rfc5275", "GLOwnerInfo"))>>),
  GLKCompromise |-> R("rfc5280", "GeneralName"),
  Date |-> SEQUENCE(<<
    REQ("start", GeneralizedTime),
    OPT("end", GeneralizedTime)>>),
  GLKRefresh |-> SEQUENCE(<<
    REQ("glName", R("rfc5280", "GeneralName")),
    REQ("dates", CON(SEQUENCE_OF(R("rfc5275", "Date")), SIZE(1, MAXSIZE)))>>),
  GLAQueryRequest |-> SEQUENCE(<<
    REQ("glaRequestType", OBJECT_IDENTIFIER),
    OPEN("glaRequestType", "rfc5275", "glaQueryRRMap", REQ("glaRequestValue", ANY_T))>>),
  GLAQueryResponse |-> SEQUENCE(<<
    REQ("glaResponseType", OBJECT_IDENTIFIER),
    OPEN("glaResponseType", "rfc5275", "glaQueryRRMap", REQ("glaResponseValue", ANY_T))>>),
  SKDAlgRequest |-> NULL_T,
  SMIMECapabilities |-> R("rfc5751", "SMIMECapabilities"),
  GLManageCert |-> SEQUENCE(<<
    REQ("glName", R("rfc5280", "GeneralName")),
    REQ("glMember", R("rfc5275", "GLMember"))>>),
  GLKey |-> SEQUENCE(<<
    REQ("glName", R("rfc5280", "GeneralName")),
    REQ("glIdentifier", R("rfc5652", "KEKIdentifier")),
    REQ("glkWrapped", R("rfc5652", "RecipientInfos")),
    REQ("glkAlgorithm", R("rfc5280", "AlgorithmIdentifier")),
    REQ("glkNotBefore", GeneralizedTime),
    REQ("glkNotAfter", GeneralizedTime)>>),
  SKDFailInfo |-> NAMED(INTEGER, <<NV("unspecified", 0), NV("closedGL", 1), NV("unsupportedDuration", 2), NV("noGLACertificate", 3), NV("invalidCert", 4), NV("unsupportedAlgorithm", 5), NV("noGLONameMatch", 6), NV("invalidGLName", 7), NV("nameAlreadyInUse", 8), NV("noSpam", 9), NV("alreadyAMember", 11), NV("notAMember", 12), NV("alreadyAnOwner", 13), NV("notAnOwner", 14)>>)]

rfc5275_Values == [
  id_aes128_wrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 5>>)),
  id_skd |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 8>>)),
  id_skd_glUseKEK |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 1>>)),
  requested_algorithm |-> CONST(IMPL(CTX, 4, R("rfc5751", "SMIMECapability")), VSEQ(<<FV("capabilityID", VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 5>>))>>)),
  id_skd_glDelete |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 2>>)),
  id_skd_glAddMember |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 3>>)),
  id_skd_glDeleteMember |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 4>>)),
  id_skd_glRekey |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 5>>)),
  id_skd_glAddOwner |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 6>>)),
  id_skd_glRemoveOwner |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 7>>)),
  id_skd_glKeyCompromise |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 8>>)),
  id_skd_glkRefresh |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 9>>)),
  id_skd_glaQueryRequest |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 11>>)),
  id_skd_glaQueryResponse |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 12>>)),
  id_cmc_glaRR |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 99>>)),
  id_cmc_gla_skdAlgRequest |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 99, 1>>)),
  id_cmc_gla_skdAlgResponse |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 99, 2>>)),
  id_skd_glProvideCert |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 13>>)),
  id_skd_glManageCert |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 14>>)),
  id_skd_glKey |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 15>>)),
  id_cet_skdFailInfo |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 15, 1>>))]

\* open type tables this module exports, with the table each one is
rfc5275_Tables == <<<<"glaQueryRRMap", "rfc5275", "glaQueryRRMap">>>>

\* what importing this module adds to the tables
rfc5275_Entries == <<
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 1>>), R("rfc5275", "GLUseKEK")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 2>>), R("rfc5275", "DeleteGL")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 3>>), R("rfc5275", "GLAddMember")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 4>>), R("rfc5275", "GLDeleteMember")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 5>>), R("rfc5275", "GLRekey")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 6>>), R("rfc5275", "GLOwnerAdministration")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 7>>), R("rfc5275", "GLOwnerAdministration")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 8>>), R("rfc5275", "GLKCompromise")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 9>>), R("rfc5275", "GLKRefresh")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 11>>), R("rfc5275", "GLAQueryRequest")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 12>>), R("rfc5275", "GLAQueryResponse")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 13>>), R("rfc5275", "GLManageCert")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 14>>), R("rfc5275", "GLManageCert")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 8, 15>>), R("rfc5275", "GLKey")),
  ENTRY("rfc5275", "glaQueryRRMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 99, 1>>), NULL_T),
  ENTRY("rfc5275", "glaQueryRRMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 7, 99, 2>>), R("rfc5751", "SMIMECapabilities"))>>
=================================================================
