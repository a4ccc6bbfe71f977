------------------------ MODULE rfc5126 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5126.txt
EXTENDS Asn1Notation

rfc5126_Imports == <<"rfc5280", "rfc5652", "rfc5035", "rfc5755", "rfc6960", "rfc3161">>

rfc5126_StarImports == <<>>

rfc5126_Types == [
  ContentInfo |-> R("rfc5652", "ContentInfo"),
  ContentType |-> R("rfc5652", "ContentType"),
  SignedData |-> R("rfc5652", "SignedData"),
  EncapsulatedContentInfo |-> R("rfc5652", "EncapsulatedContentInfo"),
  SignerInfo |-> R("rfc5652", "SignerInfo"),
  MessageDigest |-> R("rfc5652", "MessageDigest"),
  SigningTime |-> R("rfc5652", "SigningTime"),
  Countersignature |-> R("rfc5652", "Countersignature"),
  SigningCertificate |-> R("rfc2634", "SigningCertificate"),
  IssuerSerial |-> R("rfc2634", "IssuerSerial"),
  ContentReference |-> R("rfc2634", "ContentReference"),
  ContentIdentifier |-> R("rfc2634", "ContentIdentifier"),
  Certificate |-> R("rfc5280", "Certificate"),
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  CertificateList |-> R("rfc5280", "CertificateList"),
  Name |-> R("rfc5280", "Name"),
  Attribute |-> R("rfc5280", "Attribute"),
  GeneralNames |-> R("rfc5280", "GeneralNames"),
  GeneralName |-> R("rfc5280", "GeneralName"),
  PolicyInformation |-> R("rfc5280", "PolicyInformation"),
  DirectoryString |-> R("rfc5280", "DirectoryString"),
  AttributeCertificate |-> R("rfc5755", "AttributeCertificate"),
  BasicOCSPResponse |-> R("rfc6960", "BasicOCSPResponse"),
  ResponderID |-> R("rfc6960", "ResponderID"),
  TimeStampToken |-> R("rfc3161", "TimeStampToken"),
  OtherHashValue |-> OCTET_STRING,
  OtherHashAlgAndValue |-> SEQUENCE(<<
    REQ("hashAlgorithm", R("rfc5280", "AlgorithmIdentifier")),
    REQ("hashValue", R("rfc5126", "OtherHashValue"))>>),
  OtherHash |-> CHOICE(<<
    REQ("sha1Hash", R("rfc5126", "OtherHashValue")),
    REQ("otherHash", R("rfc5126", "OtherHashAlgAndValue"))>>),
  OtherCertID |-> SEQUENCE(<<
    REQ("otherCertHash", R("rfc5126", "OtherHash")),
    OPT("issuerSerial", R("rfc2634", "IssuerSerial"))>>),
  OtherSigningCertificate |-> SEQUENCE(<<
    REQ("certs", SEQUENCE_OF(R("rfc5126", "OtherCertID"))),
    OPT("policies", SEQUENCE_OF(R("rfc5280", "PolicyInformation")))>>),
  SigPolicyId |-> OBJECT_IDENTIFIER,
  SigPolicyHash |-> R("rfc5126", "OtherHashAlgAndValue"),
  SigPolicyQualifierId |-> OBJECT_IDENTIFIER,
  SigPolicyQualifierInfo |-> SEQUENCE(<<
    REQ("sigPolicyQualifierId", R("rfc5126", "SigPolicyQualifierId")),
    OPEN("sigPolicyQualifierId", "rfc5126", "sigQualifiersMap", REQ("sigQualifier", ANY_T))>>),
  SignaturePolicyId |-> SEQUENCE(<<
    REQ("sigPolicyId", R("rfc5126", "SigPolicyId")),
    REQ("sigPolicyHash", R("rfc5126", "SigPolicyHash")),
    OPT("sigPolicyQualifiers", CON(SEQUENCE_OF(R("rfc5126", "SigPolicyQualifierInfo")), SIZE(1, MAXSIZE)))>>),
  SignaturePolicyImplied |-> NULL_T,
  SignaturePolicy |-> CHOICE(<<
    REQ("signaturePolicyId", R("rfc5126", "SignaturePolicyId")),
    REQ("signaturePolicyImplied", R("rfc5126", "SignaturePolicyImplied"))>>),
  DisplayText |-> CHOICE(<<
    REQ("visibleString", CON(VisibleString, SIZE(1, 200))),
    REQ("bmpString", CON(BMPString, SIZE(1, 200))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 200)))>>),
  NoticeReference |-> SEQUENCE(<<
    REQ("organization", R("rfc5126", "DisplayText")),
    REQ("noticeNumbers", SEQUENCE_OF(INTEGER))>>),
  SPUserNotice |-> SEQUENCE(<<
    OPT("noticeRef", R("rfc5126", "NoticeReference")),
    OPT("explicitText", R("rfc5126", "DisplayText"))>>),
  SPuri |-> IA5String,
  CommitmentTypeIdentifier |-> OBJECT_IDENTIFIER,
  CommitmentTypeQualifier |-> SEQUENCE(<<
    REQ("commitmentTypeIdentifier", R("rfc5126", "CommitmentTypeIdentifier")),
    OPEN("commitmentTypeIdentifier", "rfc5126", "commitmentQualifierMap", REQ("qualifier", ANY_T))>>),
  CommitmentTypeIndication |-> SEQUENCE(<<
    REQ("commitmentTypeId", R("rfc5126", "CommitmentTypeIdentifier")),
    OPT("commitmentTypeQualifier", CON(SEQUENCE_OF(R("rfc5126", "CommitmentTypeQualifier")), SIZE(1, MAXSIZE)))>>),
  PostalAddress |-> CON(SEQUENCE_OF(R("rfc5280", "DirectoryString")), SIZE(1, 6)),
  SignerLocation |-> SEQUENCE(<<
    OPT("countryName", EXPL(CTX, 0, R("rfc5280", "DirectoryString"))),
    OPT("localityName", EXPL(CTX, 1, R("rfc5280", "DirectoryString"))),
    OPT("postalAdddress", EXPL(CTX, 2, R("rfc5126", "PostalAddress")))>>),
  SignatureTimeStampToken |-> R("rfc3161", "TimeStampToken"),
  ContentTimestamp |-> R("rfc3161", "TimeStampToken"),
  ClaimedAttributes |-> SEQUENCE_OF(R("rfc5280", "Attribute")),
  CertifiedAttributes |-> R("rfc5755", "AttributeCertificate"),
  SignerAttribute |-> SEQUENCE_OF(CHOICE(<<
      REQ("claimedAttributes", EXPL(CTX, 0, R("rfc5126", "ClaimedAttributes"))),
      REQ("certifiedAttributes", EXPL(CTX, 1, R("rfc5126", "CertifiedAttributes")))>>)),
  CompleteCertificateRefs |-> SEQUENCE_OF(R("rfc5126", "OtherCertID")),
  CrlIdentifier |-> SEQUENCE(<<
    REQ("crlissuer", R("rfc5280", "Name")),
    REQ("crlIssuedTime", UTCTime),
    OPT("crlNumber", INTEGER)>>),
  CrlValidatedID |-> SEQUENCE(<<
    REQ("crlHash", R("rfc5126", "OtherHash")),
    OPT("crlIdentifier", R("rfc5126", "CrlIdentifier"))>>),
  CRLListID |-> SEQUENCE(<<
    REQ("crls", SEQUENCE_OF(R("rfc5126", "CrlValidatedID")))>>),
  OcspIdentifier |-> SEQUENCE(<<
    REQ("ocspResponderID", R("rfc6960", "ResponderID")),
    REQ("producedAt", GeneralizedTime)>>),
  OcspResponsesID |-> SEQUENCE(<<
    REQ("ocspIdentifier", R("rfc5126", "OcspIdentifier")),
    OPT("ocspRepHash", R("rfc5126", "OtherHash"))>>),
  OcspListID |-> SEQUENCE(<<
    REQ("ocspResponses", SEQUENCE_OF(R("rfc5126", "OcspResponsesID")))>>),
  OtherRevRefType |-> OBJECT_IDENTIFIER,
  OtherRevRefs |-> SEQUENCE(<<
    REQ("otherRevRefType", R("rfc5126", "OtherRevRefType")),
    OPEN("otherRevRefType", "rfc5126", "otherRevRefMap", REQ("otherRevRefs", ANY_T))>>),
  CrlOcspRef |-> SEQUENCE(<<
    OPT("crlids", EXPL(CTX, 0, R("rfc5126", "CRLListID"))),
    OPT("ocspids", EXPL(CTX, 1, R("rfc5126", "OcspListID"))),
    OPT("otherRev", EXPL(CTX, 2, R("rfc5126", "OtherRevRefs")))>>),
  CompleteRevocationRefs |-> SEQUENCE_OF(R("rfc5126", "CrlOcspRef")),
  CertificateValues |-> SEQUENCE_OF(R("rfc5280", "Certificate")),
  OtherRevValType |-> OBJECT_IDENTIFIER,
  OtherRevVals |-> SEQUENCE(<<
    REQ("otherRevValType", R("rfc5126", "OtherRevValType")),
    OPEN("otherRevValType", "rfc5126", "otherRevValMap", REQ("otherRevVals", ANY_T))>>),
  RevocationValues |-> SEQUENCE(<<
    OPT("crlVals", EXPL(CTX, 0, SEQUENCE_OF(R("rfc5280", "CertificateList")))),
    OPT("ocspVals", EXPL(CTX, 1, SEQUENCE_OF(R("rfc6960", "BasicOCSPResponse")))),
    OPT("otherRevVals", EXPL(CTX, 2, R("rfc5126", "OtherRevVals")))>>),
  ESCTimeStampToken |-> R("rfc3161", "TimeStampToken"),
  TimestampedCertsCRLs |-> R("rfc3161", "TimeStampToken"),
  ArchiveTimeStampToken |-> R("rfc3161", "TimeStampToken"),
  AttributeCertificateRefs |-> SEQUENCE_OF(R("rfc5126", "OtherCertID")),
  AttributeRevocationRefs |-> SEQUENCE_OF(R("rfc5126", "CrlOcspRef"))]

rfc5126_Values == [
  id_data |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 7, 1>>)),
  id_signedData |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 7, 2>>)),
  id_contentType |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 3>>)),
  id_messageDigest |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 4>>)),
  id_signingTime |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 5>>)),
  id_countersignature |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 6>>)),
  id_aa_contentReference |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 10>>)),
  id_aa_contentIdentifier |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 7>>)),
  id_aa_signingCertificate |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 12>>)),
  id_aa_signingCertificateV2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 47>>)),
  id_etsi_es_IDUP_Mechanism_v1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<0, 4, 0, 1733, 1, 4, 1>>)),
  id_aa_ets_otherSigCert |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 19>>)),
  id_aa_ets_sigPolicyId |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 15>>)),
  id_spq_ets_unotice |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 5, 2>>)),
  noticeToUser |-> CONST(R("rfc5126", "SigPolicyQualifierInfo"), VSEQ(<<FV("sigPolicyQualifierId", VOID(<<1, 2, 840, 113549, 1, 9, 16, 5, 2>>)), FV("sigQualifier", VANY(<<48, 0>>))>>)),
  id_spq_ets_uri |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 5, 1>>)),
  pointerToSigPolSpec |-> CONST(R("rfc5126", "SigPolicyQualifierInfo"), VSEQ(<<FV("sigPolicyQualifierId", VOID(<<1, 2, 840, 113549, 1, 9, 16, 5, 1>>))>>)),
  id_aa_ets_commitmentType |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 16>>)),
  id_cti_ets_proofOfOrigin |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 6, 1>>)),
  id_cti_ets_proofOfReceipt |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 6, 2>>)),
  id_cti_ets_proofOfDelivery |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 6, 3>>)),
  id_cti_ets_proofOfSender |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 6, 4>>)),
  id_cti_ets_proofOfApproval |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 6, 5>>)),
  id_cti_ets_proofOfCreation |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 6, 6>>)),
  id_aa_ets_signerLocation |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 17>>)),
  id_aa_signatureTimeStampToken |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 14>>)),
  id_aa_ets_contentTimestamp |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 20>>)),
  id_aa_ets_signerAttr |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 18>>)),
  id_aa_ets_certificateRefs |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 21>>)),
  id_aa_ets_revocationRefs |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 22>>)),
  id_aa_ets_certValues |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 23>>)),
  id_aa_ets_revocationValues |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 24>>)),
  id_aa_ets_escTimeStamp |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 25>>)),
  id_aa_ets_certCRLTimestamp |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 26>>)),
  id_aa_ets_archiveTimestampV2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 48>>)),
  id_aa_ets_attrCertificateRefs |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 44>>)),
  id_aa_ets_attrRevocationRefs |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 45>>))]

\* open type tables this module exports, with the table each one is
rfc5126_Tables == <<<<"commitmentQualifierMap", "rfc5126", "commitmentQualifierMap">>, <<"sigQualifiersMap", "rfc5126", "sigQualifiersMap">>, <<"otherRevRefMap", "rfc5126", "otherRevRefMap">>, <<"otherRevValMap", "rfc5126", "otherRevValMap">>>>

\* what importing this module adds to the tables
rfc5126_Entries == <<
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 19>>), R("rfc5126", "OtherSigningCertificate")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 15>>), R("rfc5126", "SignaturePolicy")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 16>>), R("rfc5126", "CommitmentTypeIndication")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 17>>), R("rfc5126", "SignerLocation")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 14>>), R("rfc5126", "SignatureTimeStampToken")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 20>>), R("rfc5126", "ContentTimestamp")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 18>>), R("rfc5126", "SignerAttribute")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 21>>), R("rfc5126", "CompleteCertificateRefs")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 22>>), R("rfc5126", "CompleteRevocationRefs")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 23>>), R("rfc5126", "CertificateValues")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 24>>), R("rfc5126", "RevocationValues")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 25>>), R("rfc5126", "ESCTimeStampToken")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 26>>), R("rfc5126", "TimestampedCertsCRLs")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 48>>), R("rfc5126", "ArchiveTimeStampToken")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 44>>), R("rfc5126", "AttributeCertificateRefs")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 45>>), R("rfc5126", "AttributeRevocationRefs")),
  ENTRY("rfc5126", "sigQualifiersMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 5, 2>>), R("rfc5126", "SPUserNotice")),
  ENTRY("rfc5126", "sigQualifiersMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 5, 1>>), R("rfc5126", "SPuri"))>>
=================================================================
