------------------------ MODULE rfc3125 ------------------------
\* https://www.rfc-editor.org/rfc/rfc3125.txt
\* https://www.rfc-editor.org/errata/eid5901
\* https://www.rfc-editor.org/errata/eid5902
EXTENDS Asn1Notation

rfc3125_Imports == <<"rfc5280">>

rfc3125_StarImports == <<>>

rfc3125_Types == [
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  Attribute |-> R("rfc5280", "Attribute"),
  AttributeType |-> R("rfc5280", "AttributeType"),
  AttributeTypeAndValue |-> R("rfc5280", "AttributeTypeAndValue"),
  AttributeValue |-> R("rfc5280", "AttributeValue"),
  Certificate |-> R("rfc5280", "Certificate"),
  CertificateList |-> R("rfc5280", "CertificateList"),
  DirectoryString |-> R("rfc5280", "DirectoryString"),
  GeneralName |-> R("rfc5280", "GeneralName"),
  GeneralNames |-> R("rfc5280", "GeneralNames"),
  Name |-> R("rfc5280", "Name"),
  PolicyInformation |-> R("rfc5280", "PolicyInformation"),
  CertPolicyId |-> OBJECT_IDENTIFIER,
  AcceptablePolicySet |-> SEQUENCE_OF(R("rfc3125", "CertPolicyId")),
  SignPolExtn |-> SEQUENCE(<<
    REQ("extnID", OBJECT_IDENTIFIER),
    REQ("extnValue", OCTET_STRING)>>),
  SignPolExtensions |-> SEQUENCE_OF(R("rfc3125", "SignPolExtn")),
  AlgAndLength |-> SEQUENCE(<<
    REQ("algID", OBJECT_IDENTIFIER),
    OPT("minKeyLength", INTEGER),
    OPT("other", R("rfc3125", "SignPolExtensions"))>>),
  AlgorithmConstraints |-> SEQUENCE_OF(R("rfc3125", "AlgAndLength")),
  AlgorithmConstraintSet |-> SEQUENCE(<<
    OPT("signerAlgorithmConstraints", EXPL(CTX, 0, R("rfc3125", "AlgorithmConstraints"))),
    OPT("eeCertAlgorithmConstraints", EXPL(CTX, 1, R("rfc3125", "AlgorithmConstraints"))),
    OPT("caCertAlgorithmConstraints", EXPL(CTX, 2, R("rfc3125", "AlgorithmConstraints"))),
    OPT("aaCertAlgorithmConstraints", EXPL(CTX, 3, R("rfc3125", "AlgorithmConstraints"))),
    OPT("tsaCertAlgorithmConstraints", EXPL(CTX, 4, R("rfc3125", "AlgorithmConstraints")))>>),
  AttributeValueConstraints |-> SEQUENCE_OF(R("rfc5280", "AttributeTypeAndValue")),
  AttributeTypeConstraints |-> SEQUENCE_OF(R("rfc5280", "AttributeType")),
  AttributeConstraints |-> SEQUENCE(<<
    OPT("attributeTypeConstarints", EXPL(CTX, 0, R("rfc3125", "AttributeTypeConstraints"))),
    OPT("attributeValueConstarints", EXPL(CTX, 1, R("rfc3125", "AttributeValueConstraints")))>>),
  HowCertAttribute |-> NAMED(ENUMERATED, <<NV("claimedAttribute", 0), NV("certifiedAttribtes", 1), NV("either", 2)>>),
  SkipCerts |-> CON(INTEGER, RANGE(I(0), NOBOUND)),
  PolicyConstraints |-> SEQUENCE(<<
    OPT("requireExplicitPolicy", EXPL(CTX, 0, R("rfc3125", "SkipCerts"))),
    OPT("inhibitPolicyMapping", EXPL(CTX, 1, R("rfc3125", "SkipCerts")))>>),
  BaseDistance |-> CON(INTEGER, RANGE(I(0), NOBOUND)),
  GeneralSubtree |-> SEQUENCE(<<
    REQ("base", R("rfc5280", "GeneralName")),
    DFLT("minimum", EXPL(CTX, 0, R("rfc3125", "BaseDistance")), VI(0)),
    OPT("maximum", EXPL(CTX, 1, R("rfc3125", "BaseDistance")))>>),
  GeneralSubtrees |-> CON(SEQUENCE_OF(R("rfc3125", "GeneralSubtree")), SIZE(1, MAXSIZE)),
  NameConstraints |-> SEQUENCE(<<
    OPT("permittedSubtrees", EXPL(CTX, 0, R("rfc3125", "GeneralSubtrees"))),
    OPT("excludedSubtrees", EXPL(CTX, 1, R("rfc3125", "GeneralSubtrees")))>>),
  PathLenConstraint |-> CON(INTEGER, RANGE(I(0), NOBOUND)),
  CertificateTrustPoint |-> SEQUENCE(<<
    REQ("trustpoint", R("rfc5280", "Certificate")),
    OPT("pathLenConstraint", EXPL(CTX, 0, R("rfc3125", "PathLenConstraint"))),
    OPT("acceptablePolicySet", EXPL(CTX, 1, R("rfc3125", "AcceptablePolicySet"))),
    OPT("nameConstraints", EXPL(CTX, 2, R("rfc3125", "NameConstraints"))),
    OPT("policyConstraints", EXPL(CTX, 3, R("rfc3125", "PolicyConstraints")))>>),
  CertificateTrustTrees |-> SEQUENCE_OF(R("rfc3125", "CertificateTrustPoint")),
  EnuRevReq |-> NAMED(ENUMERATED, <<NV("clrCheck", 0), NV("ocspCheck", 1), NV("bothCheck", 2), NV("eitherCheck", 3), NV("noCheck", 4), NV("other", 5)>>),
  RevReq |-> SEQUENCE(<<
    REQ("enuRevReq", R("rfc3125", "EnuRevReq")),
    OPT("exRevReq", R("rfc3125", "SignPolExtensions"))>>),
  CertRevReq |-> SEQUENCE(<<
    REQ("endCertRevReq", R("rfc3125", "RevReq")),
    REQ("caCerts", EXPL(CTX, 0, R("rfc3125", "RevReq")))>>),
  AttributeTrustCondition |-> SEQUENCE(<<
    REQ("attributeMandated", BOOLEAN_T),
    REQ("howCertAttribute", R("rfc3125", "HowCertAttribute")),
    OPT("attrCertificateTrustTrees", EXPL(CTX, 0, R("rfc3125", "CertificateTrustTrees"))),
    OPT("attrRevReq", EXPL(CTX, 1, R("rfc3125", "CertRevReq"))),
    OPT("attributeConstraints", EXPL(CTX, 2, R("rfc3125", "AttributeConstraints")))>>),
  CMSAttrs |-> SEQUENCE_OF(OBJECT_IDENTIFIER),
  CertInfoReq |-> NAMED(ENUMERATED, <<NV("none", 0), NV("signerOnly", 1), NV("fullPath", 2)>>),
  CertRefReq |-> NAMED(ENUMERATED, <<NV("signerOnly", 1), NV("fullPath", 2)>>),
  DeltaTime |-> SEQUENCE(<<
    REQ("deltaSeconds", INTEGER),
    REQ("deltaMinutes", INTEGER),
    REQ("deltaHours", INTEGER),
    REQ("deltaDays", INTEGER)>>),
  TimestampTrustCondition |-> SEQUENCE(<<
    OPT("ttsCertificateTrustTrees", EXPL(CTX, 0, R("rfc3125", "CertificateTrustTrees"))),
    OPT("ttsRevReq", EXPL(CTX, 1, R("rfc3125", "CertRevReq"))),
    OPT("ttsNameConstraints", EXPL(CTX, 2, R("rfc3125", "NameConstraints"))),
    OPT("cautionPeriod", EXPL(CTX, 3, R("rfc3125", "DeltaTime"))),
    OPT("signatureTimestampDelay", EXPL(CTX, 4, R("rfc3125", "DeltaTime")))>>),
  SignerRules |-> SEQUENCE(<<
    OPT("externalSignedData", BOOLEAN_T),
    REQ("mandatedSignedAttr", R("rfc3125", "CMSAttrs")),
    REQ("mandatedUnsignedAttr", R("rfc3125", "CMSAttrs")),
    DFLT("mandatedCertificateRef", EXPL(CTX, 0, R("rfc3125", "CertRefReq")), VI(1)),
    DFLT("mandatedCertificateInfo", EXPL(CTX, 1, R("rfc3125", "CertInfoReq")), VI(0)),
    OPT("signPolExtensions", EXPL(CTX, 2, R("rfc3125", "SignPolExtensions")))>>),
  MandatedUnsignedAttr |-> R("rfc3125", "CMSAttrs"),
  VerifierRules |-> SEQUENCE(<<
    REQ("mandatedUnsignedAttr", R("rfc3125", "MandatedUnsignedAttr")),
    OPT("signPolExtensions", R("rfc3125", "SignPolExtensions"))>>),
  SignerAndVerifierRules |-> SEQUENCE(<<
    REQ("signerRules", R("rfc3125", "SignerRules")),
    REQ("verifierRules", R("rfc3125", "VerifierRules"))>>),
  SigningCertTrustCondition |-> SEQUENCE(<<
    REQ("signerTrustTrees", R("rfc3125", "CertificateTrustTrees")),
    REQ("signerRevReq", R("rfc3125", "CertRevReq"))>>),
  CommitmentTypeIdentifier |-> OBJECT_IDENTIFIER,
  FieldOfApplication |-> R("rfc5280", "DirectoryString"),
  CommitmentType |-> SEQUENCE(<<
    REQ("identifier", R("rfc3125", "CommitmentTypeIdentifier")),
    OPT("fieldOfApplication", EXPL(CTX, 0, R("rfc3125", "FieldOfApplication"))),
    OPT("semantics", EXPL(CTX, 1, R("rfc5280", "DirectoryString")))>>),
  SelectedCommitmentTypes |-> SEQUENCE_OF(CHOICE(<<
      REQ("empty", NULL_T),
      REQ("recognizedCommitmentType", R("rfc3125", "CommitmentType"))>>)),
  CommitmentRule |-> SEQUENCE(<<
    REQ("selCommitmentTypes", R("rfc3125", "SelectedCommitmentTypes")),
    OPT("signerAndVeriferRules", EXPL(CTX, 0, R("rfc3125", "SignerAndVerifierRules"))),
    OPT("signingCertTrustCondition", EXPL(CTX, 1, R("rfc3125", "SigningCertTrustCondition"))),
    OPT("timeStampTrustCondition", EXPL(CTX, 2, R("rfc3125", "TimestampTrustCondition"))),
    OPT("attributeTrustCondition", EXPL(CTX, 3, R("rfc3125", "AttributeTrustCondition"))),
    OPT("algorithmConstraintSet", EXPL(CTX, 4, R("rfc3125", "AlgorithmConstraintSet"))),
    OPT("signPolExtensions", EXPL(CTX, 5, R("rfc3125", "SignPolExtensions")))>>),
  CommitmentRules |-> SEQUENCE_OF(R("rfc3125", "CommitmentRule")),
  CommonRules |-> SEQUENCE(<<
    OPT("signerAndVeriferRules", EXPL(CTX, 0, R("rfc3125", "SignerAndVerifierRules"))),
    OPT("signingCertTrustCondition", EXPL(CTX, 1, R("rfc3125", "SigningCertTrustCondition"))),
    OPT("timeStampTrustCondition", EXPL(CTX, 2, R("rfc3125", "TimestampTrustCondition"))),
    OPT("attributeTrustCondition", EXPL(CTX, 3, R("rfc3125", "AttributeTrustCondition"))),
    OPT("algorithmConstraintSet", EXPL(CTX, 4, R("rfc3125", "AlgorithmConstraintSet"))),
    OPT("signPolExtensions", EXPL(CTX, 5, R("rfc3125", "SignPolExtensions")))>>),
  PolicyIssuerName |-> R("rfc5280", "GeneralNames"),
  SignPolicyHash |-> OCTET_STRING,
  SignPolicyId |-> OBJECT_IDENTIFIER,
  SigningPeriod |-> SEQUENCE(<<
    REQ("notBefore", GeneralizedTime),
    OPT("notAfter", GeneralizedTime)>>),
  SignatureValidationPolicy |-> SEQUENCE(<<
    REQ("signingPeriod", R("rfc3125", "SigningPeriod")),
    REQ("commonRules", R("rfc3125", "CommonRules")),
    REQ("commitmentRules", R("rfc3125", "CommitmentRules")),
    OPT("signPolExtensions", R("rfc3125", "SignPolExtensions"))>>),
  SignPolicyInfo |-> SEQUENCE(<<
    REQ("signPolicyIdentifier", R("rfc3125", "SignPolicyId")),
    REQ("dateOfIssue", GeneralizedTime),
    REQ("policyIssuerName", R("rfc3125", "PolicyIssuerName")),
    REQ("fieldOfApplication", R("rfc3125", "FieldOfApplication")),
    REQ("signatureValidationPolicy", R("rfc3125", "SignatureValidationPolicy")),
    OPT("signPolExtensions", R("rfc3125", "SignPolExtensions"))>>),
  SignaturePolicy |-> SEQUENCE(<<
    REQ("signPolicyHashAlg", R("rfc5280", "AlgorithmIdentifier")),
    REQ("signPolicyInfo", R("rfc3125", "SignPolicyInfo")),
    OPT("signPolicyHash", R("rfc3125", "SignPolicyHash"))>>)]

rfc3125_Values == [
  NoValues__ |-> CONST(NULL_T, VNULL)]

\* open type tables this module exports, with the table each one is
rfc3125_Tables == <<>>

\* what importing this module adds to the tables
rfc3125_Entries == <<
>>
=================================================================
