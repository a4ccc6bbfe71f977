------------------------ MODULE rfc4476 ------------------------
\* https://www.rfc-editor.org/rfc/rfc4476.txt
EXTENDS Asn1Notation

rfc4476_Imports == <<"rfc5280">>

rfc4476_StarImports == <<>>

rfc4476_Types == [
  PolicyQualifierId |-> R("rfc5280", "PolicyQualifierId"),
  PolicyQualifierInfo |-> R("rfc5280", "PolicyQualifierInfo"),
  UserNotice |-> R("rfc5280", "UserNotice"),
  ACUserNotice |-> R("rfc5280", "UserNotice"),
  ACPSuri |-> IA5String,
  AcPolicyId |-> OBJECT_IDENTIFIER,
  PolicyInformation |-> SEQUENCE(<<
    REQ("policyIdentifier", R("rfc4476", "AcPolicyId")),
    OPT("policyQualifiers", CON(SEQUENCE_OF(R("rfc5280", "PolicyQualifierInfo")), SIZE(1, MAXSIZE)))>>),
  AcPoliciesSyntax |-> CON(SEQUENCE_OF(R("rfc4476", "PolicyInformation")), SIZE(1, MAXSIZE))]

rfc4476_Values == [
  id_pkix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7>>)),
  id_pe |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1>>)),
  id_pe_acPolicies |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 15>>)),
  id_qt |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 2>>)),
  id_qt_acps |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 2, 4>>)),
  id_qt_acunotice |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 2, 5>>))]

\* open type tables this module exports, with the table each one is
rfc4476_Tables == <<>>

\* what importing this module adds to the tables
rfc4476_Entries == <<
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 15>>), R("rfc4476", "AcPoliciesSyntax")),
  ENTRY("rfc5280", "policyQualifierInfoMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 2, 4>>), R("rfc4476", "ACPSuri")),
  ENTRY("rfc5280", "policyQualifierInfoMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 2, 5>>), R("rfc5280", "UserNotice"))>>
=================================================================
