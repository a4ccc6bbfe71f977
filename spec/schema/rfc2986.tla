------------------------ MODULE rfc2986 ------------------------
\* https://www.rfc-editor.org/rfc/rfc2986.txt
EXTENDS Asn1Notation

rfc2986_Imports == <<"rfc5280">>

rfc2986_StarImports == <<>>

rfc2986_Types == [
  AttributeType |-> R("rfc5280", "AttributeType"),
  AttributeValue |-> R("rfc5280", "AttributeValue"),
  AttributeTypeAndValue |-> R("rfc5280", "AttributeTypeAndValue"),
  Attribute |-> R("rfc5280", "Attribute"),
  RelativeDistinguishedName |-> R("rfc5280", "RelativeDistinguishedName"),
  RDNSequence |-> R("rfc5280", "RDNSequence"),
  Name |-> R("rfc5280", "Name"),
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  SubjectPublicKeyInfo |-> R("rfc5280", "SubjectPublicKeyInfo"),
  Attributes |-> SET_OF(R("rfc5280", "Attribute")),
  CertificationRequestInfo |-> SEQUENCE(<<
    REQ("version", INTEGER),
    REQ("subject", R("rfc5280", "Name")),
    REQ("subjectPKInfo", R("rfc5280", "SubjectPublicKeyInfo")),
    REQ("attributes", IMPL(CTX, 0, R("rfc2986", "Attributes")))>>),
  CertificationRequest |-> SEQUENCE(<<
    REQ("certificationRequestInfo", R("rfc2986", "CertificationRequestInfo")),
    REQ("signatureAlgorithm", R("rfc5280", "AlgorithmIdentifier")),
    REQ("signature", BIT_STRING)>>)]

rfc2986_Values == [
  NoValues__ |-> CONST(NULL_T, VNULL)]

\* open type tables this module exports, with the table each one is
rfc2986_Tables == <<>>

\* what importing this module adds to the tables
rfc2986_Entries == <<
>>
=================================================================
