------------------------ MODULE rfc2314 ------------------------
\* http://tools.ietf.org/html/rfc2314
EXTENDS Asn1Notation

rfc2314_Imports == <<"rfc2459">>

rfc2314_StarImports == <<"rfc2459">>

rfc2314_Types == [
  Version |-> INTEGER,
  Attributes |-> SET_OF(R("rfc2459", "Attribute")),
  CertificationRequestInfo |-> SEQUENCE(<<
    REQ("version", R("rfc2314", "Version")),
    REQ("subject", R("rfc2459", "Name")),
    REQ("subjectPublicKeyInfo", R("rfc2459", "SubjectPublicKeyInfo")),
    REQ("attributes", IMPL(CTX, 0, R("rfc2314", "Attributes")))>>),
  Signature |-> BIT_STRING,
  SignatureAlgorithmIdentifier |-> R("rfc2459", "AlgorithmIdentifier"),
  CertificationRequest |-> SEQUENCE(<<
    REQ("certificationRequestInfo", R("rfc2314", "CertificationRequestInfo")),
    REQ("signatureAlgorithm", R("rfc2314", "SignatureAlgorithmIdentifier")),
    REQ("signature", R("rfc2314", "Signature"))>>)]

rfc2314_Values == [
  NoValues__ |-> CONST(NULL_T, VNULL)]

\* open type tables this module exports, with the table each one is
rfc2314_Tables == <<>>

\* what importing this module adds to the tables
rfc2314_Entries == <<
>>
=================================================================
