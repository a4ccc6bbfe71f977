------------------------ MODULE rfc5208 ------------------------
\* http://tools.ietf.org/html/rfc5208
EXTENDS Asn1Notation

rfc5208_Imports == <<"rfc2459">>

rfc5208_StarImports == <<"rfc2459">>

rfc5208_Types == [
  Version |-> NAMED(INTEGER, <<NV("v1", 0), NV("v2", 1)>>),
  KeyEncryptionAlgorithms |-> R("rfc2459", "AlgorithmIdentifier"),
  PrivateKeyAlgorithms |-> R("rfc2459", "AlgorithmIdentifier"),
  EncryptedData |-> OCTET_STRING,
  EncryptedPrivateKeyInfo |-> SEQUENCE(<<
    REQ("encryptionAlgorithm", R("rfc2459", "AlgorithmIdentifier")),
    REQ("encryptedData", R("rfc5208", "EncryptedData"))>>),
  PrivateKey |-> OCTET_STRING,
  Attributes |-> SET_OF(R("rfc2459", "Attribute")),
  PrivateKeyInfo |-> SEQUENCE(<<
    REQ("version", R("rfc5208", "Version")),
    REQ("privateKeyAlgorithm", R("rfc2459", "AlgorithmIdentifier")),
    REQ("privateKey", R("rfc5208", "PrivateKey")),
    OPT("attributes", IMPL(CTX, 0, R("rfc5208", "Attributes")))>>)]

rfc5208_Values == [
  NoValues__ |-> CONST(NULL_T, VNULL)]

\* open type tables this module exports, with the table each one is
rfc5208_Tables == <<>>

\* what importing this module adds to the tables
rfc5208_Entries == <<
>>
=================================================================
