------------------------ MODULE rfc5958 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5958.txt
EXTENDS Asn1Notation

rfc5958_Imports == <<"rfc5280", "rfc5652">>

rfc5958_StarImports == <<>>

rfc5958_Types == [
  KeyEncryptionAlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  PrivateKeyAlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  EncryptedData |-> OCTET_STRING,
  EncryptedPrivateKeyInfo |-> SEQUENCE(<<
    REQ("encryptionAlgorithm", R("rfc5958", "KeyEncryptionAlgorithmIdentifier")),
    REQ("encryptedData", R("rfc5958", "EncryptedData"))>>),
  Version |-> NAMED(INTEGER, <<NV("v1", 0), NV("v2", 1)>>),
  PrivateKey |-> OCTET_STRING,
  Attributes |-> SET_OF(R("rfc5652", "Attribute")),
  PublicKey |-> BIT_STRING,
  OneAsymmetricKey |-> SEQUENCE(<<
    REQ("version", R("rfc5958", "Version")),
    REQ("privateKeyAlgorithm", R("rfc5958", "PrivateKeyAlgorithmIdentifier")),
    REQ("privateKey", R("rfc5958", "PrivateKey")),
    OPT("attributes", IMPL(CTX, 0, R("rfc5958", "Attributes"))),
    OPT("publicKey", IMPL(CTX, 1, R("rfc5958", "PublicKey")))>>),
  PrivateKeyInfo |-> R("rfc5958", "OneAsymmetricKey"),
  AsymmetricKeyPackage |-> CON(SEQUENCE_OF(R("rfc5958", "OneAsymmetricKey")), SIZE(1, MAXSIZE))]

rfc5958_Values == [
  id_ct_KP_aKeyPackage |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 78, 5>>))]

\* open type tables this module exports, with the table each one is
rfc5958_Tables == <<>>

\* what importing this module adds to the tables
rfc5958_Entries == <<
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 78, 5>>), R("rfc5958", "AsymmetricKeyPackage"))>>
=================================================================
