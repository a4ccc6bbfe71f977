------------------------ MODULE rfc5753 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5753.txt
EXTENDS Asn1Notation

rfc5753_Imports == <<"rfc5280", "rfc5480", "rfc5652", "rfc5751", "rfc8018">>

rfc5753_StarImports == <<>>

rfc5753_Types == [
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  OriginatorPublicKey |-> R("rfc5652", "OriginatorPublicKey"),
  UserKeyingMaterial |-> R("rfc5652", "UserKeyingMaterial"),
  ECDSA_Sig_Value |-> R("rfc3279", "ECDSA_Sig_Value"),
  ECParameters |-> R("rfc5480", "ECParameters"),
  ECPoint |-> R("rfc3279", "ECPoint"),
  IV |-> OCTET_STRING,
  CBCParameter |-> R("rfc5753", "IV"),
  KeyWrapAlgorithm |-> R("rfc5280", "AlgorithmIdentifier"),
  ECC_CMS_SharedInfo |-> SEQUENCE(<<
    REQ("keyInfo", R("rfc5753", "KeyWrapAlgorithm")),
    OPT("entityUInfo", EXPL(CTX, 0, OCTET_STRING)),
    REQ("suppPubInfo", EXPL(CTX, 2, OCTET_STRING))>>),
  MQVuserKeyingMaterial |-> SEQUENCE(<<
    REQ("ephemeralPublicKey", R("rfc5652", "OriginatorPublicKey")),
    OPT("addedukm", EXPL(CTX, 0, R("rfc5652", "UserKeyingMaterial")))>>)]

rfc5753_Values == [
  id_ecPublicKey |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 2, 1>>)),
  id_hmacWithSHA224 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 2, 8>>)),
  id_hmacWithSHA256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 2, 9>>)),
  id_hmacWithSHA384 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 2, 10>>)),
  id_hmacWithSHA512 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 2, 11>>)),
  x9_63_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 133, 16, 840, 63, 0>>)),
  secg_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 1>>)),
  dhSinglePass_cofactorDH_sha1kdf_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 133, 16, 840, 63, 0, 3>>)),
  dhSinglePass_cofactorDH_sha224kdf_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 1, 14, 0>>)),
  dhSinglePass_cofactorDH_sha256kdf_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 1, 14, 1>>)),
  dhSinglePass_cofactorDH_sha384kdf_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 1, 14, 2>>)),
  dhSinglePass_cofactorDH_sha512kdf_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 1, 14, 3>>)),
  dhSinglePass_stdDH_sha1kdf_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 133, 16, 840, 63, 0, 2>>)),
  dhSinglePass_stdDH_sha224kdf_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 1, 11, 0>>)),
  dhSinglePass_stdDH_sha256kdf_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 1, 11, 1>>)),
  dhSinglePass_stdDH_sha384kdf_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 1, 11, 2>>)),
  dhSinglePass_stdDH_sha512kdf_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 1, 11, 3>>)),
  mqvSinglePass_sha1kdf_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 133, 16, 840, 63, 0, 16>>)),
  mqvSinglePass_sha224kdf_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 1, 15, 0>>)),
  mqvSinglePass_sha256kdf_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 1, 15, 1>>)),
  mqvSinglePass_sha384kdf_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 1, 15, 2>>)),
  mqvSinglePass_sha512kdf_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 1, 15, 3>>))]

\* open type tables this module exports, with the table each one is
rfc5753_Tables == <<>>

\* what importing this module adds to the tables
rfc5753_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 133, 16, 840, 63, 0, 2>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 132, 1, 11, 0>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 132, 1, 11, 1>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 132, 1, 11, 2>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 132, 1, 11, 3>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 133, 16, 840, 63, 0, 3>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 132, 1, 14, 0>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 132, 1, 14, 1>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 132, 1, 14, 2>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 132, 1, 14, 3>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 133, 16, 840, 63, 0, 16>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 132, 1, 15, 0>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 132, 1, 15, 1>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 132, 1, 15, 2>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 132, 1, 15, 3>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 3, 133, 16, 840, 63, 0, 2>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 3, 132, 1, 11, 0>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 3, 132, 1, 11, 1>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 3, 132, 1, 11, 2>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 3, 132, 1, 11, 3>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 3, 133, 16, 840, 63, 0, 3>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 3, 132, 1, 14, 0>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 3, 132, 1, 14, 1>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 3, 132, 1, 14, 2>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 3, 132, 1, 14, 3>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 3, 133, 16, 840, 63, 0, 16>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 3, 132, 1, 15, 0>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 3, 132, 1, 15, 1>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 3, 132, 1, 15, 2>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 3, 132, 1, 15, 3>>), R("rfc5753", "KeyWrapAlgorithm"))>>
=================================================================
