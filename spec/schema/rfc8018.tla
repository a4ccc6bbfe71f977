------------------------ MODULE rfc8018 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8018.txt
EXTENDS Asn1Notation

rfc8018_Imports == <<"rfc3565", "rfc5280">>

rfc8018_StarImports == <<>>

rfc8018_Types == [
  AES_IV |-> CON(OCTET_STRING, SIZE(16, 16)),
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  PBEParameter |-> SEQUENCE(<<
    REQ("salt", CON(OCTET_STRING, SIZE(8, 8))),
    REQ("iterationCount", INTEGER)>>),
  PBES2_params |-> SEQUENCE(<<
    REQ("keyDerivationFunc", R("rfc5280", "AlgorithmIdentifier")),
    REQ("encryptionScheme", R("rfc5280", "AlgorithmIdentifier"))>>),
  PBMAC1_params |-> SEQUENCE(<<
    REQ("keyDerivationFunc", R("rfc5280", "AlgorithmIdentifier")),
    REQ("messageAuthScheme", R("rfc5280", "AlgorithmIdentifier"))>>),
  PBKDF2_params |-> SEQUENCE(<<
    REQ("salt", CHOICE(<<
        REQ("specified", OCTET_STRING),
        REQ("otherSource", R("rfc5280", "AlgorithmIdentifier"))>>)),
    REQ("iterationCount", CON(INTEGER, RANGE(I(1), NOBOUND))),
    OPT("keyLength", CON(INTEGER, RANGE(I(1), NOBOUND))),
    DFLT("prf", R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 2, 7>>)), FV("parameters", VANY(<<5, 0>>))>>))>>),
  RC2_CBC_Parameter |-> SEQUENCE(<<
    OPT("rc2ParameterVersion", INTEGER),
    REQ("iv", CON(OCTET_STRING, SIZE(8, 8)))>>),
  RC5_CBC_Parameters |-> SEQUENCE(<<
    REQ("version", CON(NAMED(INTEGER, <<NV("v1_0", 16)>>), VALUES(<<VI(16)>>))),
    REQ("rounds", CON(INTEGER, RANGE(I(8), I(127)))),
    REQ("blockSizeInBits", CON(INTEGER, VALUES(<<VI(64), VI(128)>>))),
    OPT("iv", OCTET_STRING)>>),
  DES_IV |-> CON(OCTET_STRING, SIZE(8, 8))]

rfc8018_Values == [
  nistAlgorithms |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4>>)),
  aes |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1>>)),
  oiw |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 14>>)),
  rsadsi |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549>>)),
  pkcs |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1>>)),
  digestAlgorithm |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 2>>)),
  encryptionAlgorithm |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 3>>)),
  pkcs_5 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 5>>)),
  id_hmacWithSHA1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 2, 7>>)),
  id_hmacWithSHA224 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 2, 8>>)),
  id_hmacWithSHA256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 2, 9>>)),
  id_hmacWithSHA384 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 2, 10>>)),
  id_hmacWithSHA512 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 2, 11>>)),
  id_hmacWithSHA512_224 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 2, 12>>)),
  id_hmacWithSHA512_256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 2, 13>>)),
  pbeWithMD2AndDES_CBC |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 5, 1>>)),
  pbeWithMD2AndRC2_CBC |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 5, 4>>)),
  pbeWithMD5AndDES_CBC |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 5, 3>>)),
  pbeWithMD5AndRC2_CBC |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 5, 6>>)),
  pbeWithSHA1AndDES_CBC |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 5, 10>>)),
  pbeWithSHA1AndRC2_CBC |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 5, 11>>)),
  desCBC |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 14, 3, 2, 7>>)),
  des_EDE3_CBC |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 3, 7>>)),
  rc2CBC |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 3, 2>>)),
  rc5_CBC_PAD |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 3, 9>>)),
  aes128_CBC_PAD |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 2>>)),
  aes192_CBC_PAD |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 22>>)),
  aes256_CBC_PAD |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 42>>)),
  id_PBES2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 5, 13>>)),
  id_PBMAC1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 5, 14>>)),
  id_PBKDF2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 5, 12>>)),
  algid_hmacWithSHA1 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 2, 7>>)), FV("parameters", VANY(<<5, 0>>))>>))]

\* open type tables this module exports, with the table each one is
rfc8018_Tables == <<>>

\* what importing this module adds to the tables
rfc8018_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 2>>), R("rfc8018", "AES_IV")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 22>>), R("rfc8018", "AES_IV")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 42>>), R("rfc8018", "AES_IV")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 2, 7>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 2, 8>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 2, 9>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 2, 10>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 2, 11>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 2, 12>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 2, 13>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 5, 1>>), R("rfc8018", "PBEParameter")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 5, 4>>), R("rfc8018", "PBEParameter")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 5, 3>>), R("rfc8018", "PBEParameter")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 5, 6>>), R("rfc8018", "PBEParameter")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 5, 10>>), R("rfc8018", "PBEParameter")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 5, 11>>), R("rfc8018", "PBEParameter")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 5, 13>>), R("rfc8018", "PBES2_params")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 5, 12>>), R("rfc8018", "PBKDF2_params")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 5, 14>>), R("rfc8018", "PBMAC1_params")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 14, 3, 2, 7>>), R("rfc8018", "DES_IV")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 3, 7>>), R("rfc8018", "DES_IV")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 3, 2>>), R("rfc8018", "RC2_CBC_Parameter")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 3, 9>>), R("rfc8018", "RC5_CBC_Parameters"))>>
=================================================================
