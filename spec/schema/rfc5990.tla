------------------------ MODULE rfc5990 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5990.txt
EXTENDS Asn1Notation

rfc5990_Imports == <<"rfc5280">>

rfc5990_StarImports == <<>>

rfc5990_Types == [
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  NullParms |-> NULL_T,
  Camellia_KeyWrappingScheme |-> R("rfc5280", "AlgorithmIdentifier"),
  DataEncapsulationMechanism |-> R("rfc5280", "AlgorithmIdentifier"),
  KDF2_HashFunction |-> R("rfc5280", "AlgorithmIdentifier"),
  KDF3_HashFunction |-> R("rfc5280", "AlgorithmIdentifier"),
  KeyDerivationFunction |-> R("rfc5280", "AlgorithmIdentifier"),
  KeyEncapsulationMechanism |-> R("rfc5280", "AlgorithmIdentifier"),
  X9_SymmetricKeyWrappingScheme |-> R("rfc5280", "AlgorithmIdentifier"),
  GenericHybridParameters |-> SEQUENCE(<<
    REQ("kem", R("rfc5990", "KeyEncapsulationMechanism")),
    REQ("dem", R("rfc5990", "DataEncapsulationMechanism"))>>),
  KeyLength |-> CON(INTEGER, RANGE(I(1), NOBOUND)),
  RsaKemParameters |-> SEQUENCE(<<
    REQ("keyDerivationFunction", R("rfc5990", "KeyDerivationFunction")),
    REQ("keyLength", R("rfc5990", "KeyLength"))>>)]

rfc5990_Values == [
  is18033_2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 0, 18033, 2>>)),
  nistAlgorithm |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4>>)),
  pkcs_1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1>>)),
  x9_44 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 133, 16, 840, 9, 44>>)),
  x9_44_components |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 133, 16, 840, 9, 44, 1>>)),
  id_rsa_kem |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 14>>)),
  rsa_kem |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 14>>))>>)),
  id_kem_rsa |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 0, 18033, 2, 2, 4>>)),
  kem_rsa |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 0, 18033, 2, 2, 4>>))>>)),
  id_kdf_kdf2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 133, 16, 840, 9, 44, 1, 1>>)),
  id_kdf_kdf3 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 133, 16, 840, 9, 44, 1, 2>>)),
  kdf2 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 3, 133, 16, 840, 9, 44, 1, 1>>))>>)),
  kdf3 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 3, 133, 16, 840, 9, 44, 1, 2>>))>>)),
  id_sha1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 14, 3, 2, 26>>)),
  id_sha224 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 4>>)),
  id_sha256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 1>>)),
  id_sha384 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 2>>)),
  id_sha512 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 3>>)),
  sha1 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 3, 14, 3, 2, 26>>)), FV("parameters", VANY(<<5, 0>>))>>)),
  sha224 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 4>>)), FV("parameters", VANY(<<5, 0>>))>>)),
  sha256 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 1>>)), FV("parameters", VANY(<<5, 0>>))>>)),
  sha384 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 2>>)), FV("parameters", VANY(<<5, 0>>))>>)),
  sha512 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 3>>)), FV("parameters", VANY(<<5, 0>>))>>)),
  id_aes128_Wrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 5>>)),
  id_aes192_Wrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 25>>)),
  id_aes256_Wrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 45>>)),
  id_alg_CMS3DESwrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 6>>)),
  id_camellia128_Wrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 392, 200011, 61, 1, 1, 3, 2>>)),
  id_camellia192_Wrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 392, 200011, 61, 1, 1, 3, 3>>)),
  id_camellia256_Wrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 392, 200011, 61, 1, 1, 3, 4>>)),
  aes128_Wrap |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 5>>))>>)),
  aes192_Wrap |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 25>>))>>)),
  aes256_Wrap |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 45>>))>>)),
  tdes_Wrap |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 6>>)), FV("parameters", VANY(<<5, 0>>))>>)),
  camellia128_Wrap |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 392, 200011, 61, 1, 1, 3, 2>>))>>)),
  camellia192_Wrap |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 392, 200011, 61, 1, 1, 3, 3>>))>>)),
  camellia256_Wrap |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 392, 200011, 61, 1, 1, 3, 4>>))>>))]

\* open type tables this module exports, with the table each one is
rfc5990_Tables == <<>>

\* what importing this module adds to the tables
rfc5990_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 14, 3, 2, 26>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 14>>), R("rfc5990", "GenericHybridParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 0, 18033, 2, 2, 4>>), R("rfc5990", "RsaKemParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 133, 16, 840, 9, 44, 1, 1>>), R("rfc5990", "KDF2_HashFunction")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 133, 16, 840, 9, 44, 1, 2>>), R("rfc5990", "KDF3_HashFunction")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 4>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 1>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 2>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 3>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 6>>), NULL_T)>>
=================================================================
