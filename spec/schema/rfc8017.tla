------------------------ MODULE rfc8017 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8017.txt
EXTENDS Asn1Notation

rfc8017_Imports == <<"rfc2437", "rfc3447", "rfc4055", "rfc5280">>

rfc8017_StarImports == <<>>

rfc8017_Types == [
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  DigestAlgorithm |-> R("rfc5280", "AlgorithmIdentifier"),
  HashAlgorithm |-> R("rfc5280", "AlgorithmIdentifier"),
  MaskGenAlgorithm |-> R("rfc5280", "AlgorithmIdentifier"),
  PSourceAlgorithm |-> R("rfc5280", "AlgorithmIdentifier"),
  EncodingParameters |-> CON(OCTET_STRING, SIZE(0, MAXSIZE)),
  Version |-> NAMED(INTEGER, <<NV("two-prime", 0), NV("multi", 1)>>),
  TrailerField |-> NAMED(INTEGER, <<NV("trailerFieldBC", 1)>>),
  RSAPublicKey |-> R("rfc2437", "RSAPublicKey"),
  OtherPrimeInfo |-> R("rfc3447", "OtherPrimeInfo"),
  OtherPrimeInfos |-> R("rfc3447", "OtherPrimeInfos"),
  RSAPrivateKey |-> R("rfc3447", "RSAPrivateKey"),
  RSAES_OAEP_params |-> R("rfc4055", "RSAES_OAEP_params"),
  RSASSA_PSS_params |-> R("rfc4055", "RSASSA_PSS_params"),
  DigestInfo |-> SEQUENCE(<<
    REQ("digestAlgorithm", R("rfc8017", "DigestAlgorithm")),
    REQ("digest", OCTET_STRING)>>)]

rfc8017_Values == [
  hashAlgs |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2>>)),
  id_sha256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 1>>)),
  id_sha384 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 2>>)),
  id_sha512 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 3>>)),
  id_sha224 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 4>>)),
  id_sha512_224 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 5>>)),
  id_sha512_256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 6>>)),
  pkcs_1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1>>)),
  rsaEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 1>>)),
  id_RSAES_OAEP |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 7>>)),
  id_pSpecified |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 9>>)),
  id_RSASSA_PSS |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 10>>)),
  md2WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 2>>)),
  md5WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 4>>)),
  sha1WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 5>>)),
  sha224WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 14>>)),
  sha256WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 11>>)),
  sha384WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 12>>)),
  sha512WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 13>>)),
  sha512_224WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 15>>)),
  sha512_256WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 16>>)),
  id_sha1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 14, 3, 2, 26>>)),
  id_md2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 2, 2>>)),
  id_md5 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 2, 5>>)),
  id_mgf1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 8>>)),
  sha1 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 3, 14, 3, 2, 26>>)), FV("parameters", VANY(<<5, 0>>))>>)),
  SHA1Parameters |-> CONST(NULL_T, VNULL),
  mgf1SHA1 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 9, 6, 5, 43, 14, 3, 2, 26, 5, 0>>))>>)),
  pSpecifiedEmpty |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 9>>)), FV("parameters", VANY(<<4, 0>>))>>)),
  emptyString |-> CONST(R("rfc8017", "EncodingParameters"), VOCT(<<>>)),
  rSAES_OAEP_Default_Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 7>>)), FV("parameters", VANY(<<48, 0>>))>>)),
  rSASSA_PSS_Default_Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 10>>)), FV("parameters", VANY(<<48, 0>>))>>))]

\* open type tables this module exports, with the table each one is
rfc8017_Tables == <<>>

\* what importing this module adds to the tables
rfc8017_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 14, 3, 2, 26>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 2>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 4>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 5>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 4>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 1>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 2>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 3>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 8>>), R("rfc5280", "AlgorithmIdentifier")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 9>>), OCTET_STRING),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 7>>), R("rfc4055", "RSAES_OAEP_params")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 10>>), R("rfc4055", "RSASSA_PSS_params")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 5>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 6>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 14>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 11>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 12>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 13>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 15>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 16>>), NULL_T)>>
=================================================================
