------------------------ MODULE rfc4055 ------------------------
\* https://www.rfc-editor.org/rfc/rfc4055.txt
EXTENDS Asn1Notation

rfc4055_Imports == <<"rfc5280">>

rfc4055_StarImports == <<>>

rfc4055_Types == [
  RSAPublicKey |-> SEQUENCE(<<
    REQ("modulus", INTEGER),
    REQ("publicExponent", INTEGER)>>),
  HashAlgorithm |-> R("rfc5280", "AlgorithmIdentifier"),
  MaskGenAlgorithm |-> R("rfc5280", "AlgorithmIdentifier"),
  RSAES_OAEP_params |-> SEQUENCE(<<
    DFLT("hashFunc", EXPL(CTX, 0, R("rfc5280", "AlgorithmIdentifier")), VSEQ(<<FV("algorithm", VOID(<<1, 3, 14, 3, 2, 26>>)), FV("parameters", VANY(<<5, 0>>))>>)),
    DFLT("maskGenFunc", EXPL(CTX, 1, R("rfc5280", "AlgorithmIdentifier")), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 9, 6, 5, 43, 14, 3, 2, 26, 5, 0>>))>>)),
    DFLT("pSourceFunc", EXPL(CTX, 2, R("rfc5280", "AlgorithmIdentifier")), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 9>>)), FV("parameters", VANY(<<4, 0>>))>>))>>),
  RSASSA_PSS_params |-> SEQUENCE(<<
    DFLT("hashAlgorithm", EXPL(CTX, 0, R("rfc5280", "AlgorithmIdentifier")), VSEQ(<<FV("algorithm", VOID(<<1, 3, 14, 3, 2, 26>>)), FV("parameters", VANY(<<5, 0>>))>>)),
    DFLT("maskGenAlgorithm", EXPL(CTX, 1, R("rfc5280", "AlgorithmIdentifier")), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 9, 6, 5, 43, 14, 3, 2, 26, 5, 0>>))>>)),
    DFLT("saltLength", EXPL(CTX, 2, INTEGER), VI(20)),
    DFLT("trailerField", EXPL(CTX, 3, INTEGER), VI(1))>>)]

rfc4055_Values == [
  id_sha1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 14, 3, 2, 26>>)),
  id_sha256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 1>>)),
  id_sha384 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 2>>)),
  id_sha512 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 3>>)),
  id_sha224 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 4>>)),
  rsaEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 1>>)),
  id_mgf1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 8>>)),
  id_RSAES_OAEP |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 7>>)),
  id_pSpecified |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 9>>)),
  id_RSASSA_PSS |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 10>>)),
  sha256WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 11>>)),
  sha384WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 12>>)),
  sha512WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 13>>)),
  sha224WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 14>>)),
  sha1Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 3, 14, 3, 2, 26>>)), FV("parameters", VANY(<<5, 0>>))>>)),
  sha224Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 4>>)), FV("parameters", VANY(<<5, 0>>))>>)),
  sha256Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 1>>)), FV("parameters", VANY(<<5, 0>>))>>)),
  sha384Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 2>>)), FV("parameters", VANY(<<5, 0>>))>>)),
  sha512Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 3>>)), FV("parameters", VANY(<<5, 0>>))>>)),
  mgf1SHA1Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 9, 6, 5, 43, 14, 3, 2, 26, 5, 0>>))>>)),
  mgf1SHA224Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 4, 5, 0>>))>>)),
  mgf1SHA256Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 1, 5, 0>>))>>)),
  mgf1SHA384Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 2, 5, 0>>))>>)),
  mgf1SHA512Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 3, 5, 0>>))>>)),
  pSpecifiedEmptyIdentifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 9>>)), FV("parameters", VANY(<<4, 0>>))>>)),
  rSAES_OAEP_Default_Params |-> CONST(R("rfc4055", "RSAES_OAEP_params"), VSEQ(<<>>)),
  rSAES_OAEP_Default_Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 7>>)), FV("parameters", VANY(<<48, 0>>))>>)),
  rSAES_OAEP_SHA224_Params |-> CONST(R("rfc4055", "RSAES_OAEP_params"), VSEQ(<<FV("hashFunc", VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 4>>)), FV("parameters", VANY(<<5, 0>>))>>)), FV("maskGenFunc", VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 4, 5, 0>>))>>))>>)),
  rSAES_OAEP_SHA224_Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 7>>)), FV("parameters", VANY(<<48, 47, 160, 15, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 4, 5, 0, 161, 28, 48, 26, 6, 9, 42, 134, 72, 134, 247, 13, 1, 1, 8, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 4, 5, 0>>))>>)),
  rSAES_OAEP_SHA256_Params |-> CONST(R("rfc4055", "RSAES_OAEP_params"), VSEQ(<<FV("hashFunc", VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 1>>)), FV("parameters", VANY(<<5, 0>>))>>)), FV("maskGenFunc", VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 1, 5, 0>>))>>))>>)),
  rSAES_OAEP_SHA256_Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 7>>)), FV("parameters", VANY(<<48, 47, 160, 15, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 1, 5, 0, 161, 28, 48, 26, 6, 9, 42, 134, 72, 134, 247, 13, 1, 1, 8, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 1, 5, 0>>))>>)),
  rSAES_OAEP_SHA384_Params |-> CONST(R("rfc4055", "RSAES_OAEP_params"), VSEQ(<<FV("hashFunc", VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 2>>)), FV("parameters", VANY(<<5, 0>>))>>)), FV("maskGenFunc", VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 2, 5, 0>>))>>))>>)),
  rSAES_OAEP_SHA384_Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 7>>)), FV("parameters", VANY(<<48, 47, 160, 15, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 2, 5, 0, 161, 28, 48, 26, 6, 9, 42, 134, 72, 134, 247, 13, 1, 1, 8, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 2, 5, 0>>))>>)),
  rSAES_OAEP_SHA512_Params |-> CONST(R("rfc4055", "RSAES_OAEP_params"), VSEQ(<<FV("hashFunc", VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 3>>)), FV("parameters", VANY(<<5, 0>>))>>)), FV("maskGenFunc", VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 3, 5, 0>>))>>))>>)),
  rSAES_OAEP_SHA512_Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 7>>)), FV("parameters", VANY(<<48, 47, 160, 15, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 3, 5, 0, 161, 28, 48, 26, 6, 9, 42, 134, 72, 134, 247, 13, 1, 1, 8, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 3, 5, 0>>))>>)),
  rSASSA_PSS_Default_Params |-> CONST(R("rfc4055", "RSASSA_PSS_params"), VSEQ(<<>>)),
  rSASSA_PSS_Default_Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 10>>)), FV("parameters", VANY(<<48, 0>>))>>)),
  rSASSA_PSS_SHA224_Params |-> CONST(R("rfc4055", "RSASSA_PSS_params"), VSEQ(<<FV("hashAlgorithm", VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 4>>)), FV("parameters", VANY(<<5, 0>>))>>)), FV("maskGenAlgorithm", VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 4, 5, 0>>))>>))>>)),
  rSASSA_PSS_SHA224_Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 10>>)), FV("parameters", VANY(<<48, 47, 160, 15, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 4, 5, 0, 161, 28, 48, 26, 6, 9, 42, 134, 72, 134, 247, 13, 1, 1, 8, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 4, 5, 0>>))>>)),
  rSASSA_PSS_SHA256_Params |-> CONST(R("rfc4055", "RSASSA_PSS_params"), VSEQ(<<FV("hashAlgorithm", VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 1>>)), FV("parameters", VANY(<<5, 0>>))>>)), FV("maskGenAlgorithm", VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 1, 5, 0>>))>>))>>)),
  rSASSA_PSS_SHA256_Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 10>>)), FV("parameters", VANY(<<48, 47, 160, 15, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 1, 5, 0, 161, 28, 48, 26, 6, 9, 42, 134, 72, 134, 247, 13, 1, 1, 8, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 1, 5, 0>>))>>)),
  rSASSA_PSS_SHA384_Params |-> CONST(R("rfc4055", "RSASSA_PSS_params"), VSEQ(<<FV("hashAlgorithm", VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 2>>)), FV("parameters", VANY(<<5, 0>>))>>)), FV("maskGenAlgorithm", VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 2, 5, 0>>))>>))>>)),
  rSASSA_PSS_SHA384_Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 10>>)), FV("parameters", VANY(<<48, 47, 160, 15, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 2, 5, 0, 161, 28, 48, 26, 6, 9, 42, 134, 72, 134, 247, 13, 1, 1, 8, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 2, 5, 0>>))>>)),
  rSASSA_PSS_SHA512_Params |-> CONST(R("rfc4055", "RSASSA_PSS_params"), VSEQ(<<FV("hashAlgorithm", VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 3>>)), FV("parameters", VANY(<<5, 0>>))>>)), FV("maskGenAlgorithm", VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 3, 5, 0>>))>>))>>)),
  rSASSA_PSS_SHA512_Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 10>>)), FV("parameters", VANY(<<48, 47, 160, 15, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 3, 5, 0, 161, 28, 48, 26, 6, 9, 42, 134, 72, 134, 247, 13, 1, 1, 8, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 3, 5, 0>>))>>))]

\* open type tables this module exports, with the table each one is
rfc4055_Tables == <<>>

\* what importing this module adds to the tables
rfc4055_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 14, 3, 2, 26>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 4>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 1>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 2>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 3>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 8>>), R("rfc5280", "AlgorithmIdentifier")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 9>>), OCTET_STRING),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 7>>), R("rfc4055", "RSAES_OAEP_params")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 10>>), R("rfc4055", "RSASSA_PSS_params"))>>
=================================================================
