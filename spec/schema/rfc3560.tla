------------------------ MODULE rfc3560 ------------------------
\* https://www.rfc-editor.org/rfc/rfc3560.txt
EXTENDS Asn1Notation

rfc3560_Imports == <<"rfc4055">>

rfc3560_StarImports == <<>>

rfc3560_Types == [
  RSAES_OAEP_params |-> R("rfc4055", "RSAES_OAEP_params")]

rfc3560_Values == [
  id_sha1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 14, 3, 2, 26>>)),
  id_sha256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 1>>)),
  id_sha384 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 2>>)),
  id_sha512 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 3>>)),
  id_mgf1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 8>>)),
  rsaEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 1>>)),
  id_RSAES_OAEP |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 7>>)),
  id_pSpecified |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 9>>)),
  sha1Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 3, 14, 3, 2, 26>>)), FV("parameters", VANY(<<5, 0>>))>>)),
  sha256Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 1>>)), FV("parameters", VANY(<<5, 0>>))>>)),
  sha384Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 2>>)), FV("parameters", VANY(<<5, 0>>))>>)),
  sha512Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 3>>)), FV("parameters", VANY(<<5, 0>>))>>)),
  mgf1SHA1Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 9, 6, 5, 43, 14, 3, 2, 26, 5, 0>>))>>)),
  mgf1SHA256Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 1, 5, 0>>))>>)),
  mgf1SHA384Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 2, 5, 0>>))>>)),
  mgf1SHA512Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 3, 5, 0>>))>>)),
  pSpecifiedEmptyIdentifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 9>>)), FV("parameters", VANY(<<4, 0>>))>>)),
  rSAES_OAEP_Default_Params |-> CONST(R("rfc3560", "RSAES_OAEP_params"), VSEQ(<<>>)),
  rSAES_OAEP_Default_Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 7>>)), FV("parameters", VANY(<<48, 0>>))>>)),
  rSAES_OAEP_SHA256_Params |-> CONST(R("rfc4055", "RSAES_OAEP_params"), VSEQ(<<FV("hashFunc", VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 1>>)), FV("parameters", VANY(<<5, 0>>))>>)), FV("maskGenFunc", VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 1, 5, 0>>))>>))>>)),
  rSAES_OAEP_SHA256_Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 7>>)), FV("parameters", VANY(<<48, 47, 160, 15, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 1, 5, 0, 161, 28, 48, 26, 6, 9, 42, 134, 72, 134, 247, 13, 1, 1, 8, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 1, 5, 0>>))>>)),
  rSAES_OAEP_SHA384_Params |-> CONST(R("rfc4055", "RSAES_OAEP_params"), VSEQ(<<FV("hashFunc", VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 2>>)), FV("parameters", VANY(<<5, 0>>))>>)), FV("maskGenFunc", VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 2, 5, 0>>))>>))>>)),
  rSAES_OAEP_SHA384_Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 7>>)), FV("parameters", VANY(<<48, 47, 160, 15, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 2, 5, 0, 161, 28, 48, 26, 6, 9, 42, 134, 72, 134, 247, 13, 1, 1, 8, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 2, 5, 0>>))>>)),
  rSAES_OAEP_SHA512_Params |-> CONST(R("rfc4055", "RSAES_OAEP_params"), VSEQ(<<FV("hashFunc", VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 3>>)), FV("parameters", VANY(<<5, 0>>))>>)), FV("maskGenFunc", VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 3, 5, 0>>))>>))>>)),
  rSAES_OAEP_SHA512_Identifier |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 7>>)), FV("parameters", VANY(<<48, 47, 160, 15, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 3, 5, 0, 161, 28, 48, 26, 6, 9, 42, 134, 72, 134, 247, 13, 1, 1, 8, 48, 13, 6, 9, 96, 134, 72, 1, 101, 3, 4, 2, 3, 5, 0>>))>>))]

\* open type tables this module exports, with the table each one is
rfc3560_Tables == <<>>

\* what importing this module adds to the tables
rfc3560_Entries == <<
>>
=================================================================
