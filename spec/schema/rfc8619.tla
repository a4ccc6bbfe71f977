------------------------ MODULE rfc8619 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8619.txt
EXTENDS Asn1Notation

rfc8619_Imports == <<"rfc5280">>

rfc8619_StarImports == <<>>

rfc8619_Types == [
  NoTypes__ |-> NULL_T]

rfc8619_Values == [
  id_alg_hkdf_with_sha256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 28>>)),
  id_alg_hkdf_with_sha384 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 29>>)),
  id_alg_hkdf_with_sha512 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 30>>)),
  kda_hkdf_with_sha256 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 28>>))>>)),
  kda_hkdf_with_sha384 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 29>>))>>)),
  kda_hkdf_with_sha512 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 30>>))>>))]

\* open type tables this module exports, with the table each one is
rfc8619_Tables == <<>>

\* what importing this module adds to the tables
rfc8619_Entries == <<
>>
=================================================================
