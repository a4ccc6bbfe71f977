------------------------ MODULE rfc8692 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8692.txt
EXTENDS Asn1Notation

rfc8692_Imports == <<"rfc4055", "rfc5280", "rfc5480">>

rfc8692_StarImports == <<>>

rfc8692_Types == [
  NoTypes__ |-> NULL_T]

rfc8692_Values == [
  id_shake128 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 11>>)),
  mda_shake128 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 11>>))>>)),
  id_shake256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 12>>)),
  mda_shake256 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 12>>))>>)),
  id_RSASSA_PSS_SHAKE128 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 30>>)),
  sa_rSASSA_PSS_SHAKE128 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 30>>))>>)),
  pk_rsaSSA_PSS_SHAKE128 |-> CONST(R("rfc4055", "RSAPublicKey"), VSEQ(<<>>)),
  id_RSASSA_PSS_SHAKE256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 31>>)),
  sa_rSASSA_PSS_SHAKE256 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 31>>))>>)),
  pk_rsaSSA_PSS_SHAKE256 |-> CONST(R("rfc4055", "RSAPublicKey"), VSEQ(<<>>)),
  id_ecdsa_with_shake128 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 32>>)),
  sa_ecdsa_with_shake128 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 32>>))>>)),
  pk_ec |-> SCHEMA(R("rfc3279", "ECPoint")),
  id_ecdsa_with_shake256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 33>>)),
  sa_ecdsa_with_shake256 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 33>>))>>))]

\* open type tables this module exports, with the table each one is
rfc8692_Tables == <<>>

\* what importing this module adds to the tables
rfc8692_Entries == <<
>>
=================================================================
