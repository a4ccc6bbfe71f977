------------------------ MODULE rfc8419 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8419.txt
\* https://www.rfc-editor.org/errata/eid5869
EXTENDS Asn1Notation

rfc8419_Imports == <<"rfc5280">>

rfc8419_StarImports == <<>>

rfc8419_Types == [
  ShakeOutputLen |-> INTEGER]

rfc8419_Values == [
  id_Ed25519 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 101, 112>>)),
  sigAlg_Ed25519 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 3, 101, 112>>))>>)),
  id_Ed448 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 101, 113>>)),
  sigAlg_Ed448 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 3, 101, 113>>))>>)),
  hashAlgs |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2>>)),
  id_sha512 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 3>>)),
  hashAlg_SHA_512 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 3>>))>>)),
  id_shake256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 12>>)),
  hashAlg_SHAKE256 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 12>>))>>)),
  id_shake256_len |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 18>>)),
  hashAlg_SHAKE256_LEN |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 18>>))>>))]

\* open type tables this module exports, with the table each one is
rfc8419_Tables == <<>>

\* what importing this module adds to the tables
rfc8419_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 18>>), R("rfc8419", "ShakeOutputLen"))>>
=================================================================
