------------------------ MODULE rfc8702 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8702.txt
EXTENDS Asn1Notation

rfc8702_Imports == <<"rfc5280", "rfc8692">>

rfc8702_StarImports == <<>>

rfc8702_Types == [
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  KMACwithSHAKE128_params |-> SEQUENCE(<<
    DFLT("kMACOutputLength", INTEGER, VI(256)),
    DFLT("customizationString", OCTET_STRING, VOCT(<<>>))>>),
  KMACwithSHAKE256_params |-> SEQUENCE(<<
    DFLT("kMACOutputLength", INTEGER, VI(512)),
    DFLT("customizationString", OCTET_STRING, VOCT(<<>>))>>)]

rfc8702_Values == [
  id_shake128 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 11>>)),
  mda_shake128 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 11>>))>>)),
  id_shake256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 12>>)),
  mda_shake256 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 12>>))>>)),
  id_RSASSA_PSS_SHAKE128 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 30>>)),
  sa_rSASSA_PSS_SHAKE128 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 30>>))>>)),
  pk_rsaSSA_PSS_SHAKE128 |-> CONST(R("rfc4055", "RSAPublicKey"), VSEQ(<<>>)),
  id_RSASSA_PSS_SHAKE256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 31>>)),
  sa_rSASSA_PSS_SHAKE256 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 31>>))>>)),
  pk_rsaSSA_PSS_SHAKE256 |-> CONST(R("rfc4055", "RSAPublicKey"), VSEQ(<<>>)),
  id_ecdsa_with_shake128 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 32>>)),
  sa_ecdsa_with_shake128 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 32>>))>>)),
  id_ecdsa_with_shake256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 33>>)),
  sa_ecdsa_with_shake256 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 33>>))>>)),
  pk_ec |-> SCHEMA(R("rfc3279", "ECPoint")),
  id_KMACWithSHAKE128 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 19>>)),
  maca_KMACwithSHAKE128 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 19>>))>>)),
  id_KMACWithSHAKE256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 20>>)),
  maca_KMACwithSHAKE256 |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 20>>))>>))]

\* open type tables this module exports, with the table each one is
rfc8702_Tables == <<>>

\* what importing this module adds to the tables
rfc8702_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 19>>), R("rfc8702", "KMACwithSHAKE128_params")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 20>>), R("rfc8702", "KMACwithSHAKE256_params"))>>
=================================================================
