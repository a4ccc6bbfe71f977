------------------------ MODULE rfc6210 ------------------------
\* https://www.rfc-editor.org/rfc/rfc6210.txt
EXTENDS Asn1Notation

rfc6210_Imports == <<"rfc5280">>

rfc6210_StarImports == <<>>

rfc6210_Types == [
  MD5_XOR_EXPERIMENT |-> CON(OCTET_STRING, SIZE(64, 64))]

rfc6210_Values == [
  id_alg_MD5_XOR_EXPERIMENT |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 13>>)),
  mda_xor_md5_EXPERIMENT |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 13>>))>>))]

\* open type tables this module exports, with the table each one is
rfc6210_Tables == <<>>

\* what importing this module adds to the tables
rfc6210_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 13>>), R("rfc6210", "MD5_XOR_EXPERIMENT"))>>
=================================================================
