------------------------ MODULE rfc5084 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5084.txt
EXTENDS Asn1Notation

rfc5084_Imports == <<"rfc5280">>

rfc5084_StarImports == <<>>

rfc5084_Types == [
  AES_CCM_ICVlen |-> CON(INTEGER, VALUES(<<VI(4), VI(6), VI(8), VI(10), VI(12), VI(14), VI(16)>>)),
  AES_GCM_ICVlen |-> CON(INTEGER, RANGE(I(12), I(16))),
  CCMParameters |-> SEQUENCE(<<
    REQ("aes-nonce", CON(OCTET_STRING, SIZE(7, 13))),
    DFLT("aes-ICVlen", R("rfc5084", "AES_CCM_ICVlen"), VI(12))>>),
  GCMParameters |-> SEQUENCE(<<
    REQ("aes-nonce", OCTET_STRING),
    DFLT("aes-ICVlen", R("rfc5084", "AES_GCM_ICVlen"), VI(12))>>)]

rfc5084_Values == [
  aes |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1>>)),
  id_aes128_CCM |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 7>>)),
  id_aes128_GCM |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 6>>)),
  id_aes192_CCM |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 27>>)),
  id_aes192_GCM |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 26>>)),
  id_aes256_CCM |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 47>>)),
  id_aes256_GCM |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 46>>))]

\* open type tables this module exports, with the table each one is
rfc5084_Tables == <<>>

\* what importing this module adds to the tables
rfc5084_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 7>>), R("rfc5084", "CCMParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 6>>), R("rfc5084", "GCMParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 27>>), R("rfc5084", "CCMParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 26>>), R("rfc5084", "GCMParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 47>>), R("rfc5084", "CCMParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 46>>), R("rfc5084", "GCMParameters"))>>
=================================================================
