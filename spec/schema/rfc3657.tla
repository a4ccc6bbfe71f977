------------------------ MODULE rfc3657 ------------------------
\* https://www.rfc-editor.org/rfc/rfc3657.txt
EXTENDS Asn1Notation

rfc3657_Imports == <<"rfc5280", "rfc5751">>

rfc3657_StarImports == <<>>

rfc3657_Types == [
  Camellia_IV |-> CON(OCTET_STRING, SIZE(16, 16)),
  CamelliaSMimeCapability |-> NULL_T]

rfc3657_Values == [
  id_camellia128_cbc |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 392, 200011, 61, 1, 1, 1, 2>>)),
  id_camellia192_cbc |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 392, 200011, 61, 1, 1, 1, 3>>)),
  id_camellia256_cbc |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 392, 200011, 61, 1, 1, 1, 4>>)),
  id_camellia128_wrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 392, 200011, 61, 1, 1, 3, 2>>)),
  id_camellia192_wrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 392, 200011, 61, 1, 1, 3, 3>>)),
  id_camellia256_wrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 392, 200011, 61, 1, 1, 3, 4>>))]

\* open type tables this module exports, with the table each one is
rfc3657_Tables == <<>>

\* what importing this module adds to the tables
rfc3657_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 392, 200011, 61, 1, 1, 1, 2>>), R("rfc3657", "Camellia_IV")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 392, 200011, 61, 1, 1, 1, 3>>), R("rfc3657", "Camellia_IV")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 392, 200011, 61, 1, 1, 1, 4>>), R("rfc3657", "Camellia_IV")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 2, 392, 200011, 61, 1, 1, 1, 2>>), R("rfc3657", "CamelliaSMimeCapability")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 2, 392, 200011, 61, 1, 1, 1, 3>>), R("rfc3657", "CamelliaSMimeCapability")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 2, 392, 200011, 61, 1, 1, 1, 4>>), R("rfc3657", "CamelliaSMimeCapability")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 2, 392, 200011, 61, 1, 1, 3, 2>>), R("rfc3657", "CamelliaSMimeCapability")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 2, 392, 200011, 61, 1, 1, 3, 3>>), R("rfc3657", "CamelliaSMimeCapability")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 2, 392, 200011, 61, 1, 1, 3, 4>>), R("rfc3657", "CamelliaSMimeCapability"))>>
=================================================================
