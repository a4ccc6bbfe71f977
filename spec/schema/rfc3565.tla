------------------------ MODULE rfc3565 ------------------------
\* https://www.rfc-editor.org/rfc/rfc3565.txt
EXTENDS Asn1Notation

rfc3565_Imports == <<"rfc5280">>

rfc3565_StarImports == <<>>

rfc3565_Types == [
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  AES_IV |-> CON(OCTET_STRING, SIZE(16, 16))]

rfc3565_Values == [
  id_aes128_CBC |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 2>>)),
  id_aes192_CBC |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 22>>)),
  id_aes256_CBC |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 42>>)),
  id_aes128_wrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 5>>)),
  id_aes192_wrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 25>>)),
  id_aes256_wrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 45>>))]

\* open type tables this module exports, with the table each one is
rfc3565_Tables == <<>>

\* what importing this module adds to the tables
rfc3565_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 2>>), R("rfc3565", "AES_IV")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 22>>), R("rfc3565", "AES_IV")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 42>>), R("rfc3565", "AES_IV")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 5>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 25>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 45>>), NULL_T)>>
=================================================================
