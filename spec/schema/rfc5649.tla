------------------------ MODULE rfc5649 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5649.txt
EXTENDS Asn1Notation

rfc5649_Imports == <<"rfc5280">>

rfc5649_StarImports == <<>>

rfc5649_Types == [
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier")]

rfc5649_Values == [
  id_aes128_wrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 5>>)),
  id_aes192_wrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 25>>)),
  id_aes256_wrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 45>>)),
  id_aes128_wrap_pad |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 8>>)),
  id_aes192_wrap_pad |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 28>>)),
  id_aes256_wrap_pad |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 48>>))]

\* open type tables this module exports, with the table each one is
rfc5649_Tables == <<>>

\* what importing this module adds to the tables
rfc5649_Entries == <<
>>
=================================================================
