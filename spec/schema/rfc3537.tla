------------------------ MODULE rfc3537 ------------------------
\* https://www.rfc-editor.org/rfc/rfc4010.txt
EXTENDS Asn1Notation

rfc3537_Imports == <<"rfc5280">>

rfc3537_StarImports == <<>>

rfc3537_Types == [
  NoTypes__ |-> NULL_T]

rfc3537_Values == [
  id_alg_HMACwith3DESwrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 11>>)),
  id_alg_HMACwithAESwrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 12>>))]

\* open type tables this module exports, with the table each one is
rfc3537_Tables == <<>>

\* what importing this module adds to the tables
rfc3537_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 11>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 12>>), NULL_T)>>
=================================================================
