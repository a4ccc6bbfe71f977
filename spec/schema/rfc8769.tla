------------------------ MODULE rfc8769 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8769.txt
EXTENDS Asn1Notation

rfc8769_Imports == <<>>

rfc8769_StarImports == <<>>

rfc8769_Types == [
  NoTypes__ |-> NULL_T]

rfc8769_Values == [
  id_ct_cbor |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 44>>)),
  id_ct_cborSequence |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 45>>))]

\* open type tables this module exports, with the table each one is
rfc8769_Tables == <<>>

\* what importing this module adds to the tables
rfc8769_Entries == <<
>>
=================================================================
