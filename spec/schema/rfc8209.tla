------------------------ MODULE rfc8209 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8209.txt
EXTENDS Asn1Notation

rfc8209_Imports == <<>>

rfc8209_StarImports == <<>>

rfc8209_Types == [
  NoTypes__ |-> NULL_T]

rfc8209_Values == [
  id_kp |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3>>)),
  id_kp_bgpsec_router |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 30>>))]

\* open type tables this module exports, with the table each one is
rfc8209_Tables == <<>>

\* what importing this module adds to the tables
rfc8209_Entries == <<
>>
=================================================================
