------------------------ MODULE rfc6170 ------------------------
\* https://www.rfc-editor.org/rfc/rfc6170.txt
EXTENDS Asn1Notation

rfc6170_Imports == <<>>

rfc6170_StarImports == <<>>

rfc6170_Types == [
  NoTypes__ |-> NULL_T]

rfc6170_Values == [
  id_logo_certImage |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 20, 3>>))]

\* open type tables this module exports, with the table each one is
rfc6170_Tables == <<>>

\* what importing this module adds to the tables
rfc6170_Entries == <<
>>
=================================================================
