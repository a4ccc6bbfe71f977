------------------------ MODULE rfc5924 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5924.txt
EXTENDS Asn1Notation

rfc5924_Imports == <<>>

rfc5924_StarImports == <<>>

rfc5924_Types == [
  NoTypes__ |-> NULL_T]

rfc5924_Values == [
  id_kp |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3>>)),
  id_kp_sipDomain |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 20>>))]

\* open type tables this module exports, with the table each one is
rfc5924_Tables == <<>>

\* what importing this module adds to the tables
rfc5924_Entries == <<
>>
=================================================================
