------------------------ MODULE rfc6187 ------------------------
\* https://www.rfc-editor.org/rfc/rfc6187.txt
EXTENDS Asn1Notation

rfc6187_Imports == <<>>

rfc6187_StarImports == <<>>

rfc6187_Types == [
  NoTypes__ |-> NULL_T]

rfc6187_Values == [
  id_pkix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7>>)),
  id_kp |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3>>)),
  id_kp_secureShellClient |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 21>>)),
  id_kp_secureShellServer |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 22>>))]

\* open type tables this module exports, with the table each one is
rfc6187_Tables == <<>>

\* what importing this module adds to the tables
rfc6187_Entries == <<
>>
=================================================================
