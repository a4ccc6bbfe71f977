------------------------ MODULE rfc6487 ------------------------
\* https://www.rfc-editor.org/rfc/rfc6487.txt
EXTENDS Asn1Notation

rfc6487_Imports == <<>>

rfc6487_StarImports == <<>>

rfc6487_Types == [
  NoTypes__ |-> NULL_T]

rfc6487_Values == [
  id_pkix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7>>)),
  id_ad |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48>>)),
  id_ad_rpkiManifest |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 10>>)),
  id_ad_signedObject |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 11>>))]

\* open type tables this module exports, with the table each one is
rfc6487_Tables == <<>>

\* what importing this module adds to the tables
rfc6487_Entries == <<
>>
=================================================================
