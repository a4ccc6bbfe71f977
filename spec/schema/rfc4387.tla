------------------------ MODULE rfc4387 ------------------------
\* https://www.rfc-editor.org/rfc/rfc4387.txt
\* id_ad_http_certs = id_ad + (6, )
\* id_ad_http_crls = id_ad  + (7,)
EXTENDS Asn1Notation

rfc4387_Imports == <<>>

rfc4387_StarImports == <<>>

rfc4387_Types == [
  NoTypes__ |-> NULL_T]

rfc4387_Values == [
  id_ad |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48>>)),
  id_ad_http_certs |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 6>>)),
  id_ad_http_crls |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 7>>))]

\* open type tables this module exports, with the table each one is
rfc4387_Tables == <<>>

\* what importing this module adds to the tables
rfc4387_Entries == <<
>>
=================================================================
