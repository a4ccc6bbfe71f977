------------------------ MODULE rfc8103 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8103.txt
EXTENDS Asn1Notation

rfc8103_Imports == <<>>

rfc8103_StarImports == <<>>

rfc8103_Types == [
  AEADChaCha20Poly1305Nonce |-> CON(OCTET_STRING, SIZE(12, 12))]

rfc8103_Values == [
  id_alg_AEADChaCha20Poly1305 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 18>>))]

\* open type tables this module exports, with the table each one is
rfc8103_Tables == <<>>

\* what importing this module adds to the tables
rfc8103_Entries == <<
>>
=================================================================
