------------------------ MODULE rfc8410 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8410.txt
EXTENDS Asn1Notation

rfc8410_Imports == <<"rfc3565", "rfc4055", "rfc5280">>

rfc8410_StarImports == <<>>

rfc8410_Types == [
  SignatureAlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  KeyEncryptionAlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  CurvePrivateKey |-> OCTET_STRING]

rfc8410_Values == [
  id_X25519 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 101, 110>>)),
  id_X448 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 101, 111>>)),
  id_Ed25519 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 101, 112>>)),
  id_Ed448 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 101, 113>>)),
  id_sha512 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 3>>)),
  id_aes128_wrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 5>>)),
  id_aes256_wrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 1, 45>>))]

\* open type tables this module exports, with the table each one is
rfc8410_Tables == <<>>

\* what importing this module adds to the tables
rfc8410_Entries == <<
>>
=================================================================
