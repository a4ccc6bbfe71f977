------------------------ MODULE rfc8418 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8418.txt
EXTENDS Asn1Notation

rfc8418_Imports == <<"rfc5280">>

rfc8418_StarImports == <<>>

rfc8418_Types == [
  KeyEncryptionAlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  KeyWrapAlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier")]

rfc8418_Values == [
  dhSinglePass_stdDH_sha256kdf_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 133, 16, 840, 63, 0, 11, 1>>)),
  dhSinglePass_stdDH_sha384kdf_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 133, 16, 840, 63, 0, 11, 2>>)),
  dhSinglePass_stdDH_sha512kdf_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 133, 16, 840, 63, 0, 11, 3>>)),
  dhSinglePass_stdDH_hkdf_sha256_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 19>>)),
  dhSinglePass_stdDH_hkdf_sha384_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 20>>)),
  dhSinglePass_stdDH_hkdf_sha512_scheme |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 21>>))]

\* open type tables this module exports, with the table each one is
rfc8418_Tables == <<>>

\* what importing this module adds to the tables
rfc8418_Entries == <<
>>
=================================================================
