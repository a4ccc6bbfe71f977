------------------------ MODULE rfc8649 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8649.txt
EXTENDS Asn1Notation

rfc8649_Imports == <<"rfc5280">>

rfc8649_StarImports == <<>>

rfc8649_Types == [
  HashedRootKey |-> SEQUENCE(<<
    REQ("hashAlg", R("rfc5280", "AlgorithmIdentifier")),
    REQ("hashValue", OCTET_STRING)>>)]

rfc8649_Values == [
  id_ce_hashOfRootKey |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 4, 1, 51483, 2, 1>>))]

\* open type tables this module exports, with the table each one is
rfc8649_Tables == <<>>

\* what importing this module adds to the tables
rfc8649_Entries == <<
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 4, 1, 51483, 2, 1>>), R("rfc8649", "HashedRootKey"))>>
=================================================================
