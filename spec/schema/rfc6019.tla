------------------------ MODULE rfc6019 ------------------------
\* https://www.rfc-editor.org/rfc/rfc6019.txt
EXTENDS Asn1Notation

rfc6019_Imports == <<"rfc5652">>

rfc6019_StarImports == <<>>

rfc6019_Types == [
  BinaryTime |-> CON(INTEGER, RANGE(I(0), NOBOUND)),
  BinarySigningTime |-> R("rfc6019", "BinaryTime")]

rfc6019_Values == [
  id_aa_binarySigningTime |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 46>>))]

\* open type tables this module exports, with the table each one is
rfc6019_Tables == <<>>

\* what importing this module adds to the tables
rfc6019_Entries == <<
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 46>>), R("rfc6019", "BinarySigningTime"))>>
=================================================================
