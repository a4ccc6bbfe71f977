------------------------ MODULE rfc5916 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5916.txt
EXTENDS Asn1Notation

rfc5916_Imports == <<"rfc5280">>

rfc5916_StarImports == <<>>

rfc5916_Types == [
  NoTypes__ |-> NULL_T]

rfc5916_Values == [
  id_deviceOwner |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 69>>)),
  at_deviceOwner |-> CONST(R("rfc5280", "Attribute"), VSEQ(<<FV("type", VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 69>>))>>))]

\* open type tables this module exports, with the table each one is
rfc5916_Tables == <<>>

\* what importing this module adds to the tables
rfc5916_Entries == <<
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 69>>), OBJECT_IDENTIFIER)>>
=================================================================
