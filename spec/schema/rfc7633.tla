------------------------ MODULE rfc7633 ------------------------
\* https://www.rfc-editor.org/rfc/rfc7633.txt
EXTENDS Asn1Notation

rfc7633_Imports == <<"rfc5280">>

rfc7633_StarImports == <<>>

rfc7633_Types == [
  Features |-> SEQUENCE_OF(INTEGER)]

rfc7633_Values == [
  id_pe |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1>>)),
  id_pe_tlsfeature |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 24>>))]

\* open type tables this module exports, with the table each one is
rfc7633_Tables == <<>>

\* what importing this module adds to the tables
rfc7633_Entries == <<
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 24>>), R("rfc7633", "Features"))>>
=================================================================
