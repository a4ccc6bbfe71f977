------------------------ MODULE rfc5913 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5913.txt
\* https://www.rfc-editor.org/errata/eid5890
EXTENDS Asn1Notation

rfc5913_Imports == <<"rfc5280", "rfc5755">>

rfc5913_StarImports == <<>>

rfc5913_Types == [
  AuthorityClearanceConstraints |-> CON(SEQUENCE_OF(R("rfc5755", "Clearance")), SIZE(1, MAXSIZE))]

rfc5913_Values == [
  id_pe_clearanceConstraints |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 21>>)),
  id_pe_authorityClearanceConstraints |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 21>>))]

\* open type tables this module exports, with the table each one is
rfc5913_Tables == <<>>

\* what importing this module adds to the tables
rfc5913_Entries == <<
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 21>>), R("rfc5913", "AuthorityClearanceConstraints"))>>
=================================================================
