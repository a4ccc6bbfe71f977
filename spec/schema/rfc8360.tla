------------------------ MODULE rfc8360 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8360.txt
\* https://www.rfc-editor.org/errata/eid5870
EXTENDS Asn1Notation

rfc8360_Imports == <<"rfc3779", "rfc5280">>

rfc8360_StarImports == <<>>

rfc8360_Types == [
  IPAddrBlocks |-> R("rfc3779", "IPAddrBlocks"),
  ASIdentifiers |-> R("rfc3779", "ASIdentifiers")]

rfc8360_Values == [
  id_pe_ipAddrBlocks_v2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 28>>)),
  id_pe_autonomousSysIds_v2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 29>>))]

\* open type tables this module exports, with the table each one is
rfc8360_Tables == <<>>

\* what importing this module adds to the tables
rfc8360_Entries == <<
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 28>>), R("rfc3779", "IPAddrBlocks")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 29>>), R("rfc3779", "ASIdentifiers"))>>
=================================================================
