------------------------ MODULE rfc6120 ------------------------
\* https://www.rfc-editor.org/rfc/rfc6120.txt
EXTENDS Asn1Notation

rfc6120_Imports == <<"rfc5280">>

rfc6120_StarImports == <<>>

rfc6120_Types == [
  XmppAddr |-> UTF8String]

rfc6120_Values == [
  id_pkix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7>>)),
  id_on |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 8>>)),
  id_on_xmppAddr |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 8, 5>>))]

\* open type tables this module exports, with the table each one is
rfc6120_Tables == <<>>

\* what importing this module adds to the tables
rfc6120_Entries == <<
  ENTRY("rfc5280", "anotherNameMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 8, 5>>), R("rfc6120", "XmppAddr"))>>
=================================================================
