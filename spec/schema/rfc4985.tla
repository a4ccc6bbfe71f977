------------------------ MODULE rfc4985 ------------------------
\* https://www.rfc-editor.org/rfc/rfc4985.txt
EXTENDS Asn1Notation

rfc4985_Imports == <<"rfc5280">>

rfc4985_StarImports == <<>>

rfc4985_Types == [
  SRVName |-> CON(IA5String, SIZE(1, MAXSIZE))]

rfc4985_Values == [
  id_pkix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7>>)),
  id_on |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 8>>)),
  id_on_dnsSRV |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 8, 7>>)),
  srvName |-> CONST(R("rfc5280", "AnotherName"), VSEQ(<<FV("type-id", VOID(<<1, 3, 6, 1, 5, 5, 7, 8, 7>>))>>))]

\* open type tables this module exports, with the table each one is
rfc4985_Tables == <<>>

\* what importing this module adds to the tables
rfc4985_Entries == <<
  ENTRY("rfc5280", "anotherNameMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 8, 7>>), R("rfc4985", "SRVName"))>>
=================================================================
