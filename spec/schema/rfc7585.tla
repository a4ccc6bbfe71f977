------------------------ MODULE rfc7585 ------------------------
\* https://www.rfc-editor.org/rfc/rfc7585.txt
EXTENDS Asn1Notation

rfc7585_Imports == <<"rfc5280">>

rfc7585_StarImports == <<>>

rfc7585_Types == [
  NAIRealm |-> CON(UTF8String, SIZE(1, 255))]

rfc7585_Values == [
  id_pkix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7>>)),
  id_on |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 8>>)),
  id_on_naiRealm |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 8, 8>>)),
  ub_naiRealm_length |-> CONST(INTEGER, VI(255)),
  naiRealm |-> CONST(R("rfc5280", "AnotherName"), VSEQ(<<FV("type-id", VOID(<<1, 3, 6, 1, 5, 5, 7, 8, 8>>))>>))]

\* open type tables this module exports, with the table each one is
rfc7585_Tables == <<>>

\* what importing this module adds to the tables
rfc7585_Entries == <<
  ENTRY("rfc5280", "anotherNameMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 8, 8>>), R("rfc7585", "NAIRealm"))>>
=================================================================
