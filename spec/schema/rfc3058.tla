------------------------ MODULE rfc3058 ------------------------
\* https://www.rfc-editor.org/rfc/rfc3058.txt
\* https://www.rfc-editor.org/errata/eid5913
EXTENDS Asn1Notation

rfc3058_Imports == <<"rfc5280">>

rfc3058_StarImports == <<>>

rfc3058_Types == [
  IDEA_CBCPar |-> SEQUENCE(<<
    OPT("iv", OCTET_STRING)>>)]

rfc3058_Values == [
  id_IDEA_CBC |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 4, 1, 188, 7, 1, 1, 2>>)),
  id_alg_CMSIDEAwrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 4, 1, 188, 7, 1, 1, 6>>))]

\* open type tables this module exports, with the table each one is
rfc3058_Tables == <<>>

\* what importing this module adds to the tables
rfc3058_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 6, 1, 4, 1, 188, 7, 1, 1, 2>>), R("rfc3058", "IDEA_CBCPar")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 6, 1, 4, 1, 188, 7, 1, 1, 6>>), NULL_T)>>
=================================================================
