------------------------ MODULE rfc4043 ------------------------
\* https://www.rfc-editor.org/rfc/rfc4043.txt
EXTENDS Asn1Notation

rfc4043_Imports == <<"rfc5280">>

rfc4043_StarImports == <<>>

rfc4043_Types == [
  PermanentIdentifier |-> SEQUENCE(<<
    OPT("identifierValue", UTF8String),
    OPT("assigner", OBJECT_IDENTIFIER)>>)]

rfc4043_Values == [
  id_pkix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7>>)),
  id_on |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 8>>)),
  id_on_permanentIdentifier |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 8, 3>>))]

\* open type tables this module exports, with the table each one is
rfc4043_Tables == <<>>

\* what importing this module adds to the tables
rfc4043_Entries == <<
  ENTRY("rfc5280", "anotherNameMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 8, 3>>), R("rfc4043", "PermanentIdentifier"))>>
=================================================================
