------------------------ MODULE rfc7914 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8520.txt
\* https://www.rfc-editor.org/errata/eid5871
EXTENDS Asn1Notation

rfc7914_Imports == <<"rfc5280">>

rfc7914_StarImports == <<>>

rfc7914_Types == [
  Scrypt_params |-> SEQUENCE(<<
    REQ("salt", OCTET_STRING),
    REQ("costParameter", CON(INTEGER, RANGE(I(1), NOBOUND))),
    REQ("blockSize", CON(INTEGER, RANGE(I(1), NOBOUND))),
    REQ("parallelizationParameter", CON(INTEGER, RANGE(I(1), NOBOUND))),
    OPT("keyLength", CON(INTEGER, RANGE(I(1), NOBOUND)))>>)]

rfc7914_Values == [
  id_scrypt |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 4, 1, 11591, 4, 11>>))]

\* open type tables this module exports, with the table each one is
rfc7914_Tables == <<>>

\* what importing this module adds to the tables
rfc7914_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 6, 1, 4, 1, 11591, 4, 11>>), R("rfc7914", "Scrypt_params"))>>
=================================================================
