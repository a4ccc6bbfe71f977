------------------------ MODULE rfc5639 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5639.txt
EXTENDS Asn1Notation

rfc5639_Imports == <<>>

rfc5639_StarImports == <<>>

rfc5639_Types == [
  NoTypes__ |-> NULL_T]

rfc5639_Values == [
  ecStdCurvesAndGeneration |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 36, 3, 3, 2, 8>>)),
  ellipticCurve |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 36, 3, 3, 2, 8, 1>>)),
  versionOne |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 36, 3, 3, 2, 8, 1, 1>>)),
  brainpoolP160r1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 36, 3, 3, 2, 8, 1, 1, 1>>)),
  brainpoolP160t1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 36, 3, 3, 2, 8, 1, 1, 2>>)),
  brainpoolP192r1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 36, 3, 3, 2, 8, 1, 1, 3>>)),
  brainpoolP192t1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 36, 3, 3, 2, 8, 1, 1, 4>>)),
  brainpoolP224r1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 36, 3, 3, 2, 8, 1, 1, 5>>)),
  brainpoolP224t1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 36, 3, 3, 2, 8, 1, 1, 6>>)),
  brainpoolP256r1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 36, 3, 3, 2, 8, 1, 1, 7>>)),
  brainpoolP256t1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 36, 3, 3, 2, 8, 1, 1, 8>>)),
  brainpoolP320r1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 36, 3, 3, 2, 8, 1, 1, 9>>)),
  brainpoolP320t1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 36, 3, 3, 2, 8, 1, 1, 10>>)),
  brainpoolP384r1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 36, 3, 3, 2, 8, 1, 1, 11>>)),
  brainpoolP384t1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 36, 3, 3, 2, 8, 1, 1, 12>>)),
  brainpoolP512r1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 36, 3, 3, 2, 8, 1, 1, 13>>)),
  brainpoolP512t1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 36, 3, 3, 2, 8, 1, 1, 14>>))]

\* open type tables this module exports, with the table each one is
rfc5639_Tables == <<>>

\* what importing this module adds to the tables
rfc5639_Entries == <<
>>
=================================================================
