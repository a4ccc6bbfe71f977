------------------------ MODULE rfc7229 ------------------------
\* https://www.rfc-editor.org/rfc/rfc7229.txt
EXTENDS Asn1Notation

rfc7229_Imports == <<>>

rfc7229_StarImports == <<>>

rfc7229_Types == [
  NoTypes__ |-> NULL_T]

rfc7229_Values == [
  id_pkix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7>>)),
  id_TEST |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 13>>)),
  id_TEST_certPolicyOne |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 13, 1>>)),
  id_TEST_certPolicyTwo |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 13, 2>>)),
  id_TEST_certPolicyThree |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 13, 3>>)),
  id_TEST_certPolicyFour |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 13, 4>>)),
  id_TEST_certPolicyFive |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 13, 5>>)),
  id_TEST_certPolicySix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 13, 6>>)),
  id_TEST_certPolicySeven |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 13, 7>>)),
  id_TEST_certPolicyEight |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 13, 8>>))]

\* open type tables this module exports, with the table each one is
rfc7229_Tables == <<>>

\* what importing this module adds to the tables
rfc7229_Entries == <<
>>
=================================================================
