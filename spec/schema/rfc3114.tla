------------------------ MODULE rfc3114 ------------------------
\* https://www.rfc-editor.org/rfc/rfc3114.txt
EXTENDS Asn1Notation

rfc3114_Imports == <<"rfc5755">>

rfc3114_StarImports == <<>>

rfc3114_Types == [
  Amoco_SecurityClassification |-> NAMED(INTEGER, <<NV("amoco-general", 6), NV("amoco-confidential", 7), NV("amoco-highly-confidential", 8)>>),
  Caterpillar_SecurityClassification |-> NAMED(INTEGER, <<NV("caterpillar-public", 6), NV("caterpillar-green", 7), NV("caterpillar-yellow", 8), NV("caterpillar-red", 9)>>),
  Whirlpool_SecurityClassification |-> NAMED(INTEGER, <<NV("whirlpool-public", 6), NV("whirlpool-internal", 7), NV("whirlpool-confidential", 8)>>),
  SecurityCategoryValues |-> SEQUENCE_OF(UTF8String)]

rfc3114_Values == [
  id_smime |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16>>)),
  id_tsp |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 7>>)),
  id_tsp_TEST_Amoco |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 7, 1>>)),
  id_tsp_TEST_Caterpillar |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 7, 2>>)),
  id_tsp_TEST_Whirlpool |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 7, 3>>)),
  id_tsp_TEST_Whirlpool_Categories |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 7, 4>>))]

\* open type tables this module exports, with the table each one is
rfc3114_Tables == <<>>

\* what importing this module adds to the tables
rfc3114_Entries == <<
  ENTRY("rfc5755", "securityCategoryMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 7, 4>>), R("rfc3114", "SecurityCategoryValues"))>>
=================================================================
