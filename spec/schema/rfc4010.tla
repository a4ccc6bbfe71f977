------------------------ MODULE rfc4010 ------------------------
\* https://www.rfc-editor.org/rfc/rfc4010.txt
EXTENDS Asn1Notation

rfc4010_Imports == <<"rfc5280", "rfc5751">>

rfc4010_StarImports == <<>>

rfc4010_Types == [
  SeedIV |-> CON(OCTET_STRING, SIZE(16, 16)),
  SeedCBCParameter |-> R("rfc4010", "SeedIV"),
  SeedSMimeCapability |-> NULL_T]

rfc4010_Values == [
  id_seedCBC |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 410, 200004, 1, 4>>)),
  id_npki_app_cmsSeed_wrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 410, 200004, 7, 1, 1, 1>>))]

\* open type tables this module exports, with the table each one is
rfc4010_Tables == <<>>

\* what importing this module adds to the tables
rfc4010_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 410, 200004, 1, 4>>), R("rfc4010", "SeedCBCParameter")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 410, 200004, 7, 1, 1, 1>>), NULL_T),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 2, 410, 200004, 1, 4>>), R("rfc4010", "SeedSMimeCapability")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 2, 410, 200004, 7, 1, 1, 1>>), R("rfc4010", "SeedSMimeCapability"))>>
=================================================================
