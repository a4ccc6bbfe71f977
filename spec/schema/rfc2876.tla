------------------------ MODULE rfc2876 ------------------------
\* https://www.rfc-editor.org/rfc/rfc2876.txt
EXTENDS Asn1Notation

rfc2876_Imports == <<"rfc5280", "rfc5751">>

rfc2876_StarImports == <<>>

rfc2876_Types == [
  Skipjack_Parm |-> SEQUENCE(<<
    REQ("initialization-vector", OCTET_STRING)>>)]

rfc2876_Values == [
  id_fortezzaConfidentialityAlgorithm |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 1, 4>>)),
  id_fortezzaWrap80 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 1, 23>>)),
  id_kEAKeyEncryptionAlgorithm |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 1, 24>>)),
  id_keyExchangeAlgorithm |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 1, 22>>))]

\* open type tables this module exports, with the table each one is
rfc2876_Tables == <<>>

\* what importing this module adds to the tables
rfc2876_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 1, 4>>), R("rfc2876", "Skipjack_Parm")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 1, 24>>), R("rfc5280", "AlgorithmIdentifier")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 1, 24>>), R("rfc5280", "AlgorithmIdentifier"))>>
=================================================================
