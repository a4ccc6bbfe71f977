------------------------ MODULE rfc6664 ------------------------
\* https://www.rfc-editor.org/rfc/rfc6664.txt
EXTENDS Asn1Notation

rfc6664_Imports == <<"rfc5280", "rfc5751", "rfc5480", "rfc4055", "rfc3279">>

rfc6664_StarImports == <<>>

rfc6664_Types == [
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  Dss_Parms |-> R("rfc3279", "Dss_Parms"),
  ECParameters |-> R("rfc5480", "ECParameters"),
  RSAKeySize |-> INTEGER,
  RSAKeyCapabilities |-> SEQUENCE(<<
    REQ("minKeySize", R("rfc6664", "RSAKeySize")),
    OPT("maxKeySize", R("rfc6664", "RSAKeySize"))>>),
  RsaSsa_Pss_sig_caps |-> SEQUENCE(<<
    REQ("hashAlg", R("rfc5280", "AlgorithmIdentifier")),
    OPT("maskAlg", R("rfc5280", "AlgorithmIdentifier")),
    DFLT("trailerField", INTEGER, VI(1))>>),
  DSAKeySize |-> CON(INTEGER, VALUES(<<VI(1024), VI(2048), VI(3072), VI(7680), VI(15360)>>)),
  DSAKeyCapabilities |-> CHOICE(<<
    REQ("keySizes", EXPL(CTX, 0, SEQUENCE(<<
        REQ("minKeySize", R("rfc6664", "DSAKeySize")),
        OPT("maxKeySize", R("rfc6664", "DSAKeySize")),
        OPT("maxSizeP", EXPL(CTX, 1, INTEGER)),
        OPT("maxSizeQ", EXPL(CTX, 2, INTEGER)),
        OPT("maxSizeG", EXPL(CTX, 3, INTEGER))>>))),
    REQ("keyParams", EXPL(CTX, 1, R("rfc3279", "Dss_Parms")))>>),
  EC_SMimeCaps |-> CON(SEQUENCE_OF(R("rfc5480", "ECParameters")), SIZE(1, MAXSIZE))]

rfc6664_Values == [
  dhpublicnumber |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10046, 2, 1>>)),
  id_dsa |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10040, 4, 1>>)),
  id_ecPublicKey |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 2, 1>>)),
  rsaEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 1>>)),
  id_mgf1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 8>>)),
  id_RSAES_OAEP |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 7>>)),
  id_RSASSA_PSS |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 10>>)),
  id_ecDH |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 1, 12>>)),
  id_ecMQV |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 1, 13>>))]

\* open type tables this module exports, with the table each one is
rfc6664_Tables == <<>>

\* what importing this module adds to the tables
rfc6664_Entries == <<
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 2, 840, 113549, 1, 1, 1>>), R("rfc6664", "RSAKeyCapabilities")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 2, 840, 113549, 1, 1, 10>>), R("rfc6664", "RSAKeyCapabilities")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 2, 840, 113549, 1, 1, 7>>), R("rfc6664", "RSAKeyCapabilities")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 2, 840, 10040, 4, 1>>), R("rfc6664", "DSAKeyCapabilities")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 2, 840, 10046, 2, 1>>), R("rfc6664", "DSAKeyCapabilities")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 2, 840, 10045, 2, 1>>), R("rfc6664", "EC_SMimeCaps")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 3, 132, 1, 12>>), R("rfc6664", "EC_SMimeCaps")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 3, 132, 1, 13>>), R("rfc6664", "EC_SMimeCaps")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 2, 840, 113549, 1, 1, 8>>), R("rfc5280", "AlgorithmIdentifier"))>>
=================================================================
