------------------------ MODULE rfc3370 ------------------------
\* https://www.rfc-editor.org/rfc/rfc3370.txt
EXTENDS Asn1Notation

rfc3370_Imports == <<"rfc3279", "rfc5280", "rfc5751", "rfc5753", "rfc5990", "rfc8018">>

rfc3370_StarImports == <<>>

rfc3370_Types == [
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  DHPublicKey |-> R("rfc3279", "DHPublicKey"),
  DomainParameters |-> R("rfc3279", "DomainParameters"),
  DHDomainParameters |-> R("rfc3279", "DomainParameters"),
  Dss_Parms |-> R("rfc3279", "Dss_Parms"),
  Dss_Sig_Value |-> R("rfc3279", "Dss_Sig_Value"),
  RSAPublicKey |-> R("rfc3279", "RSAPublicKey"),
  ValidationParms |-> R("rfc3279", "ValidationParms"),
  CBCParameter |-> R("rfc5753", "IV"),
  KeyWrapAlgorithm |-> R("rfc5753", "KeyWrapAlgorithm"),
  RC2_CBC_Parameter |-> R("rfc8018", "RC2_CBC_Parameter"),
  RC2CBCParameter |-> R("rfc8018", "RC2_CBC_Parameter"),
  PBKDF2_params |-> R("rfc8018", "PBKDF2_params"),
  RC2ParameterVersion |-> INTEGER,
  RC2wrapParameter |-> R("rfc3370", "RC2ParameterVersion"),
  Dss_Pub_Key |-> INTEGER]

rfc3370_Values == [
  dhpublicnumber |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10046, 2, 1>>)),
  dh_public_number |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10046, 2, 1>>)),
  md5 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 2, 5>>)),
  md5WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 4>>)),
  rsaEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 1>>)),
  id_dsa |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10040, 4, 1>>)),
  id_dsa_with_sha1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10040, 4, 3>>)),
  id_sha1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 14, 3, 2, 26>>)),
  sha_1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 14, 3, 2, 26>>)),
  sha1WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 5>>)),
  id_alg_CMS3DESwrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 6>>)),
  des_EDE3_CBC |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 3, 7>>)),
  des_ede3_cbc |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 3, 7>>)),
  rc2CBC |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 3, 2>>)),
  rc2_cbc |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 3, 2>>)),
  id_PBKDF2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 5, 12>>)),
  hMAC_SHA1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 8, 1, 2>>)),
  id_alg_ESDH |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 5>>)),
  id_alg_SSDH |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 10>>)),
  id_alg_CMSRC2wrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 7>>))]

\* open type tables this module exports, with the table each one is
rfc3370_Tables == <<>>

\* what importing this module adds to the tables
rfc3370_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 6, 1, 5, 5, 8, 1, 2>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 7>>), R("rfc3370", "RC2wrapParameter")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 5>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 10>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 7>>), R("rfc3370", "RC2wrapParameter")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 5>>), R("rfc5753", "KeyWrapAlgorithm")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 10>>), R("rfc5753", "KeyWrapAlgorithm"))>>
=================================================================
