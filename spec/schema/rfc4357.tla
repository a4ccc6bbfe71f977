------------------------ MODULE rfc4357 ------------------------
\* https://www.rfc-editor.org/rfc/rfc4357.txt
\* https://www.rfc-editor.org/errata/eid5927
\* https://www.rfc-editor.org/errata/eid5928
EXTENDS Asn1Notation

rfc4357_Imports == <<"rfc5280">>

rfc4357_StarImports == <<>>

rfc4357_Types == [
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  Gost28147_89_ParamSet |-> CON(OBJECT_IDENTIFIER, VALUES(<<VOID(<<1, 2, 643, 2, 2, 31, 0>>), VOID(<<1, 2, 643, 2, 2, 31, 1>>), VOID(<<1, 2, 643, 2, 2, 31, 2>>), VOID(<<1, 2, 643, 2, 2, 31, 3>>), VOID(<<1, 2, 643, 2, 2, 31, 4>>), VOID(<<1, 2, 643, 2, 2, 31, 5>>), VOID(<<1, 2, 643, 2, 2, 31, 6>>), VOID(<<1, 2, 643, 2, 2, 31, 7>>)>>)),
  Gost28147_89_BlobParameters |-> SEQUENCE(<<
    REQ("encryptionParamSet", R("rfc4357", "Gost28147_89_ParamSet"))>>),
  Gost28147_89_MAC |-> CON(OCTET_STRING, SIZE(1, 4)),
  Gost28147_89_Key |-> CON(OCTET_STRING, SIZE(32, 32)),
  Gost28147_89_EncryptedKey |-> SEQUENCE(<<
    REQ("encryptedKey", R("rfc4357", "Gost28147_89_Key")),
    OPT("maskKey", IMPL(CTX, 0, R("rfc4357", "Gost28147_89_Key"))),
    REQ("macKey", R("rfc4357", "Gost28147_89_MAC"))>>),
  Gost28147_89_IV |-> CON(OCTET_STRING, SIZE(8, 8)),
  Gost28147_89_UZ |-> CON(OCTET_STRING, SIZE(64, 64)),
  Gost28147_89_ParamSetParameters |-> SEQUENCE(<<
    REQ("eUZ", R("rfc4357", "Gost28147_89_UZ")),
    REQ("mode", NAMED(INTEGER, <<NV("gost28147-89-CNT", 0), NV("gost28147-89-CFB", 1), NV("cryptoPro-CBC", 2)>>)),
    REQ("shiftBits", NAMED(INTEGER, <<NV("gost28147-89-block", 64)>>)),
    REQ("keyMeshing", R("rfc5280", "AlgorithmIdentifier"))>>),
  Gost28147_89_Parameters |-> SEQUENCE(<<
    REQ("iv", R("rfc4357", "Gost28147_89_IV")),
    REQ("encryptionParamSet", R("rfc4357", "Gost28147_89_ParamSet"))>>),
  GostR3410_2001_CertificateSignature |-> CON(BIT_STRING, SIZE(256, 512)),
  GostR3410_2001_ParamSetParameters |-> SEQUENCE(<<
    REQ("a", INTEGER),
    REQ("b", INTEGER),
    REQ("p", INTEGER),
    REQ("q", INTEGER),
    REQ("x", INTEGER),
    REQ("y", INTEGER)>>),
  GostR3410_2001_PublicKey |-> CON(OCTET_STRING, SIZE(64, 64)),
  GostR3410_2001_PublicKeyParameters |-> SEQUENCE(<<
    REQ("publicKeyParamSet", CON(OBJECT_IDENTIFIER, VALUES(<<VOID(<<1, 2, 643, 2, 2, 35, 0>>), VOID(<<1, 2, 643, 2, 2, 35, 1>>), VOID(<<1, 2, 643, 2, 2, 35, 2>>), VOID(<<1, 2, 643, 2, 2, 35, 3>>), VOID(<<1, 2, 643, 2, 2, 36, 0>>), VOID(<<1, 2, 643, 2, 2, 36, 1>>)>>))),
    REQ("digestParamSet", CON(OBJECT_IDENTIFIER, VALUES(<<VOID(<<1, 2, 643, 2, 2, 30, 0>>), VOID(<<1, 2, 643, 2, 2, 30, 1>>)>>))),
    DFLT("encryptionParamSet", R("rfc4357", "Gost28147_89_ParamSet"), VOID(<<1, 2, 643, 2, 2, 31, 1>>))>>),
  GostR3410_94_CertificateSignature |-> CON(BIT_STRING, SIZE(256, 512)),
  GostR3410_94_ParamSetParameters_t |-> CON(INTEGER, VALUES(<<VI(512), VI(1024)>>)),
  GostR3410_94_ParamSetParameters |-> SEQUENCE(<<
    REQ("t", R("rfc4357", "GostR3410_94_ParamSetParameters_t")),
    REQ("p", INTEGER),
    REQ("q", INTEGER),
    REQ("a", INTEGER),
    OPT("validationAlgorithm", R("rfc5280", "AlgorithmIdentifier"))>>),
  GostR3410_94_PublicKey |-> CON(OCTET_STRING, EITHER(<<SIZE(64, 64), SIZE(128, 128)>>)),
  GostR3410_94_PublicKeyParameters |-> SEQUENCE(<<
    REQ("publicKeyParamSet", CON(OBJECT_IDENTIFIER, VALUES(<<VOID(<<1, 2, 643, 2, 2, 32, 0>>), VOID(<<1, 2, 643, 2, 2, 32, 2>>), VOID(<<1, 2, 643, 2, 2, 32, 3>>), VOID(<<1, 2, 643, 2, 2, 32, 4>>), VOID(<<1, 2, 643, 2, 2, 32, 5>>), VOID(<<1, 2, 643, 2, 2, 33, 1>>), VOID(<<1, 2, 643, 2, 2, 33, 2>>), VOID(<<1, 2, 643, 2, 2, 33, 3>>)>>))),
    REQ("digestParamSet", CON(OBJECT_IDENTIFIER, VALUES(<<VOID(<<1, 2, 643, 2, 2, 30, 0>>), VOID(<<1, 2, 643, 2, 2, 30, 1>>)>>))),
    DFLT("encryptionParamSet", R("rfc4357", "Gost28147_89_ParamSet"), VOID(<<1, 2, 643, 2, 2, 31, 1>>))>>),
  GostR3410_94_ValidationBisParameters_c |-> CON(INTEGER, RANGE(I(0), BIG(<<0, 255, 255, 255, 255>>))),
  GostR3410_94_ValidationBisParameters |-> SEQUENCE(<<
    REQ("x0", R("rfc4357", "GostR3410_94_ValidationBisParameters_c")),
    REQ("c", R("rfc4357", "GostR3410_94_ValidationBisParameters_c")),
    OPT("d", INTEGER)>>),
  GostR3410_94_ValidationParameters_c |-> CON(INTEGER, RANGE(I(0), I(65535))),
  GostR3410_94_ValidationParameters |-> SEQUENCE(<<
    REQ("x0", R("rfc4357", "GostR3410_94_ValidationParameters_c")),
    REQ("c", R("rfc4357", "GostR3410_94_ValidationParameters_c")),
    OPT("d", INTEGER)>>),
  GostR3411_94_Digest |-> CON(OCTET_STRING, SIZE(32, 32)),
  GostR3411_94_DigestParameters |-> CON(OBJECT_IDENTIFIER, EITHER(<<VALUES(<<VOID(<<1, 2, 643, 2, 2, 30, 0>>)>>), VALUES(<<VOID(<<1, 2, 643, 2, 2, 30, 1>>)>>)>>)),
  GostR3411_94_ParamSetParameters |-> SEQUENCE(<<
    REQ("hUZ", R("rfc4357", "Gost28147_89_UZ")),
    REQ("h0", R("rfc4357", "GostR3411_94_Digest"))>>)]

rfc4357_Values == [
  id_CryptoPro |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2>>)),
  id_CryptoPro_modules |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 1, 1>>)),
  id_CryptoPro_extensions |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 34>>)),
  id_CryptoPro_policyIds |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 38>>)),
  id_CryptoPro_policyQt |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 39>>)),
  cryptographic_Gost_Useful_Definitions |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 1, 1, 0, 1>>)),
  gostR3411_94_DigestSyntax |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 1, 1, 1, 1>>)),
  gostR3410_94_PKISyntax |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 1, 1, 2, 1>>)),
  gostR3410_94_SignatureSyntax |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 1, 1, 3, 1>>)),
  gost28147_89_EncryptionSyntax |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 1, 1, 4, 1>>)),
  gostR3410_EncryptionSyntax |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 1, 1, 5, 2>>)),
  gost28147_89_ParamSetSyntax |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 1, 1, 6, 1>>)),
  gostR3411_94_ParamSetSyntax |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 1, 1, 7, 1>>)),
  gostR3410_94_ParamSetSyntax |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 1, 1, 8, 1, 1>>)),
  gostR3410_2001_PKISyntax |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 1, 1, 9, 1>>)),
  gostR3410_2001_SignatureSyntax |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 1, 1, 10, 1>>)),
  gostR3410_2001_ParamSetSyntax |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 1, 1, 12, 1>>)),
  gost_CryptoPro_ExtendedKeyUsage |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 1, 1, 13, 1>>)),
  gost_CryptoPro_PrivateKey |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 1, 1, 14, 1>>)),
  gost_CryptoPro_PKIXCMP |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 1, 1, 15, 1>>)),
  gost_CryptoPro_TLS |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 1, 1, 16, 1>>)),
  gost_CryptoPro_Policy |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 1, 1, 17, 1>>)),
  gost_CryptoPro_Constants |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 1, 1, 18, 1>>)),
  id_CryptoPro_algorithms |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2>>)),
  id_GostR3411_94_with_GostR3410_2001 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 3>>)),
  id_GostR3411_94_with_GostR3410_94 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 4>>)),
  id_GostR3411_94 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 9>>)),
  id_Gost28147_89_None_KeyMeshing |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 14, 0>>)),
  id_Gost28147_89_CryptoPro_KeyMeshing |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 14, 1>>)),
  id_GostR3410_2001 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 19>>)),
  id_GostR3410_94 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 20>>)),
  id_Gost28147_89 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 21>>)),
  id_Gost28147_89_MAC |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 22>>)),
  id_CryptoPro_hashes |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 30>>)),
  id_CryptoPro_encrypts |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 31>>)),
  id_CryptoPro_signs |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 32>>)),
  id_CryptoPro_exchanges |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 33>>)),
  id_CryptoPro_ecc_signs |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 35>>)),
  id_CryptoPro_ecc_exchanges |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 36>>)),
  id_CryptoPro_private_keys |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 37>>)),
  id_CryptoPro_pkixcmp_infos |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 41>>)),
  id_CryptoPro_audit_service_types |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 42>>)),
  id_CryptoPro_audit_record_types |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 43>>)),
  id_CryptoPro_attributes |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 44>>)),
  id_CryptoPro_name_service_types |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 45>>)),
  id_GostR3410_2001DH |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 98>>)),
  id_GostR3410_94DH |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 99>>)),
  id_Gost28147_89_TestParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 31, 0>>)),
  id_Gost28147_89_CryptoPro_A_ParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 31, 1>>)),
  id_Gost28147_89_CryptoPro_B_ParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 31, 2>>)),
  id_Gost28147_89_CryptoPro_C_ParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 31, 3>>)),
  id_Gost28147_89_CryptoPro_D_ParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 31, 4>>)),
  id_Gost28147_89_CryptoPro_Oscar_1_1_ParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 31, 5>>)),
  id_Gost28147_89_CryptoPro_Oscar_1_0_ParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 31, 6>>)),
  id_Gost28147_89_CryptoPro_RIC_1_ParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 31, 7>>)),
  id_GostR3410_2001_TestParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 35, 0>>)),
  id_GostR3410_2001_CryptoPro_A_ParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 35, 1>>)),
  id_GostR3410_2001_CryptoPro_B_ParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 35, 2>>)),
  id_GostR3410_2001_CryptoPro_C_ParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 35, 3>>)),
  id_GostR3410_2001_CryptoPro_XchA_ParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 36, 0>>)),
  id_GostR3410_2001_CryptoPro_XchB_ParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 36, 1>>)),
  id_GostR3410_94_TestParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 32, 0>>)),
  id_GostR3410_94_CryptoPro_A_ParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 32, 2>>)),
  id_GostR3410_94_CryptoPro_B_ParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 32, 3>>)),
  id_GostR3410_94_CryptoPro_C_ParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 32, 4>>)),
  id_GostR3410_94_CryptoPro_D_ParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 32, 5>>)),
  id_GostR3410_94_CryptoPro_XchA_ParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 33, 1>>)),
  id_GostR3410_94_CryptoPro_XchB_ParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 33, 2>>)),
  id_GostR3410_94_CryptoPro_XchC_ParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 33, 3>>)),
  id_GostR3410_94_a |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 20, 1>>)),
  id_GostR3410_94_aBis |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 20, 2>>)),
  id_GostR3410_94_b |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 20, 3>>)),
  id_GostR3410_94_bBis |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 20, 4>>)),
  id_GostR3411_94_TestParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 30, 0>>)),
  id_GostR3411_94_CryptoProParamSet |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 30, 1>>))]

\* open type tables this module exports, with the table each one is
rfc4357_Tables == <<>>

\* what importing this module adds to the tables
rfc4357_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 21>>), R("rfc4357", "Gost28147_89_Parameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 31, 0>>), R("rfc4357", "Gost28147_89_ParamSetParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 31, 1>>), R("rfc4357", "Gost28147_89_ParamSetParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 31, 2>>), R("rfc4357", "Gost28147_89_ParamSetParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 31, 3>>), R("rfc4357", "Gost28147_89_ParamSetParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 31, 4>>), R("rfc4357", "Gost28147_89_ParamSetParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 14, 1>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 14, 0>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 20>>), R("rfc4357", "GostR3410_94_PublicKeyParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 32, 0>>), R("rfc4357", "GostR3410_94_ParamSetParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 32, 2>>), R("rfc4357", "GostR3410_94_ParamSetParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 32, 3>>), R("rfc4357", "GostR3410_94_ParamSetParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 32, 4>>), R("rfc4357", "GostR3410_94_ParamSetParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 32, 5>>), R("rfc4357", "GostR3410_94_ParamSetParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 33, 1>>), R("rfc4357", "GostR3410_94_ParamSetParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 33, 2>>), R("rfc4357", "GostR3410_94_ParamSetParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 33, 3>>), R("rfc4357", "GostR3410_94_ParamSetParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 20, 1>>), R("rfc4357", "GostR3410_94_ValidationParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 20, 2>>), R("rfc4357", "GostR3410_94_ValidationBisParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 20, 3>>), R("rfc4357", "GostR3410_94_ValidationParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 20, 4>>), R("rfc4357", "GostR3410_94_ValidationBisParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 19>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 9>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 30, 0>>), R("rfc4357", "GostR3411_94_ParamSetParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 30, 1>>), R("rfc4357", "GostR3411_94_ParamSetParameters"))>>
=================================================================
