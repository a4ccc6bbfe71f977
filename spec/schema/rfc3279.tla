------------------------ MODULE rfc3279 ------------------------
\* https://www.rfc-editor.org/rfc/rfc3279.txt
EXTENDS Asn1Notation

rfc3279_Imports == <<"rfc5280">>

rfc3279_StarImports == <<>>

rfc3279_Types == [
  DSAPublicKey |-> INTEGER,
  Dss_Parms |-> SEQUENCE(<<
    REQ("p", INTEGER),
    REQ("q", INTEGER),
    REQ("g", INTEGER)>>),
  Dss_Sig_Value |-> SEQUENCE(<<
    REQ("r", INTEGER),
    REQ("s", INTEGER)>>),
  RSAPublicKey |-> SEQUENCE(<<
    REQ("modulus", INTEGER),
    REQ("publicExponent", INTEGER)>>),
  DHPublicKey |-> INTEGER,
  ValidationParms |-> SEQUENCE(<<
    REQ("seed", BIT_STRING),
    REQ("pgenCounter", INTEGER)>>),
  DomainParameters |-> SEQUENCE(<<
    REQ("p", INTEGER),
    REQ("g", INTEGER),
    REQ("q", INTEGER),
    OPT("j", INTEGER),
    OPT("validationParms", R("rfc3279", "ValidationParms"))>>),
  KEA_Parms_Id |-> OCTET_STRING,
  FieldID |-> SEQUENCE(<<
    REQ("fieldType", OBJECT_IDENTIFIER),
    REQ("parameters", ANY_T)>>),
  ECDSA_Sig_Value |-> SEQUENCE(<<
    REQ("r", INTEGER),
    REQ("s", INTEGER)>>),
  Prime_p |-> INTEGER,
  Characteristic_two |-> SEQUENCE(<<
    REQ("m", INTEGER),
    REQ("basis", OBJECT_IDENTIFIER),
    REQ("parameters", ANY_T)>>),
  Trinomial |-> INTEGER,
  Pentanomial |-> SEQUENCE(<<
    REQ("k1", INTEGER),
    REQ("k2", INTEGER),
    REQ("k3", INTEGER)>>),
  FieldElement |-> OCTET_STRING,
  ECPoint |-> OCTET_STRING,
  Curve |-> SEQUENCE(<<
    REQ("a", R("rfc3279", "FieldElement")),
    REQ("b", R("rfc3279", "FieldElement")),
    OPT("seed", BIT_STRING)>>),
  ECPVer |-> NAMED(INTEGER, <<NV("ecpVer1", 1)>>),
  ECParameters |-> SEQUENCE(<<
    REQ("version", R("rfc3279", "ECPVer")),
    REQ("fieldID", R("rfc3279", "FieldID")),
    REQ("curve", R("rfc3279", "Curve")),
    REQ("base", R("rfc3279", "ECPoint")),
    REQ("order", INTEGER),
    OPT("cofactor", INTEGER)>>),
  EcpkParameters |-> CHOICE(<<
    REQ("ecParameters", R("rfc3279", "ECParameters")),
    REQ("namedCurve", OBJECT_IDENTIFIER),
    REQ("implicitlyCA", NULL_T)>>)]

rfc3279_Values == [
  md2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 2, 2>>)),
  md5 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 2, 5>>)),
  id_sha1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 14, 3, 2, 26>>)),
  id_dsa |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10040, 4, 1>>)),
  id_dsa_with_sha1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10040, 4, 3>>)),
  pkcs_1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1>>)),
  rsaEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 1>>)),
  md2WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 2>>)),
  md5WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 4>>)),
  sha1WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 5>>)),
  dhpublicnumber |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10046, 2, 1>>)),
  id_keyExchangeAlgorithm |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 1, 22>>)),
  ansi_X9_62 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045>>)),
  id_ecSigType |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 4>>)),
  ecdsa_with_SHA1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 4, 1>>)),
  id_fieldType |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 1>>)),
  prime_field |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 1, 1>>)),
  characteristic_two_field |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 1, 2>>)),
  id_characteristic_two_basis |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 1, 2, 3>>)),
  gnBasis |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 1, 2, 3, 1>>)),
  tpBasis |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 1, 2, 3, 2>>)),
  ppBasis |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 1, 2, 3, 3>>)),
  id_publicKeyType |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 2>>)),
  id_ecPublicKey |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 2, 1>>)),
  ellipticCurve |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3>>)),
  c_TwoCurve |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 0>>)),
  c2pnb163v1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 0, 1>>)),
  c2pnb163v2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 0, 2>>)),
  c2pnb163v3 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 0, 3>>)),
  c2pnb176w1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 0, 4>>)),
  c2tnb191v1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 0, 5>>)),
  c2tnb191v2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 0, 6>>)),
  c2tnb191v3 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 0, 7>>)),
  c2onb191v4 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 0, 8>>)),
  c2onb191v5 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 0, 9>>)),
  c2pnb208w1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 0, 10>>)),
  c2tnb239v1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 0, 11>>)),
  c2tnb239v2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 0, 12>>)),
  c2tnb239v3 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 0, 13>>)),
  c2onb239v4 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 0, 14>>)),
  c2onb239v5 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 0, 15>>)),
  c2pnb272w1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 0, 16>>)),
  c2pnb304w1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 0, 17>>)),
  c2tnb359v1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 0, 18>>)),
  c2pnb368w1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 0, 19>>)),
  c2tnb431r1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 0, 20>>)),
  primeCurve |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 1>>)),
  prime192v1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 1, 1>>)),
  prime192v2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 1, 2>>)),
  prime192v3 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 1, 3>>)),
  prime239v1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 1, 4>>)),
  prime239v2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 1, 5>>)),
  prime239v3 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 1, 6>>)),
  prime256v1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 1, 7>>))]

\* open type tables this module exports, with the table each one is
rfc3279_Tables == <<>>

\* what importing this module adds to the tables
rfc3279_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 2, 2>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 2, 5>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 14, 3, 2, 26>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 10040, 4, 1>>), R("rfc3279", "Dss_Parms")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 1>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 2>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 4>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 5>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 10046, 2, 1>>), R("rfc3279", "DomainParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 1, 22>>), R("rfc3279", "KEA_Parms_Id")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 10045, 2, 1>>), R("rfc3279", "EcpkParameters"))>>
=================================================================
