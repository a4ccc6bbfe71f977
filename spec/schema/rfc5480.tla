------------------------ MODULE rfc5480 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5480.txt
EXTENDS Asn1Notation

rfc5480_Imports == <<"rfc3279", "rfc5280">>

rfc5480_StarImports == <<>>

rfc5480_Types == [
  DHPublicKey |-> R("rfc3279", "DHPublicKey"),
  DSAPublicKey |-> R("rfc3279", "DSAPublicKey"),
  ValidationParms |-> R("rfc3279", "ValidationParms"),
  DomainParameters |-> R("rfc3279", "DomainParameters"),
  ECDSA_Sig_Value |-> R("rfc3279", "ECDSA_Sig_Value"),
  ECPoint |-> R("rfc3279", "ECPoint"),
  KEA_Parms_Id |-> R("rfc3279", "KEA_Parms_Id"),
  RSAPublicKey |-> R("rfc3279", "RSAPublicKey"),
  DSS_Parms |-> R("rfc3279", "Dss_Parms"),
  DSA_Sig_Value |-> R("rfc3279", "Dss_Sig_Value"),
  ECParameters |-> CHOICE(<<
    REQ("namedCurve", OBJECT_IDENTIFIER)>>)]

rfc5480_Values == [
  id_md2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 2, 2>>)),
  id_md5 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 2, 5>>)),
  id_sha1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 14, 3, 2, 26>>)),
  id_sha224 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 4>>)),
  id_sha256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 1>>)),
  id_sha384 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 2>>)),
  id_sha512 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 2, 3>>)),
  rsaEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 1>>)),
  id_dsa |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10040, 4, 1>>)),
  dhpublicnumber |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10046, 2, 1>>)),
  id_keyExchangeAlgorithm |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 1, 22>>)),
  id_ecPublicKey |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 2, 1>>)),
  id_ecDH |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 1, 12>>)),
  id_ecMQV |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 1, 13>>)),
  md2WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 2>>)),
  md5WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 4>>)),
  sha1WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 5>>)),
  id_dsa_with_sha1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10040, 4, 3>>)),
  id_dsa_with_sha224 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 3, 1>>)),
  id_dsa_with_sha256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 3, 4, 3, 2>>)),
  ecdsa_with_SHA1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 4, 1>>)),
  ecdsa_with_SHA224 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 4, 3, 1>>)),
  ecdsa_with_SHA256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 4, 3, 2>>)),
  ecdsa_with_SHA384 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 4, 3, 3>>)),
  ecdsa_with_SHA512 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 4, 3, 4>>)),
  secp192r1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 1, 1>>)),
  sect163k1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 0, 1>>)),
  sect163r2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 0, 15>>)),
  secp224r1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 0, 33>>)),
  sect233k1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 0, 26>>)),
  sect233r1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 0, 27>>)),
  secp256r1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10045, 3, 1, 7>>)),
  sect283k1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 0, 16>>)),
  sect283r1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 0, 17>>)),
  secp384r1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 0, 34>>)),
  sect409k1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 0, 36>>)),
  sect409r1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 0, 37>>)),
  secp521r1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 0, 35>>)),
  sect571k1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 0, 38>>)),
  sect571r1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 132, 0, 39>>))]

\* open type tables this module exports, with the table each one is
rfc5480_Tables == <<>>

\* what importing this module adds to the tables
rfc5480_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 10040, 4, 1>>), R("rfc3279", "Dss_Parms")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 1>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 2>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 4>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 1, 5>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 10046, 2, 1>>), R("rfc3279", "DomainParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 1, 22>>), R("rfc3279", "KEA_Parms_Id")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 10045, 2, 1>>), R("rfc5480", "ECParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 132, 1, 12>>), R("rfc5480", "ECParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 132, 1, 13>>), R("rfc5480", "ECParameters"))>>
=================================================================
