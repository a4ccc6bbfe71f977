------------------------ MODULE rfc2437 ------------------------
\* ftp://ftp.rsasecurity.com/pub/pkcs/pkcs-1/pkcs-1v2.asn
EXTENDS Asn1Notation

rfc2437_Imports == <<"rfc2459">>

rfc2437_StarImports == <<>>

rfc2437_Types == [
  AlgorithmIdentifier |-> R("rfc2459", "AlgorithmIdentifier"),
  Version |-> INTEGER,
  RSAPrivateKey |-> SEQUENCE(<<
    REQ("version", R("rfc2437", "Version")),
    REQ("modulus", INTEGER),
    REQ("publicExponent", INTEGER),
    REQ("privateExponent", INTEGER),
    REQ("prime1", INTEGER),
    REQ("prime2", INTEGER),
    REQ("exponent1", INTEGER),
    REQ("exponent2", INTEGER),
    REQ("coefficient", INTEGER)>>),
  RSAPublicKey |-> SEQUENCE(<<
    REQ("modulus", INTEGER),
    REQ("publicExponent", INTEGER)>>),
  RSAES_OAEP_params |-> SEQUENCE(<<
    DFLT("hashFunc", EXPL(CTX, 0, R("rfc2459", "AlgorithmIdentifier")), VSEQ(<<FV("algorithm", VOID(<<1, 3, 14, 3, 2, 26>>)), FV("parameters", VANY(<<5, 0>>))>>)),
    DFLT("maskGenFunc", EXPL(CTX, 1, R("rfc2459", "AlgorithmIdentifier")), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 9, 6, 5, 43, 14, 3, 2, 26, 5, 0>>))>>)),
    DFLT("pSourceFunc", EXPL(CTX, 2, R("rfc2459", "AlgorithmIdentifier")), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 9>>)), FV("parameters", VANY(<<4, 0>>))>>))>>)]

rfc2437_Values == [
  pkcs_1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1>>)),
  rsaEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 1>>)),
  md2WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 2>>)),
  md4WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 3>>)),
  md5WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 4>>)),
  sha1WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 5>>)),
  rsaOAEPEncryptionSET |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 6>>)),
  id_RSAES_OAEP |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 7>>)),
  id_mgf1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 8>>)),
  id_pSpecified |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 9>>)),
  id_sha1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 14, 3, 2, 26>>)),
  sha1Identifier |-> CONST(R("rfc2459", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 3, 14, 3, 2, 26>>)), FV("parameters", VANY(<<5, 0>>))>>)),
  mgf1SHA1Identifier |-> CONST(R("rfc2459", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 8>>)), FV("parameters", VANY(<<48, 9, 6, 5, 43, 14, 3, 2, 26, 5, 0>>))>>)),
  pSpecifiedEmptyIdentifier |-> CONST(R("rfc2459", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 1, 9>>)), FV("parameters", VANY(<<4, 0>>))>>))]

\* open type tables this module exports, with the table each one is
rfc2437_Tables == <<>>

\* what importing this module adds to the tables
rfc2437_Entries == <<
>>
=================================================================
