------------------------ MODULE rfc4490 ------------------------
\* https://www.rfc-editor.org/rfc/rfc4490.txt
EXTENDS Asn1Notation

rfc4490_Imports == <<"rfc4357", "rfc5280">>

rfc4490_StarImports == <<>>

rfc4490_Types == [
  Gost28147_89_ParamSet |-> R("rfc4357", "Gost28147_89_ParamSet"),
  Gost28147_89_EncryptedKey |-> R("rfc4357", "Gost28147_89_EncryptedKey"),
  GostR3410_94_PublicKeyParameters |-> R("rfc4357", "GostR3410_94_PublicKeyParameters"),
  GostR3410_2001_PublicKeyParameters |-> R("rfc4357", "GostR3410_2001_PublicKeyParameters"),
  SubjectPublicKeyInfo |-> R("rfc5280", "SubjectPublicKeyInfo"),
  Gost28147_89_KeyWrapParameters |-> SEQUENCE(<<
    REQ("encryptionParamSet", R("rfc4357", "Gost28147_89_ParamSet")),
    OPT("ukm", CON(OCTET_STRING, SIZE(8, 8)))>>),
  GostR3410_TransportParameters |-> SEQUENCE(<<
    REQ("encryptionParamSet", R("rfc4357", "Gost28147_89_ParamSet")),
    OPT("ephemeralPublicKey", IMPL(CTX, 0, R("rfc5280", "SubjectPublicKeyInfo"))),
    REQ("ukm", CON(OCTET_STRING, SIZE(8, 8)))>>),
  GostR3410_KeyTransport |-> SEQUENCE(<<
    REQ("sessionEncryptedKey", R("rfc4357", "Gost28147_89_EncryptedKey")),
    OPT("transportParameters", IMPL(CTX, 0, R("rfc4490", "GostR3410_TransportParameters")))>>),
  GostR3410_94_Signature |-> CON(OCTET_STRING, SIZE(64, 64)),
  GostR3410_2001_Signature |-> CON(OCTET_STRING, SIZE(64, 64))]

rfc4490_Values == [
  id_CryptoPro_algorithms |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2>>)),
  id_GostR3410_94 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 20>>)),
  id_GostR3410_2001 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 19>>)),
  id_Gost28147_89_CryptoPro_KeyWrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 13, 1>>)),
  id_Gost28147_89_None_KeyWrap |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 13, 0>>)),
  id_GostR3410_2001_CryptoPro_ESDH |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 96>>)),
  id_GostR3410_94_CryptoPro_ESDH |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 97>>)),
  id_GostR3410_2001_KeyTransportSMIMECapability |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 19>>)),
  id_GostR3410_94_KeyTransportSMIMECapability |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 20>>))]

\* open type tables this module exports, with the table each one is
rfc4490_Tables == <<>>

\* what importing this module adds to the tables
rfc4490_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 13, 1>>), R("rfc4490", "Gost28147_89_KeyWrapParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 643, 2, 2, 13, 0>>), R("rfc4490", "Gost28147_89_KeyWrapParameters"))>>
=================================================================
