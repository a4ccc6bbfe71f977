------------------------ MODULE rfc7292 ------------------------
\* https://www.rfc-editor.org/rfc/rfc7292.txt
\* https://www.rfc-editor.org/errata_search.php?rfc=7292
EXTENDS Asn1Notation

rfc7292_Imports == <<"rfc2315", "rfc5652", "rfc5280", "rfc5958">>

rfc7292_StarImports == <<>>

rfc7292_Types == [
  DigestInfo |-> R("rfc2315", "DigestInfo"),
  ContentInfo |-> R("rfc5652", "ContentInfo"),
  PKCS12Attribute |-> R("rfc5652", "Attribute"),
  EncryptedPrivateKeyInfo |-> R("rfc5958", "EncryptedPrivateKeyInfo"),
  PrivateKeyInfo |-> R("rfc5958", "PrivateKeyInfo"),
  AttributeType |-> OBJECT_IDENTIFIER,
  AttributeValue |-> ANY_T,
  AttributeValues |-> SET_OF(R("rfc7292", "AttributeValue")),
  CMSSingleAttribute |-> SEQUENCE(<<
    REQ("attrType", R("rfc7292", "AttributeType")),
    OPEN("attrType", "rfc5652", "cmsAttributesMap", REQ("attrValues", CON(R("rfc7292", "AttributeValues"), SIZE(1, 1))))>>),
  Pkcs_12PbeParams |-> SEQUENCE(<<
    REQ("salt", OCTET_STRING),
    REQ("iterations", INTEGER)>>),
  BAG_TYPE |-> SEQUENCE(<<
    REQ("id", OBJECT_IDENTIFIER),
    OPEN("id", "rfc7292", "pkcs12BagTypeMap", REQ("unnamed1", ANY_T))>>),
  KeyBag |-> R("rfc5958", "PrivateKeyInfo"),
  PKCS8ShroudedKeyBag |-> R("rfc5958", "EncryptedPrivateKeyInfo"),
  CertBag |-> SEQUENCE(<<
    REQ("certId", OBJECT_IDENTIFIER),
    OPEN("certId", "rfc7292", "pkcs12CertBagMap", REQ("certValue", EXPL(CTX, 0, ANY_T)))>>),
  CRLBag |-> SEQUENCE(<<
    REQ("crlId", OBJECT_IDENTIFIER),
    OPEN("crlId", "rfc7292", "pkcs12CRLBagMap", REQ("crlValue", EXPL(CTX, 0, ANY_T)))>>),
  SecretBag |-> SEQUENCE(<<
    REQ("secretTypeId", OBJECT_IDENTIFIER),
    OPEN("secretTypeId", "rfc7292", "pkcs12SecretBagMap", REQ("secretValue", EXPL(CTX, 0, ANY_T)))>>),
  SafeBag |-> SEQUENCE(<<
    REQ("bagId", OBJECT_IDENTIFIER),
    OPEN("bagId", "rfc7292", "pkcs12BagTypeMap", REQ("bagValue", EXPL(CTX, 0, ANY_T))),
    OPT("bagAttributes", SET_OF(R("rfc5652", "Attribute")))>>),
  SafeContents |-> SEQUENCE_OF(R("rfc7292", "SafeBag")),
  AuthenticatedSafe |-> SEQUENCE_OF(R("rfc5652", "ContentInfo")),
  MacData |-> SEQUENCE(<<
    REQ("mac", R("rfc2315", "DigestInfo")),
    REQ("macSalt", OCTET_STRING),
    DFLT("iterations", INTEGER, VI(1))>>),
  PFX |-> SEQUENCE(<<
    REQ("version", NAMED(INTEGER, <<NV("v3", 3)>>)),
    REQ("authSafe", R("rfc5652", "ContentInfo")),
    OPT("macData", R("rfc7292", "MacData"))>>),
  FriendlyName |-> CON(BMPString, SIZE(1, 255))]

rfc7292_Values == [
  rsadsi |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549>>)),
  pkcs |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1>>)),
  pkcs_9 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9>>)),
  certTypes |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 22>>)),
  crlTypes |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 23>>)),
  pkcs_12 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 12>>)),
  pkcs_12PbeIds |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 12, 1>>)),
  pbeWithSHAAnd128BitRC4 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 12, 1, 1>>)),
  pbeWithSHAAnd40BitRC4 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 12, 1, 2>>)),
  pbeWithSHAAnd3_KeyTripleDES_CBC |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 12, 1, 3>>)),
  pbeWithSHAAnd2_KeyTripleDES_CBC |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 12, 1, 4>>)),
  pbeWithSHAAnd128BitRC2_CBC |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 12, 1, 5>>)),
  pbeWithSHAAnd40BitRC2_CBC |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 12, 1, 6>>)),
  bagtypes |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 12, 10, 1>>)),
  id_keyBag |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 12, 10, 1, 1>>)),
  id_pkcs8ShroudedKeyBag |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 12, 10, 1, 2>>)),
  id_certBag |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 12, 10, 1, 3>>)),
  x509Certificate |-> CONST(R("rfc7292", "CertBag"), VSEQ(<<FV("certId", VOID(<<1, 2, 840, 113549, 1, 9, 22, 1>>))>>)),
  sdsiCertificate |-> CONST(R("rfc7292", "CertBag"), VSEQ(<<FV("certId", VOID(<<1, 2, 840, 113549, 1, 9, 22, 2>>))>>)),
  id_CRLBag |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 12, 10, 1, 4>>)),
  x509CRL |-> CONST(R("rfc7292", "CRLBag"), VSEQ(<<FV("crlId", VOID(<<1, 2, 840, 113549, 1, 9, 23, 1>>))>>)),
  id_secretBag |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 12, 10, 1, 5>>)),
  id_safeContentsBag |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 12, 10, 1, 6>>)),
  pkcs_9_at_localKeyId |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 21>>)),
  localKeyId |-> CONST(R("rfc7292", "CMSSingleAttribute"), VSEQ(<<FV("attrType", VOID(<<1, 2, 840, 113549, 1, 9, 21>>))>>)),
  pkcs_9_ub_pkcs9String |-> CONST(INTEGER, VI(255)),
  pkcs_9_ub_friendlyName |-> CONST(INTEGER, VI(255)),
  pkcs_9_at_friendlyName |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 20>>)),
  friendlyName |-> CONST(R("rfc7292", "CMSSingleAttribute"), VSEQ(<<FV("attrType", VOID(<<1, 2, 840, 113549, 1, 9, 20>>))>>))]

\* open type tables this module exports, with the table each one is
rfc7292_Tables == <<<<"pkcs12BagTypeMap", "rfc7292", "pkcs12BagTypeMap">>, <<"pkcs12CertBagMap", "rfc7292", "pkcs12CertBagMap">>, <<"pkcs12CRLBagMap", "rfc7292", "pkcs12CRLBagMap">>, <<"pkcs12SecretBagMap", "rfc7292", "pkcs12SecretBagMap">>>>

\* what importing this module adds to the tables
rfc7292_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 12, 1, 1>>), R("rfc7292", "Pkcs_12PbeParams")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 12, 1, 2>>), R("rfc7292", "Pkcs_12PbeParams")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 12, 1, 3>>), R("rfc7292", "Pkcs_12PbeParams")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 12, 1, 4>>), R("rfc7292", "Pkcs_12PbeParams")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 12, 1, 5>>), R("rfc7292", "Pkcs_12PbeParams")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 2, 840, 113549, 1, 12, 1, 6>>), R("rfc7292", "Pkcs_12PbeParams")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 20>>), R("rfc7292", "FriendlyName")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 21>>), OCTET_STRING),
  ENTRY("rfc7292", "pkcs12BagTypeMap", VOID(<<1, 2, 840, 113549, 1, 12, 10, 1, 1>>), R("rfc7292", "KeyBag")),
  ENTRY("rfc7292", "pkcs12BagTypeMap", VOID(<<1, 2, 840, 113549, 1, 12, 10, 1, 2>>), R("rfc7292", "PKCS8ShroudedKeyBag")),
  ENTRY("rfc7292", "pkcs12BagTypeMap", VOID(<<1, 2, 840, 113549, 1, 12, 10, 1, 3>>), R("rfc7292", "CertBag")),
  ENTRY("rfc7292", "pkcs12BagTypeMap", VOID(<<1, 2, 840, 113549, 1, 12, 10, 1, 4>>), R("rfc7292", "CRLBag")),
  ENTRY("rfc7292", "pkcs12BagTypeMap", VOID(<<1, 2, 840, 113549, 1, 12, 10, 1, 5>>), R("rfc7292", "SecretBag")),
  ENTRY("rfc7292", "pkcs12BagTypeMap", VOID(<<1, 2, 840, 113549, 1, 12, 10, 1, 6>>), R("rfc7292", "SafeContents")),
  ENTRY("rfc7292", "pkcs12CertBagMap", VOID(<<1, 2, 840, 113549, 1, 9, 22, 1>>), OCTET_STRING),
  ENTRY("rfc7292", "pkcs12CertBagMap", VOID(<<1, 2, 840, 113549, 1, 9, 22, 2>>), IA5String),
  ENTRY("rfc7292", "pkcs12CRLBagMap", VOID(<<1, 2, 840, 113549, 1, 9, 23, 1>>), OCTET_STRING)>>
=================================================================
