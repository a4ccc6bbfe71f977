------------------------ MODULE rfc6032 ------------------------
\* https://www.rfc-editor.org/rfc/rfc6032.txt
EXTENDS Asn1Notation

rfc6032_Imports == <<"rfc5652", "rfc5083">>

rfc6032_StarImports == <<>>

rfc6032_Types == [
  ContentDecryptKeyID |-> OCTET_STRING,
  EncryptedKeyPackage |-> CHOICE(<<
    REQ("encrypted", R("rfc5652", "EncryptedData")),
    REQ("enveloped", IMPL(CTX, 0, R("rfc5652", "EnvelopedData"))),
    REQ("authEnveloped", IMPL(CTX, 1, R("rfc5083", "AuthEnvelopedData")))>>)]

rfc6032_Values == [
  id_aa_KP_contentDecryptKeyID |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 66>>)),
  aa_content_decrypt_key_identifier |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 66>>))>>)),
  id_ct_KP_encryptedKeyPkg |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 78, 2>>))]

\* open type tables this module exports, with the table each one is
rfc6032_Tables == <<>>

\* what importing this module adds to the tables
rfc6032_Entries == <<
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 2, 78, 2>>), R("rfc6032", "EncryptedKeyPackage")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 66>>), R("rfc6032", "ContentDecryptKeyID"))>>
=================================================================
