------------------------ MODULE rfc8696 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8696.txt
EXTENDS Asn1Notation

rfc8696_Imports == <<"rfc5652">>

rfc8696_StarImports == <<>>

rfc8696_Types == [
  PreSharedKeyIdentifier |-> OCTET_STRING,
  KeyTransRecipientInfos |-> SEQUENCE_OF(R("rfc5652", "KeyTransRecipientInfo")),
  KeyTransPSKRecipientInfo |-> SEQUENCE(<<
    REQ("version", R("rfc5652", "CMSVersion")),
    REQ("pskid", R("rfc8696", "PreSharedKeyIdentifier")),
    REQ("kdfAlgorithm", R("rfc5652", "KeyDerivationAlgorithmIdentifier")),
    REQ("keyEncryptionAlgorithm", R("rfc5652", "KeyEncryptionAlgorithmIdentifier")),
    REQ("ktris", R("rfc8696", "KeyTransRecipientInfos")),
    REQ("encryptedKey", R("rfc5652", "EncryptedKey"))>>),
  KeyAgreePSKRecipientInfo |-> SEQUENCE(<<
    REQ("version", R("rfc5652", "CMSVersion")),
    REQ("pskid", R("rfc8696", "PreSharedKeyIdentifier")),
    REQ("originator", EXPL(CTX, 0, R("rfc5652", "OriginatorIdentifierOrKey"))),
    OPT("ukm", EXPL(CTX, 1, R("rfc5652", "UserKeyingMaterial"))),
    REQ("kdfAlgorithm", R("rfc5652", "KeyDerivationAlgorithmIdentifier")),
    REQ("keyEncryptionAlgorithm", R("rfc5652", "KeyEncryptionAlgorithmIdentifier")),
    REQ("recipientEncryptedKeys", R("rfc5652", "RecipientEncryptedKeys"))>>),
  CMSORIforPSKOtherInfo |-> SEQUENCE(<<
    REQ("psk", OCTET_STRING),
    REQ("keyMgmtAlgType", NAMED(ENUMERATED, <<NV("keyTrans", 5), NV("keyAgree", 10)>>)),
    REQ("keyEncryptionAlgorithm", R("rfc5652", "KeyEncryptionAlgorithmIdentifier")),
    REQ("pskLength", CON(INTEGER, RANGE(I(1), NOBOUND))),
    REQ("kdkLength", CON(INTEGER, RANGE(I(1), NOBOUND)))>>)]

rfc8696_Values == [
  id_ori |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 13>>)),
  id_ori_keyTransPSK |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 13, 1>>)),
  id_ori_keyAgreePSK |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 13, 2>>))]

\* open type tables this module exports, with the table each one is
rfc8696_Tables == <<>>

\* what importing this module adds to the tables
rfc8696_Entries == <<
  ENTRY("rfc5652", "otherRecipientInfoMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 13, 1>>), R("rfc8696", "KeyTransPSKRecipientInfo")),
  ENTRY("rfc5652", "otherRecipientInfoMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 13, 2>>), R("rfc8696", "KeyAgreePSKRecipientInfo"))>>
=================================================================
