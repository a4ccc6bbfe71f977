------------------------ MODULE rfc6031 ------------------------
\* https://www.rfc-editor.org/rfc/rfc6031.txt
EXTENDS Asn1Notation

rfc6031_Imports == <<"rfc5652", "rfc6019">>

rfc6031_StarImports == <<>>

rfc6031_Types == [
  at_pskc_manufacturer |-> UTF8String,
  at_pskc_serialNo |-> UTF8String,
  at_pskc_model |-> UTF8String,
  at_pskc_issueNo |-> UTF8String,
  at_pskc_deviceBinding |-> UTF8String,
  at_pskc_deviceStartDate |-> GeneralizedTime,
  at_pskc_deviceExpiryDate |-> GeneralizedTime,
  at_pskc_moduleId |-> UTF8String,
  at_pskc_deviceUserId |-> UTF8String,
  at_pskc_keyUserId |-> UTF8String,
  at_pskc_algorithm |-> UTF8String,
  at_pskc_issuer |-> UTF8String,
  at_pskc_keyProfileId |-> UTF8String,
  at_pskc_keyReference |-> UTF8String,
  FriendlyName |-> SEQUENCE(<<
    REQ("friendlyName", UTF8String),
    OPT("friendlyNameLangTag", UTF8String)>>),
  at_pskc_friendlyName |-> R("rfc6031", "FriendlyName"),
  Encoding |-> CON(UTF8String, VALUES(<<VSTR(<<68, 69, 67, 73, 77, 65, 76>>), VSTR(<<72, 69, 88, 65, 68, 69, 67, 73, 77, 65, 76>>), VSTR(<<65, 76, 80, 72, 65, 78, 85, 77, 69, 82, 73, 67>>), VSTR(<<66, 65, 83, 69, 54, 52>>), VSTR(<<66, 73, 78, 65, 82, 89>>)>>)),
  ChallengeFormat |-> SEQUENCE(<<
    REQ("encoding", R("rfc6031", "Encoding")),
    DFLT("checkDigit", BOOLEAN_T, VB(FALSE)),
    REQ("min", CON(INTEGER, RANGE(I(0), NOBOUND))),
    REQ("max", CON(INTEGER, RANGE(I(0), NOBOUND)))>>),
  ResponseFormat |-> SEQUENCE(<<
    REQ("encoding", R("rfc6031", "Encoding")),
    REQ("length", CON(INTEGER, RANGE(I(0), NOBOUND))),
    DFLT("checkDigit", BOOLEAN_T, VB(FALSE))>>),
  PSKCAlgorithmParameters |-> CHOICE(<<
    REQ("suite", UTF8String),
    REQ("challengeFormat", IMPL(CTX, 0, R("rfc6031", "ChallengeFormat"))),
    REQ("responseFormat", IMPL(CTX, 1, R("rfc6031", "ResponseFormat")))>>),
  at_pskc_algorithmParameters |-> R("rfc6031", "PSKCAlgorithmParameters"),
  at_pskc_counter |-> CON(INTEGER, RANGE(I(0), NOBOUND)),
  at_pskc_time |-> R("rfc6019", "BinaryTime"),
  at_pskc_timeInterval |-> CON(INTEGER, RANGE(I(0), NOBOUND)),
  at_pskc_timeDrift |-> CON(INTEGER, RANGE(I(0), NOBOUND)),
  ValueMac |-> SEQUENCE(<<
    REQ("macAlgorithm", UTF8String),
    REQ("mac", UTF8String)>>),
  at_pskc_valueMAC |-> R("rfc6031", "ValueMac"),
  at_pskc_keyId |-> UTF8String,
  at_pskc_keyStartDate |-> GeneralizedTime,
  at_pskc_keyExpiryDate |-> GeneralizedTime,
  at_pskc_numberOfTransactions |-> CON(INTEGER, RANGE(I(0), NOBOUND)),
  PSKCKeyUsage |-> CON(UTF8String, VALUES(<<VSTR(<<79, 84, 80>>), VSTR(<<67, 82>>), VSTR(<<69, 110, 99, 114, 121, 112, 116>>), VSTR(<<73, 110, 116, 101, 103, 114, 105, 116, 121>>), VSTR(<<86, 101, 114, 105, 102, 121>>), VSTR(<<85, 110, 108, 111, 99, 107>>), VSTR(<<68, 101, 99, 114, 121, 112, 116>>), VSTR(<<75, 101, 121, 87, 114, 97, 112>>), VSTR(<<85, 110, 119, 114, 97, 112>>), VSTR(<<68, 101, 114, 105, 118, 101>>), VSTR(<<71, 101, 110, 101, 114, 97, 116, 101>>)>>)),
  PSKCKeyUsages |-> SEQUENCE_OF(R("rfc6031", "PSKCKeyUsage")),
  at_pskc_keyUsage |-> R("rfc6031", "PSKCKeyUsages"),
  PINUsageMode |-> CON(UTF8String, VALUES(<<VSTR(<<76, 111, 99, 97, 108>>), VSTR(<<80, 114, 101, 112, 101, 110, 100>>), VSTR(<<65, 112, 112, 101, 110, 100>>), VSTR(<<65, 108, 103, 111, 114, 105, 116, 104, 109, 105, 99>>)>>)),
  PINPolicy |-> SEQUENCE(<<
    OPT("pinKeyId", IMPL(CTX, 0, UTF8String)),
    REQ("pinUsageMode", IMPL(CTX, 1, R("rfc6031", "PINUsageMode"))),
    OPT("maxFailedAttempts", IMPL(CTX, 2, CON(INTEGER, RANGE(I(0), NOBOUND)))),
    OPT("minLength", IMPL(CTX, 3, CON(INTEGER, RANGE(I(0), NOBOUND)))),
    OPT("maxLength", IMPL(CTX, 4, CON(INTEGER, RANGE(I(0), NOBOUND)))),
    OPT("pinEncoding", IMPL(CTX, 5, R("rfc6031", "Encoding")))>>),
  at_pskc_pinPolicy |-> R("rfc6031", "PINPolicy"),
  AttributeType |-> OBJECT_IDENTIFIER,
  AttributeValue |-> ANY_T,
  SKeyAttribute |-> SEQUENCE(<<
    REQ("attrType", R("rfc6031", "AttributeType")),
    OPEN("attrType", "rfc6031", "sKeyAttributesMap", REQ("attrValues", SET_OF(R("rfc6031", "AttributeValue"))))>>),
  SKeyPkgAttribute |-> SEQUENCE(<<
    REQ("attrType", R("rfc6031", "AttributeType")),
    OPEN("attrType", "rfc6031", "sKeyPkgAttributesMap", REQ("attrValues", SET_OF(R("rfc6031", "AttributeValue"))))>>),
  KeyPkgVersion |-> NAMED(INTEGER, <<NV("v1", 1)>>),
  OneSymmetricKey |-> CON(SEQUENCE(<<
    OPT("sKeyAttrs", CON(SEQUENCE_OF(R("rfc6031", "SKeyAttribute")), SIZE(1, MAXSIZE))),
    OPT("sKey", OCTET_STRING)>>), SIZE(1, 2)),
  SymmetricKeys |-> CON(SEQUENCE_OF(R("rfc6031", "OneSymmetricKey")), SIZE(1, MAXSIZE)),
  SymmetricKeyPackage |-> SEQUENCE(<<
    DFLT("version", R("rfc6031", "KeyPkgVersion"), VI(1)),
    OPT("sKeyPkgAttrs", IMPL(CTX, 0, CON(SEQUENCE_OF(R("rfc6031", "SKeyPkgAttribute")), SIZE(1, MAXSIZE)))),
    REQ("sKeys", R("rfc6031", "SymmetricKeys"))>>)]

rfc6031_Values == [
  id_pskc |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12>>)),
  id_pskc_manufacturer |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 1>>)),
  id_pskc_serialNo |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 2>>)),
  id_pskc_model |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 3>>)),
  id_pskc_issueNo |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 4>>)),
  id_pskc_deviceBinding |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 5>>)),
  id_pskc_deviceStartDate |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 6>>)),
  id_pskc_deviceExpiryDate |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 7>>)),
  id_pskc_moduleId |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 8>>)),
  id_pskc_deviceUserId |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 26>>)),
  id_pskc_keyId |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 9>>)),
  id_pskc_algorithm |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 10>>)),
  id_pskc_issuer |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 11>>)),
  id_pskc_keyProfileId |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 12>>)),
  id_pskc_keyReference |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 13>>)),
  id_pskc_friendlyName |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 14>>)),
  id_pskc_algorithmParameters |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 15>>)),
  id_pskc_counter |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 16>>)),
  id_pskc_time |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 17>>)),
  id_pskc_timeInterval |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 18>>)),
  id_pskc_timeDrift |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 19>>)),
  id_pskc_valueMAC |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 20>>)),
  id_pskc_keyUserId |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 27>>)),
  id_pskc_keyStartDate |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 21>>)),
  id_pskc_keyExpiryDate |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 22>>)),
  id_pskc_numberOfTransactions |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 23>>)),
  id_pskc_keyUsages |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 24>>)),
  id_pskc_pinPolicy |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 25>>)),
  id_ct_KP_sKeyPackage |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 25>>))]

\* open type tables this module exports, with the table each one is
rfc6031_Tables == <<<<"sKeyPkgAttributesMap", "rfc6031", "sKeyPkgAttributesMap">>, <<"sKeyAttributesMap", "rfc6031", "sKeyAttributesMap">>>>

\* what importing this module adds to the tables
rfc6031_Entries == <<
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 25>>), R("rfc6031", "SymmetricKeyPackage")),
  ENTRY("rfc6031", "sKeyPkgAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 1>>), R("rfc6031", "at_pskc_manufacturer")),
  ENTRY("rfc6031", "sKeyPkgAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 2>>), R("rfc6031", "at_pskc_serialNo")),
  ENTRY("rfc6031", "sKeyPkgAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 3>>), R("rfc6031", "at_pskc_model")),
  ENTRY("rfc6031", "sKeyPkgAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 4>>), R("rfc6031", "at_pskc_issueNo")),
  ENTRY("rfc6031", "sKeyPkgAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 5>>), R("rfc6031", "at_pskc_deviceBinding")),
  ENTRY("rfc6031", "sKeyPkgAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 6>>), R("rfc6031", "at_pskc_deviceStartDate")),
  ENTRY("rfc6031", "sKeyPkgAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 7>>), R("rfc6031", "at_pskc_deviceExpiryDate")),
  ENTRY("rfc6031", "sKeyPkgAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 8>>), R("rfc6031", "at_pskc_moduleId")),
  ENTRY("rfc6031", "sKeyPkgAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 26>>), R("rfc6031", "at_pskc_deviceUserId")),
  ENTRY("rfc6031", "sKeyAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 9>>), R("rfc6031", "at_pskc_keyId")),
  ENTRY("rfc6031", "sKeyAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 10>>), R("rfc6031", "at_pskc_algorithm")),
  ENTRY("rfc6031", "sKeyAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 11>>), R("rfc6031", "at_pskc_issuer")),
  ENTRY("rfc6031", "sKeyAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 12>>), R("rfc6031", "at_pskc_keyProfileId")),
  ENTRY("rfc6031", "sKeyAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 13>>), R("rfc6031", "at_pskc_keyReference")),
  ENTRY("rfc6031", "sKeyAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 14>>), R("rfc6031", "at_pskc_friendlyName")),
  ENTRY("rfc6031", "sKeyAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 15>>), R("rfc6031", "at_pskc_algorithmParameters")),
  ENTRY("rfc6031", "sKeyAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 16>>), R("rfc6031", "at_pskc_counter")),
  ENTRY("rfc6031", "sKeyAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 17>>), R("rfc6031", "at_pskc_time")),
  ENTRY("rfc6031", "sKeyAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 18>>), R("rfc6031", "at_pskc_timeInterval")),
  ENTRY("rfc6031", "sKeyAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 19>>), R("rfc6031", "at_pskc_timeDrift")),
  ENTRY("rfc6031", "sKeyAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 20>>), R("rfc6031", "at_pskc_valueMAC")),
  ENTRY("rfc6031", "sKeyAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 27>>), R("rfc6031", "at_pskc_keyUserId")),
  ENTRY("rfc6031", "sKeyAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 21>>), R("rfc6031", "at_pskc_keyStartDate")),
  ENTRY("rfc6031", "sKeyAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 22>>), R("rfc6031", "at_pskc_keyExpiryDate")),
  ENTRY("rfc6031", "sKeyAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 23>>), R("rfc6031", "at_pskc_numberOfTransactions")),
  ENTRY("rfc6031", "sKeyAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 24>>), R("rfc6031", "at_pskc_keyUsage")),
  ENTRY("rfc6031", "sKeyAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 12, 25>>), R("rfc6031", "at_pskc_pinPolicy"))>>
=================================================================
