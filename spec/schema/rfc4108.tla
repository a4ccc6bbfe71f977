------------------------ MODULE rfc4108 ------------------------
\* https://www.rfc-editor.org/rfc/rfc4108.txt
\* https://www.rfc-editor.org/errata_search.php?rfc=4108
EXTENDS Asn1Notation

rfc4108_Imports == <<"rfc5280", "rfc5652">>

rfc4108_StarImports == <<>>

rfc4108_Types == [
  HardwareSerialEntry |-> CHOICE(<<
    REQ("all", NULL_T),
    REQ("single", OCTET_STRING),
    REQ("block", SEQUENCE(<<
        REQ("low", OCTET_STRING),
        REQ("high", OCTET_STRING)>>))>>),
  HardwareModules |-> SEQUENCE(<<
    REQ("hwType", OBJECT_IDENTIFIER),
    REQ("hwSerialEntries", SEQUENCE_OF(R("rfc4108", "HardwareSerialEntry")))>>),
  CommunityIdentifier |-> CHOICE(<<
    REQ("communityOID", OBJECT_IDENTIFIER),
    REQ("hwModuleList", R("rfc4108", "HardwareModules"))>>),
  PreferredPackageIdentifier |-> SEQUENCE(<<
    REQ("fwPkgID", OBJECT_IDENTIFIER),
    REQ("verNum", CON(INTEGER, RANGE(I(0), NOBOUND)))>>),
  PreferredOrLegacyPackageIdentifier |-> CHOICE(<<
    REQ("preferred", R("rfc4108", "PreferredPackageIdentifier")),
    REQ("legacy", OCTET_STRING)>>),
  CurrentFWConfig |-> SEQUENCE(<<
    OPT("fwPkgType", INTEGER),
    REQ("fwPkgName", R("rfc4108", "PreferredOrLegacyPackageIdentifier"))>>),
  PreferredOrLegacyStalePackageIdentifier |-> CHOICE(<<
    REQ("preferredStaleVerNum", CON(INTEGER, RANGE(I(0), NOBOUND))),
    REQ("legacyStaleVersion", OCTET_STRING)>>),
  FirmwarePackageLoadErrorCode |-> NAMED(ENUMERATED, <<NV("decodeFailure", 1), NV("badContentInfo", 2), NV("badSignedData", 3), NV("badEncapContent", 4), NV("badCertificate", 5), NV("badSignerInfo", 6), NV("badSignedAttrs", 7), NV("badUnsignedAttrs", 8), NV("missingContent", 9), NV("noTrustAnchor", 10), NV("notAuthorized", 11), NV("badDigestAlgorithm", 12), NV("badSignatureAlgorithm", 13), NV("unsupportedKeySize", 14), NV("signatureFailure", 15), NV("contentTypeMismatch", 16), NV("badEncryptedData", 17), NV("unprotectedAttrsPresent", 18), NV("badEncryptContent", 19), NV("badEncryptAlgorithm", 20), NV("missingCiphertext", 21), NV("noDecryptKey", 22), NV("decryptFailure", 23), NV("badCompressAlgorithm", 24), NV("missingCompressedContent", 25), NV("decompressFailure", 26), NV("wrongHardware", 27), NV("stalePackage", 28), NV("notInCommunity", 29), NV("unsupportedPackageType", 30), NV("missingDependency", 31), NV("wrongDependencyVersion", 32), NV("insufficientMemory", 33), NV("badFirmware", 34), NV("unsupportedParameters", 35), NV("breaksDependency", 36), NV("otherError", 99)>>),
  VendorLoadErrorCode |-> INTEGER,
  WrappedFirmwareKey |-> R("rfc5652", "EnvelopedData"),
  FirmwarePackageInfo |-> CON(SEQUENCE(<<
    OPT("fwPkgType", INTEGER),
    OPT("dependencies", SEQUENCE_OF(R("rfc4108", "PreferredOrLegacyPackageIdentifier")))>>), SIZE(1, 2)),
  CommunityIdentifiers |-> SEQUENCE_OF(R("rfc4108", "CommunityIdentifier")),
  ImplementedCompressAlgorithms |-> SEQUENCE_OF(OBJECT_IDENTIFIER),
  ImplementedCryptoAlgorithms |-> SEQUENCE_OF(OBJECT_IDENTIFIER),
  DecryptKeyIdentifier |-> OCTET_STRING,
  TargetHardwareIdentifiers |-> SEQUENCE_OF(OBJECT_IDENTIFIER),
  FirmwarePackageIdentifier |-> SEQUENCE(<<
    REQ("name", R("rfc4108", "PreferredOrLegacyPackageIdentifier")),
    OPT("stale", R("rfc4108", "PreferredOrLegacyStalePackageIdentifier"))>>),
  FirmwarePackageMessageDigest |-> SEQUENCE(<<
    REQ("algorithm", R("rfc5280", "AlgorithmIdentifier")),
    REQ("msgDigest", OCTET_STRING)>>),
  FWErrorVersion |-> NAMED(INTEGER, <<NV("v1", 1)>>),
  FirmwarePackageLoadError |-> SEQUENCE(<<
    DFLT("version", R("rfc4108", "FWErrorVersion"), VI(1)),
    REQ("hwType", OBJECT_IDENTIFIER),
    REQ("hwSerialNum", OCTET_STRING),
    REQ("errorCode", R("rfc4108", "FirmwarePackageLoadErrorCode")),
    OPT("vendorErrorCode", R("rfc4108", "VendorLoadErrorCode")),
    OPT("fwPkgName", R("rfc4108", "PreferredOrLegacyPackageIdentifier")),
    OPT("config", IMPL(CTX, 1, SEQUENCE_OF(R("rfc4108", "CurrentFWConfig"))))>>),
  FWReceiptVersion |-> NAMED(INTEGER, <<NV("v1", 1)>>),
  FirmwarePackageLoadReceipt |-> SEQUENCE(<<
    DFLT("version", R("rfc4108", "FWReceiptVersion"), VI(1)),
    REQ("hwType", OBJECT_IDENTIFIER),
    REQ("hwSerialNum", OCTET_STRING),
    REQ("fwPkgName", R("rfc4108", "PreferredOrLegacyPackageIdentifier")),
    OPT("trustAnchorKeyID", OCTET_STRING),
    OPT("decryptKeyID", IMPL(CTX, 1, OCTET_STRING))>>),
  FirmwarePkgData |-> OCTET_STRING,
  HardwareModuleName |-> SEQUENCE(<<
    REQ("hwType", OBJECT_IDENTIFIER),
    REQ("hwSerialNum", OCTET_STRING)>>)]

rfc4108_Values == [
  id_aa_wrappedFirmwareKey |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 39>>)),
  id_aa_firmwarePackageInfo |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 42>>)),
  id_aa_communityIdentifiers |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 40>>)),
  id_aa_implCompressAlgs |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 43>>)),
  id_aa_implCryptoAlgs |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 38>>)),
  id_aa_decryptKeyID |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 37>>)),
  id_aa_targetHardwareIDs |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 36>>)),
  id_aa_firmwarePackageID |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 35>>)),
  id_aa_fwPkgMessageDigest |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 41>>)),
  id_ct_firmwareLoadError |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 18>>)),
  id_ct_firmwareLoadReceipt |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 17>>)),
  id_ct_firmwarePackage |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 16>>)),
  id_on_hardwareModuleName |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 8, 4>>))]

\* open type tables this module exports, with the table each one is
rfc4108_Tables == <<>>

\* what importing this module adds to the tables
rfc4108_Entries == <<
  ENTRY("rfc5280", "anotherNameMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 8, 4>>), R("rfc4108", "HardwareModuleName")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 18>>), R("rfc4108", "FirmwarePackageLoadError")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 17>>), R("rfc4108", "FirmwarePackageLoadReceipt")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 16>>), R("rfc4108", "FirmwarePkgData")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 39>>), R("rfc4108", "WrappedFirmwareKey")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 42>>), R("rfc4108", "FirmwarePackageInfo")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 40>>), R("rfc4108", "CommunityIdentifiers")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 43>>), R("rfc4108", "ImplementedCompressAlgorithms")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 38>>), R("rfc4108", "ImplementedCryptoAlgorithms")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 37>>), R("rfc4108", "DecryptKeyIdentifier")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 36>>), R("rfc4108", "TargetHardwareIdentifiers")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 35>>), R("rfc4108", "FirmwarePackageIdentifier")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 41>>), R("rfc4108", "FirmwarePackageMessageDigest"))>>
=================================================================
