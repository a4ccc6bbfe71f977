------------------------ MODULE rfc5280 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5280.txt
EXTENDS Asn1Notation

rfc5280_Imports == <<>>

rfc5280_StarImports == <<>>

rfc5280_Types == [
  TerminalType |-> NAMED(INTEGER, <<NV("telex", 3), NV("teletex", 4), NV("g3-facsimile", 5), NV("g4-facsimile", 6), NV("ia5-terminal", 7), NV("videotex", 8)>>),
  Extension |-> SEQUENCE(<<
    REQ("extnID", OBJECT_IDENTIFIER),
    DFLT("critical", BOOLEAN_T, VB(FALSE)),
    REQ("extnValue", OCTET_STRING)>>),
  Extensions |-> CON(SEQUENCE_OF(R("rfc5280", "Extension")), SIZE(1, MAXSIZE)),
  UnformattedPostalAddress |-> SET_T(<<
    OPT("printable-address", CON(SEQUENCE_OF(CON(PrintableString, SIZE(1, 30))), SIZE(1, 6))),
    OPT("teletex-string", CON(TeletexString, SIZE(1, 180)))>>),
  X520OrganizationName |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 64))),
    REQ("printableString", CON(PrintableString, SIZE(1, 64))),
    REQ("universalString", CON(UniversalString, SIZE(1, 64))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 64))),
    REQ("bmpString", CON(BMPString, SIZE(1, 64)))>>),
  PostalCode |-> CHOICE(<<
    REQ("numeric-code", CON(NumericString, SIZE(1, 16))),
    REQ("printable-code", CON(PrintableString, SIZE(1, 16)))>>),
  DomainComponent |-> IA5String,
  AttributeType |-> OBJECT_IDENTIFIER,
  PDSParameter |-> SET_T(<<
    OPT("printable-string", CON(PrintableString, SIZE(1, 30))),
    OPT("teletex-string", CON(TeletexString, SIZE(1, 30)))>>),
  PhysicalDeliveryPersonalName |-> R("rfc5280", "PDSParameter"),
  TeletexDomainDefinedAttribute |-> SEQUENCE(<<
    REQ("type", CON(TeletexString, SIZE(1, 8))),
    REQ("value", CON(TeletexString, SIZE(1, 128)))>>),
  TeletexDomainDefinedAttributes |-> CON(SEQUENCE_OF(R("rfc5280", "TeletexDomainDefinedAttribute")), SIZE(1, 4)),
  X520LocalityName |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 128))),
    REQ("printableString", CON(PrintableString, SIZE(1, 128))),
    REQ("universalString", CON(UniversalString, SIZE(1, 128))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 128))),
    REQ("bmpString", CON(BMPString, SIZE(1, 128)))>>),
  PersonalName |-> SET_T(<<
    REQ("surname", IMPL(CTX, 0, CON(PrintableString, SIZE(1, 40)))),
    OPT("given-name", IMPL(CTX, 1, CON(PrintableString, SIZE(1, 16)))),
    OPT("initials", IMPL(CTX, 2, CON(PrintableString, SIZE(1, 5)))),
    OPT("generation-qualifier", IMPL(CTX, 3, CON(PrintableString, SIZE(1, 3))))>>),
  OrganizationalUnitName |-> CON(PrintableString, SIZE(1, 32)),
  Version |-> NAMED(INTEGER, <<NV("v1", 0), NV("v2", 1), NV("v3", 2)>>),
  CertificateSerialNumber |-> INTEGER,
  AlgorithmIdentifier |-> SEQUENCE(<<
    REQ("algorithm", OBJECT_IDENTIFIER),
    OPEN("algorithm", "rfc5280", "algorithmIdentifierMap", OPT("parameters", ANY_T))>>),
  Time |-> CHOICE(<<
    REQ("utcTime", UTCTime),
    REQ("generalTime", GeneralizedTime)>>),
  AttributeValue |-> ANY_T,
  AttributeTypeAndValue |-> SEQUENCE(<<
    REQ("type", R("rfc5280", "AttributeType")),
    OPEN("type", "rfc5280", "certificateAttributesMap", REQ("value", R("rfc5280", "AttributeValue")))>>),
  RelativeDistinguishedName |-> CON(SET_OF(R("rfc5280", "AttributeTypeAndValue")), SIZE(1, MAXSIZE)),
  RDNSequence |-> SEQUENCE_OF(R("rfc5280", "RelativeDistinguishedName")),
  Name |-> CHOICE(<<
    REQ("rdnSequence", R("rfc5280", "RDNSequence"))>>),
  TBSCertList |-> SEQUENCE(<<
    OPT("version", R("rfc5280", "Version")),
    REQ("signature", R("rfc5280", "AlgorithmIdentifier")),
    REQ("issuer", R("rfc5280", "Name")),
    REQ("thisUpdate", R("rfc5280", "Time")),
    OPT("nextUpdate", R("rfc5280", "Time")),
    OPT("revokedCertificates", SEQUENCE_OF(SEQUENCE(<<
          REQ("userCertificate", R("rfc5280", "CertificateSerialNumber")),
          REQ("revocationDate", R("rfc5280", "Time")),
          OPT("crlEntryExtensions", R("rfc5280", "Extensions"))>>))),
    OPT("crlExtensions", EXPL(CTX, 0, R("rfc5280", "Extensions")))>>),
  CertificateList |-> SEQUENCE(<<
    REQ("tbsCertList", R("rfc5280", "TBSCertList")),
    REQ("signatureAlgorithm", R("rfc5280", "AlgorithmIdentifier")),
    REQ("signature", BIT_STRING)>>),
  PhysicalDeliveryOfficeName |-> R("rfc5280", "PDSParameter"),
  ExtensionAttribute |-> SEQUENCE(<<
    REQ("extension-attribute-type", IMPL(CTX, 0, CON(INTEGER, RANGE(I(0), I(256))))),
    OPEN("extension-attribute-type", "rfc5280", "oraddressExtensionAttributeMap", REQ("extension-attribute-value", EXPL(CTX, 1, ANY_T)))>>),
  X520dnQualifier |-> PrintableString,
  PosteRestanteAddress |-> R("rfc5280", "PDSParameter"),
  UniqueIdentifier |-> BIT_STRING,
  Validity |-> SEQUENCE(<<
    REQ("notBefore", R("rfc5280", "Time")),
    REQ("notAfter", R("rfc5280", "Time"))>>),
  SubjectPublicKeyInfo |-> SEQUENCE(<<
    REQ("algorithm", R("rfc5280", "AlgorithmIdentifier")),
    REQ("subjectPublicKey", BIT_STRING)>>),
  TBSCertificate |-> SEQUENCE(<<
    DFLT("version", EXPL(CTX, 0, R("rfc5280", "Version")), VI(0)),
    REQ("serialNumber", R("rfc5280", "CertificateSerialNumber")),
    REQ("signature", R("rfc5280", "AlgorithmIdentifier")),
    REQ("issuer", R("rfc5280", "Name")),
    REQ("validity", R("rfc5280", "Validity")),
    REQ("subject", R("rfc5280", "Name")),
    REQ("subjectPublicKeyInfo", R("rfc5280", "SubjectPublicKeyInfo")),
    OPT("issuerUniqueID", IMPL(CTX, 1, R("rfc5280", "UniqueIdentifier"))),
    OPT("subjectUniqueID", IMPL(CTX, 2, R("rfc5280", "UniqueIdentifier"))),
    OPT("extensions", EXPL(CTX, 3, R("rfc5280", "Extensions")))>>),
  X520name |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 32768))),
    REQ("printableString", CON(PrintableString, SIZE(1, 32768))),
    REQ("universalString", CON(UniversalString, SIZE(1, 32768))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 32768))),
    REQ("bmpString", CON(BMPString, SIZE(1, 32768)))>>),
  X121Address |-> CON(NumericString, SIZE(1, 16)),
  NetworkAddress |-> R("rfc5280", "X121Address"),
  PhysicalDeliveryCountryName |-> CHOICE(<<
    REQ("x121-dcc-code", CON(NumericString, SIZE(3, 3))),
    REQ("iso-3166-alpha2-code", CON(PrintableString, SIZE(2, 2)))>>),
  X520Pseudonym |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 128))),
    REQ("printableString", CON(PrintableString, SIZE(1, 128))),
    REQ("universalString", CON(UniversalString, SIZE(1, 128))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 128))),
    REQ("bmpString", CON(BMPString, SIZE(1, 128)))>>),
  AdministrationDomainName |-> EXPL(APP, 2, CHOICE(<<
    REQ("numeric", CON(NumericString, SIZE(0, 16))),
    REQ("printable", CON(PrintableString, SIZE(0, 16)))>>)),
  PresentationAddress |-> SEQUENCE(<<
    OPT("pSelector", EXPL(CTX, 0, OCTET_STRING)),
    OPT("sSelector", EXPL(CTX, 1, OCTET_STRING)),
    OPT("tSelector", EXPL(CTX, 2, OCTET_STRING)),
    REQ("nAddresses", EXPL(CTX, 3, SET_OF(OCTET_STRING)))>>),
  ExtendedNetworkAddress |-> CHOICE(<<
    REQ("e163-4-address", SEQUENCE(<<
        REQ("number", IMPL(CTX, 0, CON(NumericString, SIZE(1, 15)))),
        OPT("sub-address", IMPL(CTX, 1, CON(NumericString, SIZE(1, 40))))>>)),
    REQ("psap-address", IMPL(CTX, 0, R("rfc5280", "PresentationAddress")))>>),
  TeletexOrganizationName |-> CON(TeletexString, SIZE(1, 64)),
  TerminalIdentifier |-> CON(PrintableString, SIZE(1, 24)),
  StreetAddress |-> R("rfc5280", "PDSParameter"),
  ExtensionAttributes |-> CON(SET_OF(R("rfc5280", "ExtensionAttribute")), SIZE(1, 256)),
  ExtensionORAddressComponents |-> R("rfc5280", "PDSParameter"),
  X520OrganizationalUnitName |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 64))),
    REQ("printableString", CON(PrintableString, SIZE(1, 64))),
    REQ("universalString", CON(UniversalString, SIZE(1, 64))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 64))),
    REQ("bmpString", CON(BMPString, SIZE(1, 64)))>>),
  LocalPostalAttributes |-> R("rfc5280", "PDSParameter"),
  X520Title |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 64))),
    REQ("printableString", CON(PrintableString, SIZE(1, 64))),
    REQ("universalString", CON(UniversalString, SIZE(1, 64))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 64))),
    REQ("bmpString", CON(BMPString, SIZE(1, 64)))>>),
  X520StateOrProvinceName |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 128))),
    REQ("printableString", CON(PrintableString, SIZE(1, 128))),
    REQ("universalString", CON(UniversalString, SIZE(1, 128))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 128))),
    REQ("bmpString", CON(BMPString, SIZE(1, 128)))>>),
  X520countryName |-> CON(PrintableString, SIZE(2, 2)),
  X520SerialNumber |-> CON(PrintableString, SIZE(1, 64)),
  Attribute |-> SEQUENCE(<<
    REQ("type", R("rfc5280", "AttributeType")),
    OPEN("type", "rfc5280", "certificateAttributesMap", REQ("values", SET_OF(R("rfc5280", "AttributeValue"))))>>),
  ExtensionPhysicalDeliveryAddressComponents |-> R("rfc5280", "PDSParameter"),
  EmailAddress |-> CON(IA5String, SIZE(1, 255)),
  BuiltInDomainDefinedAttribute |-> SEQUENCE(<<
    REQ("type", CON(PrintableString, SIZE(1, 8))),
    REQ("value", CON(PrintableString, SIZE(1, 128)))>>),
  BuiltInDomainDefinedAttributes |-> CON(SEQUENCE_OF(R("rfc5280", "BuiltInDomainDefinedAttribute")), SIZE(1, 4)),
  X520CommonName |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 64))),
    REQ("printableString", CON(PrintableString, SIZE(1, 64))),
    REQ("universalString", CON(UniversalString, SIZE(1, 64))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 64))),
    REQ("bmpString", CON(BMPString, SIZE(1, 64)))>>),
  TeletexCommonName |-> CON(TeletexString, SIZE(1, 64)),
  PhysicalDeliveryOrganizationName |-> R("rfc5280", "PDSParameter"),
  NumericUserIdentifier |-> CON(NumericString, SIZE(1, 32)),
  CountryName |-> EXPL(APP, 1, CHOICE(<<
    REQ("x121-dcc-code", CON(NumericString, SIZE(3, 3))),
    REQ("iso-3166-alpha2-code", CON(PrintableString, SIZE(2, 2)))>>)),
  OrganizationName |-> CON(PrintableString, SIZE(1, 64)),
  OrganizationalUnitNames |-> CON(SEQUENCE_OF(R("rfc5280", "OrganizationalUnitName")), SIZE(1, 4)),
  PrivateDomainName |-> CHOICE(<<
    REQ("numeric", CON(NumericString, SIZE(1, 16))),
    REQ("printable", CON(PrintableString, SIZE(1, 16)))>>),
  BuiltInStandardAttributes |-> SEQUENCE(<<
    OPT("country-name", R("rfc5280", "CountryName")),
    OPT("administration-domain-name", R("rfc5280", "AdministrationDomainName")),
    OPT("network-address", IMPL(CTX, 0, R("rfc5280", "NetworkAddress"))),
    OPT("terminal-identifier", IMPL(CTX, 1, R("rfc5280", "TerminalIdentifier"))),
    OPT("private-domain-name", EXPL(CTX, 2, R("rfc5280", "PrivateDomainName"))),
    OPT("organization-name", IMPL(CTX, 3, R("rfc5280", "OrganizationName"))),
    OPT("numeric-user-identifier", IMPL(CTX, 4, R("rfc5280", "NumericUserIdentifier"))),
    OPT("personal-name", IMPL(CTX, 5, R("rfc5280", "PersonalName"))),
    OPT("organizational-unit-names", IMPL(CTX, 6, R("rfc5280", "OrganizationalUnitNames")))>>),
  ORAddress |-> SEQUENCE(<<
    REQ("built-in-standard-attributes", R("rfc5280", "BuiltInStandardAttributes")),
    OPT("built-in-domain-defined-attributes", R("rfc5280", "BuiltInDomainDefinedAttributes")),
    OPT("extension-attributes", R("rfc5280", "ExtensionAttributes"))>>),
  DistinguishedName |-> R("rfc5280", "RDNSequence"),
  PhysicalDeliveryOfficeNumber |-> R("rfc5280", "PDSParameter"),
  UniquePostalName |-> R("rfc5280", "PDSParameter"),
  PDSName |-> CON(PrintableString, SIZE(1, 16)),
  TeletexPersonalName |-> SET_T(<<
    REQ("surname", IMPL(CTX, 0, CON(TeletexString, SIZE(1, 40)))),
    OPT("given-name", IMPL(CTX, 1, CON(TeletexString, SIZE(1, 16)))),
    OPT("initials", IMPL(CTX, 2, CON(TeletexString, SIZE(1, 5)))),
    OPT("generation-qualifier", IMPL(CTX, 3, CON(TeletexString, SIZE(1, 3))))>>),
  PostOfficeBoxAddress |-> R("rfc5280", "PDSParameter"),
  DirectoryString |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, MAXSIZE))),
    REQ("printableString", CON(PrintableString, SIZE(1, MAXSIZE))),
    REQ("universalString", CON(UniversalString, SIZE(1, MAXSIZE))),
    REQ("utf8String", CON(UTF8String, SIZE(1, MAXSIZE))),
    REQ("bmpString", CON(BMPString, SIZE(1, MAXSIZE)))>>),
  CommonName |-> CON(PrintableString, SIZE(1, 64)),
  Certificate |-> SEQUENCE(<<
    REQ("tbsCertificate", R("rfc5280", "TBSCertificate")),
    REQ("signatureAlgorithm", R("rfc5280", "AlgorithmIdentifier")),
    REQ("signature", BIT_STRING)>>),
  TeletexOrganizationalUnitName |-> CON(TeletexString, SIZE(1, 32)),
  TeletexOrganizationalUnitNames |-> CON(SEQUENCE_OF(R("rfc5280", "TeletexOrganizationalUnitName")), SIZE(1, 4)),
  SkipCerts |-> CON(INTEGER, RANGE(I(0), NOBOUND)),
  CRLReason |-> NAMED(ENUMERATED, <<NV("unspecified", 0), NV("keyCompromise", 1), NV("cACompromise", 2), NV("affiliationChanged", 3), NV("superseded", 4), NV("cessationOfOperation", 5), NV("certificateHold", 6), NV("removeFromCRL", 8), NV("privilegeWithdrawn", 9), NV("aACompromise", 10)>>),
  PrivateKeyUsagePeriod |-> SEQUENCE(<<
    OPT("notBefore", IMPL(CTX, 0, GeneralizedTime)),
    OPT("notAfter", IMPL(CTX, 1, GeneralizedTime))>>),
  AnotherName |-> SEQUENCE(<<
    REQ("type-id", OBJECT_IDENTIFIER),
    OPEN("type-id", "rfc5280", "anotherNameMap", REQ("value", EXPL(CTX, 0, ANY_T)))>>),
  EDIPartyName |-> SEQUENCE(<<
    OPT("nameAssigner", EXPL(CTX, 0, R("rfc5280", "DirectoryString"))),
    REQ("partyName", EXPL(CTX, 1, R("rfc5280", "DirectoryString")))>>),
  GeneralName |-> CHOICE(<<
    REQ("otherName", IMPL(CTX, 0, R("rfc5280", "AnotherName"))),
    REQ("rfc822Name", IMPL(CTX, 1, IA5String)),
    REQ("dNSName", IMPL(CTX, 2, IA5String)),
    REQ("x400Address", IMPL(CTX, 3, R("rfc5280", "ORAddress"))),
    REQ("directoryName", EXPL(CTX, 4, R("rfc5280", "Name"))),
    REQ("ediPartyName", IMPL(CTX, 5, R("rfc5280", "EDIPartyName"))),
    REQ("uniformResourceIdentifier", IMPL(CTX, 6, IA5String)),
    REQ("iPAddress", IMPL(CTX, 7, OCTET_STRING)),
    REQ("registeredID", IMPL(CTX, 8, OBJECT_IDENTIFIER))>>),
  BaseDistance |-> CON(INTEGER, RANGE(I(0), NOBOUND)),
  GeneralSubtree |-> SEQUENCE(<<
    REQ("base", R("rfc5280", "GeneralName")),
    DFLT("minimum", IMPL(CTX, 0, R("rfc5280", "BaseDistance")), VI(0)),
    OPT("maximum", IMPL(CTX, 1, R("rfc5280", "BaseDistance")))>>),
  GeneralNames |-> CON(SEQUENCE_OF(R("rfc5280", "GeneralName")), SIZE(1, MAXSIZE)),
  DistributionPointName |-> CHOICE(<<
    REQ("fullName", IMPL(CTX, 0, R("rfc5280", "GeneralNames"))),
    REQ("nameRelativeToCRLIssuer", IMPL(CTX, 1, R("rfc5280", "RelativeDistinguishedName")))>>),
  ReasonFlags |-> NAMED(BIT_STRING, <<NV("unused", 0), NV("keyCompromise", 1), NV("cACompromise", 2), NV("affiliationChanged", 3), NV("superseded", 4), NV("cessationOfOperation", 5), NV("certificateHold", 6), NV("privilegeWithdrawn", 7), NV("aACompromise", 8)>>),
  IssuingDistributionPoint |-> SEQUENCE(<<
    OPT("distributionPoint", EXPL(CTX, 0, R("rfc5280", "DistributionPointName"))),
    DFLT("onlyContainsUserCerts", IMPL(CTX, 1, BOOLEAN_T), VB(FALSE)),
    DFLT("onlyContainsCACerts", IMPL(CTX, 2, BOOLEAN_T), VB(FALSE)),
    OPT("onlySomeReasons", IMPL(CTX, 3, R("rfc5280", "ReasonFlags"))),
    DFLT("indirectCRL", IMPL(CTX, 4, BOOLEAN_T), VB(FALSE)),
    DFLT("onlyContainsAttributeCerts", IMPL(CTX, 5, BOOLEAN_T), VB(FALSE))>>),
  AccessDescription |-> SEQUENCE(<<
    REQ("accessMethod", OBJECT_IDENTIFIER),
    REQ("accessLocation", R("rfc5280", "GeneralName"))>>),
  IssuerAltName |-> R("rfc5280", "GeneralNames"),
  DistributionPoint |-> SEQUENCE(<<
    OPT("distributionPoint", EXPL(CTX, 0, R("rfc5280", "DistributionPointName"))),
    OPT("reasons", IMPL(CTX, 1, R("rfc5280", "ReasonFlags"))),
    OPT("cRLIssuer", IMPL(CTX, 2, R("rfc5280", "GeneralNames")))>>),
  CRLDistributionPoints |-> CON(SEQUENCE_OF(R("rfc5280", "DistributionPoint")), SIZE(1, MAXSIZE)),
  GeneralSubtrees |-> CON(SEQUENCE_OF(R("rfc5280", "GeneralSubtree")), SIZE(1, MAXSIZE)),
  NameConstraints |-> SEQUENCE(<<
    OPT("permittedSubtrees", IMPL(CTX, 0, R("rfc5280", "GeneralSubtrees"))),
    OPT("excludedSubtrees", IMPL(CTX, 1, R("rfc5280", "GeneralSubtrees")))>>),
  SubjectDirectoryAttributes |-> CON(SEQUENCE_OF(R("rfc5280", "Attribute")), SIZE(1, MAXSIZE)),
  DisplayText |-> CHOICE(<<
    REQ("ia5String", CON(IA5String, SIZE(1, 200))),
    REQ("visibleString", CON(VisibleString, SIZE(1, 200))),
    REQ("bmpString", CON(BMPString, SIZE(1, 200))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 200)))>>),
  NoticeReference |-> SEQUENCE(<<
    REQ("organization", R("rfc5280", "DisplayText")),
    REQ("noticeNumbers", SEQUENCE_OF(INTEGER))>>),
  UserNotice |-> SEQUENCE(<<
    OPT("noticeRef", R("rfc5280", "NoticeReference")),
    OPT("explicitText", R("rfc5280", "DisplayText"))>>),
  PolicyQualifierId |-> OBJECT_IDENTIFIER,
  PolicyQualifierInfo |-> SEQUENCE(<<
    REQ("policyQualifierId", R("rfc5280", "PolicyQualifierId")),
    OPEN("policyQualifierId", "rfc5280", "policyQualifierInfoMap", REQ("qualifier", ANY_T))>>),
  CertPolicyId |-> OBJECT_IDENTIFIER,
  PolicyInformation |-> SEQUENCE(<<
    REQ("policyIdentifier", R("rfc5280", "CertPolicyId")),
    OPT("policyQualifiers", CON(SEQUENCE_OF(R("rfc5280", "PolicyQualifierInfo")), SIZE(1, MAXSIZE)))>>),
  CertificatePolicies |-> CON(SEQUENCE_OF(R("rfc5280", "PolicyInformation")), SIZE(1, MAXSIZE)),
  SubjectAltName |-> R("rfc5280", "GeneralNames"),
  BasicConstraints |-> SEQUENCE(<<
    DFLT("cA", BOOLEAN_T, VB(FALSE)),
    OPT("pathLenConstraint", CON(INTEGER, RANGE(I(0), NOBOUND)))>>),
  PolicyMappings |-> CON(SEQUENCE_OF(SEQUENCE(<<
      REQ("issuerDomainPolicy", R("rfc5280", "CertPolicyId")),
      REQ("subjectDomainPolicy", R("rfc5280", "CertPolicyId"))>>)), SIZE(1, MAXSIZE)),
  InhibitAnyPolicy |-> R("rfc5280", "SkipCerts"),
  CRLNumber |-> CON(INTEGER, RANGE(I(0), NOBOUND)),
  BaseCRLNumber |-> R("rfc5280", "CRLNumber"),
  KeyIdentifier |-> OCTET_STRING,
  AuthorityKeyIdentifier |-> SEQUENCE(<<
    OPT("keyIdentifier", IMPL(CTX, 0, R("rfc5280", "KeyIdentifier"))),
    OPT("authorityCertIssuer", IMPL(CTX, 1, R("rfc5280", "GeneralNames"))),
    OPT("authorityCertSerialNumber", IMPL(CTX, 2, R("rfc5280", "CertificateSerialNumber")))>>),
  FreshestCRL |-> R("rfc5280", "CRLDistributionPoints"),
  AuthorityInfoAccessSyntax |-> CON(SEQUENCE_OF(R("rfc5280", "AccessDescription")), SIZE(1, MAXSIZE)),
  CPSuri |-> IA5String,
  SubjectKeyIdentifier |-> R("rfc5280", "KeyIdentifier"),
  KeyPurposeId |-> OBJECT_IDENTIFIER,
  ExtKeyUsageSyntax |-> CON(SEQUENCE_OF(R("rfc5280", "KeyPurposeId")), SIZE(1, MAXSIZE)),
  HoldInstructionCode |-> OBJECT_IDENTIFIER,
  SubjectInfoAccessSyntax |-> CON(SEQUENCE_OF(R("rfc5280", "AccessDescription")), SIZE(1, MAXSIZE)),
  InvalidityDate |-> GeneralizedTime,
  KeyUsage |-> NAMED(BIT_STRING, <<NV("digitalSignature", 0), NV("nonRepudiation", 1), NV("keyEncipherment", 2), NV("dataEncipherment", 3), NV("keyAgreement", 4), NV("keyCertSign", 5), NV("cRLSign", 6), NV("encipherOnly", 7), NV("decipherOnly", 8)>>),
  CertificateIssuer |-> R("rfc5280", "GeneralNames"),
  PolicyConstraints |-> SEQUENCE(<<
    OPT("requireExplicitPolicy", IMPL(CTX, 0, R("rfc5280", "SkipCerts"))),
    OPT("inhibitPolicyMapping", IMPL(CTX, 1, R("rfc5280", "SkipCerts")))>>)]

rfc5280_Values == [
  ub_e163_4_sub_address_length |-> CONST(INTEGER, VI(40)),
  ub_e163_4_number_length |-> CONST(INTEGER, VI(15)),
  unformatted_postal_address |-> CONST(INTEGER, VI(16)),
  physical_delivery_personal_name |-> CONST(INTEGER, VI(13)),
  ub_unformatted_address_length |-> CONST(INTEGER, VI(180)),
  ub_pds_parameter_length |-> CONST(INTEGER, VI(30)),
  ub_pds_physical_address_lines |-> CONST(INTEGER, VI(6)),
  ub_organization_name |-> CONST(INTEGER, VI(64)),
  ub_x121_address_length |-> CONST(INTEGER, VI(16)),
  pds_name |-> CONST(INTEGER, VI(7)),
  id_pkix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7>>)),
  id_kp |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3>>)),
  ub_postal_code_length |-> CONST(INTEGER, VI(16)),
  ub_generation_qualifier_length |-> CONST(INTEGER, VI(3)),
  unique_postal_name |-> CONST(INTEGER, VI(20)),
  ub_domain_defined_attribute_value_length |-> CONST(INTEGER, VI(128)),
  ub_match |-> CONST(INTEGER, VI(128)),
  id_at |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4>>)),
  id_at_organizationalUnitName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 11>>)),
  terminal_type |-> CONST(INTEGER, VI(23)),
  ub_surname_length |-> CONST(INTEGER, VI(40)),
  id_ad |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48>>)),
  ub_domain_defined_attribute_type_length |-> CONST(INTEGER, VI(8)),
  ub_domain_defined_attributes |-> CONST(INTEGER, VI(4)),
  extended_network_address |-> CONST(INTEGER, VI(22)),
  ub_locality_name |-> CONST(INTEGER, VI(128)),
  teletex_organization_name |-> CONST(INTEGER, VI(3)),
  ub_given_name_length |-> CONST(INTEGER, VI(16)),
  ub_initials_length |-> CONST(INTEGER, VI(5)),
  ub_organizational_unit_name_length |-> CONST(INTEGER, VI(32)),
  id_at_generationQualifier |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 44>>)),
  ub_extension_attributes |-> CONST(INTEGER, VI(256)),
  id_qt |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 2>>)),
  id_qt_cps |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 2, 1>>)),
  id_at_stateOrProvinceName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 8>>)),
  id_at_title |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 12>>)),
  id_at_serialNumber |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 5>>)),
  poste_restante_address |-> CONST(INTEGER, VI(19)),
  physical_delivery_office_name |-> CONST(INTEGER, VI(10)),
  ub_name |-> CONST(INTEGER, VI(32768)),
  id_at_dnQualifier |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 46>>)),
  ub_serial_number |-> CONST(INTEGER, VI(64)),
  ub_pseudonym |-> CONST(INTEGER, VI(128)),
  pkcs_9 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9>>)),
  ub_integer_options |-> CONST(INTEGER, VI(256)),
  id_at_commonName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 3>>)),
  ub_organization_name_length |-> CONST(INTEGER, VI(64)),
  id_ad_ocsp |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1>>)),
  ub_country_name_numeric_length |-> CONST(INTEGER, VI(3)),
  ub_country_name_alpha_length |-> CONST(INTEGER, VI(2)),
  id_emailAddress |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 1>>)),
  common_name |-> CONST(INTEGER, VI(1)),
  ub_domain_name_length |-> CONST(INTEGER, VI(16)),
  ub_terminal_id_length |-> CONST(INTEGER, VI(24)),
  id_ad_caIssuers |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 2>>)),
  id_at_countryName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 6>>)),
  postal_code |-> CONST(INTEGER, VI(9)),
  id_at_givenName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 42>>)),
  ub_title |-> CONST(INTEGER, VI(64)),
  ub_emailaddress_length |-> CONST(INTEGER, VI(255)),
  id_ad_caRepository |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 5>>)),
  ub_organizational_unit_name |-> CONST(INTEGER, VI(64)),
  teletex_organizational_unit_names |-> CONST(INTEGER, VI(5)),
  id_at_localityName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 7>>)),
  id_at_initials |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 43>>)),
  ub_state_name |-> CONST(INTEGER, VI(128)),
  physical_delivery_organization_name |-> CONST(INTEGER, VI(14)),
  id_at_surname |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 4>>)),
  physical_delivery_office_number |-> CONST(INTEGER, VI(11)),
  id_qt_unotice |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 2, 2>>)),
  ub_common_name |-> CONST(INTEGER, VI(64)),
  id_pe |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1>>)),
  id_at_organizationName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 10>>)),
  post_office_box_address |-> CONST(INTEGER, VI(18)),
  id_at_pseudonym |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 65>>)),
  id_domainComponent |-> CONST(OBJECT_IDENTIFIER, VOID(<<0, 9, 2342, 19200300, 100, 1, 25>>)),
  extension_OR_address_components |-> CONST(INTEGER, VI(12)),
  ub_organizational_units |-> CONST(INTEGER, VI(4)),
  teletex_personal_name |-> CONST(INTEGER, VI(4)),
  ub_numeric_user_id_length |-> CONST(INTEGER, VI(32)),
  ub_common_name_length |-> CONST(INTEGER, VI(64)),
  extension_physical_delivery_address_components |-> CONST(INTEGER, VI(15)),
  id_ad_timeStamping |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 3>>)),
  teletex_domain_defined_attributes |-> CONST(INTEGER, VI(6)),
  physical_delivery_country_name |-> CONST(INTEGER, VI(8)),
  ub_pds_name_length |-> CONST(INTEGER, VI(16)),
  street_address |-> CONST(INTEGER, VI(17)),
  local_postal_attributes |-> CONST(INTEGER, VI(21)),
  teletex_common_name |-> CONST(INTEGER, VI(2)),
  id_at_name |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 41>>)),
  id_ce |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29>>)),
  id_ce_issuerAltName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 18>>)),
  id_ce_certificatePolicies |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 32>>)),
  id_kp_emailProtection |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 4>>)),
  id_ce_cRLDistributionPoints |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 31>>)),
  holdInstruction |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 2, 840, 10040, 2>>)),
  id_holdinstruction_callissuer |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 2, 840, 10040, 2, 2>>)),
  id_ce_subjectDirectoryAttributes |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 9>>)),
  id_ce_issuingDistributionPoint |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 28>>)),
  id_kp_OCSPSigning |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 9>>)),
  id_kp_timeStamping |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 8>>)),
  id_ce_basicConstraints |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 19>>)),
  id_ce_authorityKeyIdentifier |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 35>>)),
  id_kp_codeSigning |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 3>>)),
  id_ce_certificateIssuer |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 29>>)),
  anyPolicy |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 32, 0>>)),
  id_ce_nameConstraints |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 30>>)),
  id_kp_serverAuth |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 1>>)),
  id_ce_freshestCRL |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 46>>)),
  id_ce_cRLReasons |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 21>>)),
  id_ce_extKeyUsage |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 37>>)),
  id_ce_policyConstraints |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 36>>)),
  id_pe_authorityInfoAccess |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 1>>)),
  id_holdinstruction_none |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 2, 840, 10040, 2, 1>>)),
  id_pe_subjectInfoAccess |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 11>>)),
  id_ce_subjectAltName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 17>>)),
  id_ce_deltaCRLIndicator |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 27>>)),
  id_ce_keyUsage |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 15>>)),
  id_ce_holdInstructionCode |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 23>>)),
  id_ce_invalidityDate |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 24>>)),
  id_ce_policyMappings |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 33>>)),
  anyExtendedKeyUsage |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 37, 0>>)),
  id_ce_privateKeyUsagePeriod |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 16>>)),
  id_ce_cRLNumber |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 20>>)),
  id_holdinstruction_reject |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 2, 840, 10040, 2, 3>>)),
  id_kp_clientAuth |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 2>>)),
  id_ce_subjectKeyIdentifier |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 14>>)),
  id_ce_inhibitAnyPolicy |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 54>>))]

\* open type tables this module exports, with the table each one is
rfc5280_Tables == <<<<"algorithmIdentifierMap", "rfc5280", "algorithmIdentifierMap">>, <<"certificateAttributesMap", "rfc5280", "certificateAttributesMap">>, <<"certificateExtensionsMap", "rfc5280", "certificateExtensionsMap">>, <<"oraddressExtensionAttributeMap", "rfc5280", "oraddressExtensionAttributeMap">>, <<"anotherNameMap", "rfc5280", "anotherNameMap">>, <<"policyQualifierInfoMap", "rfc5280", "policyQualifierInfoMap">>>>

\* what importing this module adds to the tables
rfc5280_Entries == <<
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 5, 4, 41>>), R("rfc5280", "X520name")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 5, 4, 4>>), R("rfc5280", "X520name")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 5, 4, 42>>), R("rfc5280", "X520name")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 5, 4, 43>>), R("rfc5280", "X520name")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 5, 4, 44>>), R("rfc5280", "X520name")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 5, 4, 3>>), R("rfc5280", "X520CommonName")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 5, 4, 7>>), R("rfc5280", "X520LocalityName")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 5, 4, 8>>), R("rfc5280", "X520StateOrProvinceName")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 5, 4, 10>>), R("rfc5280", "X520OrganizationName")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 5, 4, 11>>), R("rfc5280", "X520OrganizationalUnitName")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 5, 4, 12>>), R("rfc5280", "X520Title")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 5, 4, 46>>), R("rfc5280", "X520dnQualifier")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 5, 4, 6>>), R("rfc5280", "X520countryName")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 5, 4, 5>>), R("rfc5280", "X520SerialNumber")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 5, 4, 65>>), R("rfc5280", "X520Pseudonym")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<0, 9, 2342, 19200300, 100, 1, 25>>), R("rfc5280", "DomainComponent")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 1>>), R("rfc5280", "EmailAddress")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 35>>), R("rfc5280", "AuthorityKeyIdentifier")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 14>>), R("rfc5280", "SubjectKeyIdentifier")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 15>>), R("rfc5280", "KeyUsage")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 16>>), R("rfc5280", "PrivateKeyUsagePeriod")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 32>>), R("rfc5280", "CertificatePolicies")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 33>>), R("rfc5280", "PolicyMappings")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 17>>), R("rfc5280", "SubjectAltName")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 18>>), R("rfc5280", "IssuerAltName")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 9>>), R("rfc5280", "SubjectDirectoryAttributes")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 19>>), R("rfc5280", "BasicConstraints")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 30>>), R("rfc5280", "NameConstraints")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 36>>), R("rfc5280", "PolicyConstraints")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 37>>), R("rfc5280", "ExtKeyUsageSyntax")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 31>>), R("rfc5280", "CRLDistributionPoints")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 1>>), R("rfc5280", "AuthorityInfoAccessSyntax")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 20>>), INTEGER),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 27>>), R("rfc5280", "BaseCRLNumber")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 28>>), R("rfc5280", "IssuingDistributionPoint")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 21>>), R("rfc5280", "CRLReason")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 23>>), OBJECT_IDENTIFIER),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 24>>), GeneralizedTime),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<2, 5, 29, 29>>), R("rfc5280", "GeneralNames")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(1), R("rfc5280", "CommonName")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(2), R("rfc5280", "TeletexCommonName")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(3), R("rfc5280", "TeletexOrganizationName")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(4), R("rfc5280", "TeletexPersonalName")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(5), R("rfc5280", "TeletexOrganizationalUnitNames")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(7), R("rfc5280", "PDSName")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(8), R("rfc5280", "PhysicalDeliveryCountryName")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(9), R("rfc5280", "PostalCode")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(10), R("rfc5280", "PhysicalDeliveryOfficeName")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(11), R("rfc5280", "PhysicalDeliveryOfficeNumber")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(12), R("rfc5280", "ExtensionORAddressComponents")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(13), R("rfc5280", "PhysicalDeliveryPersonalName")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(14), R("rfc5280", "PhysicalDeliveryOrganizationName")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(15), R("rfc5280", "ExtensionPhysicalDeliveryAddressComponents")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(16), R("rfc5280", "UnformattedPostalAddress")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(17), R("rfc5280", "StreetAddress")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(18), R("rfc5280", "PostOfficeBoxAddress")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(19), R("rfc5280", "PosteRestanteAddress")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(20), R("rfc5280", "UniquePostalName")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(21), R("rfc5280", "LocalPostalAttributes")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(22), R("rfc5280", "ExtendedNetworkAddress")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(23), R("rfc5280", "TerminalType")),
  ENTRY("rfc5280", "oraddressExtensionAttributeMap", VI(6), R("rfc5280", "TeletexDomainDefinedAttributes"))>>
=================================================================
