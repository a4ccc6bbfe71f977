------------------------ MODULE rfc3280 ------------------------
\* http://www.ietf.org/rfc/rfc3280.txt
EXTENDS Asn1Notation

rfc3280_Imports == <<>>

rfc3280_StarImports == <<>>

rfc3280_Types == [
  OrganizationalUnitName |-> CON(PrintableString, SIZE(1, 32)),
  OrganizationalUnitNames |-> CON(SEQUENCE_OF(R("rfc3280", "OrganizationalUnitName")), SIZE(1, 4)),
  AttributeType |-> OBJECT_IDENTIFIER,
  PDSParameter |-> SET_T(<<
    OPT("printable-string", CON(PrintableString, SIZE(1, 30))),
    OPT("teletex-string", CON(TeletexString, SIZE(1, 30)))>>),
  PhysicalDeliveryOrganizationName |-> R("rfc3280", "PDSParameter"),
  TeletexDomainDefinedAttribute |-> SEQUENCE(<<
    REQ("type", CON(TeletexString, SIZE(1, 8))),
    REQ("value", CON(TeletexString, SIZE(1, 128)))>>),
  PresentationAddress |-> SEQUENCE(<<
    OPT("pSelector", EXPL(CTX, 0, OCTET_STRING)),
    OPT("sSelector", EXPL(CTX, 1, OCTET_STRING)),
    OPT("tSelector", EXPL(CTX, 2, OCTET_STRING)),
    REQ("nAddresses", EXPL(CTX, 3, SET_OF(OCTET_STRING)))>>),
  AlgorithmIdentifier |-> SEQUENCE(<<
    REQ("algorithm", OBJECT_IDENTIFIER),
    OPT("parameters", ANY_T)>>),
  UniqueIdentifier |-> BIT_STRING,
  Extension |-> SEQUENCE(<<
    REQ("extnID", OBJECT_IDENTIFIER),
    DFLT("critical", BOOLEAN_T, VB(FALSE)),
    REQ("extnValue", OCTET_STRING)>>),
  Extensions |-> CON(SEQUENCE_OF(R("rfc3280", "Extension")), SIZE(1, MAXSIZE)),
  CertificateSerialNumber |-> INTEGER,
  SubjectPublicKeyInfo |-> SEQUENCE(<<
    REQ("algorithm", R("rfc3280", "AlgorithmIdentifier")),
    REQ("subjectPublicKey", BIT_STRING)>>),
  Time |-> CHOICE(<<
    REQ("utcTime", UTCTime),
    REQ("generalTime", GeneralizedTime)>>),
  Validity |-> SEQUENCE(<<
    REQ("notBefore", R("rfc3280", "Time")),
    REQ("notAfter", R("rfc3280", "Time"))>>),
  Version |-> NAMED(INTEGER, <<NV("v1", 0), NV("v2", 1), NV("v3", 2)>>),
  AttributeValue |-> ANY_T,
  AttributeTypeAndValue |-> SEQUENCE(<<
    REQ("type", R("rfc3280", "AttributeType")),
    REQ("value", R("rfc3280", "AttributeValue"))>>),
  RelativeDistinguishedName |-> CON(SET_OF(R("rfc3280", "AttributeTypeAndValue")), SIZE(1, MAXSIZE)),
  RDNSequence |-> SEQUENCE_OF(R("rfc3280", "RelativeDistinguishedName")),
  Name |-> CHOICE(<<
    REQ("rdnSequence", R("rfc3280", "RDNSequence"))>>),
  TBSCertificate |-> SEQUENCE(<<
    DFLT("version", EXPL(CTX, 0, R("rfc3280", "Version")), VI(0)),
    REQ("serialNumber", R("rfc3280", "CertificateSerialNumber")),
    REQ("signature", R("rfc3280", "AlgorithmIdentifier")),
    REQ("issuer", R("rfc3280", "Name")),
    REQ("validity", R("rfc3280", "Validity")),
    REQ("subject", R("rfc3280", "Name")),
    REQ("subjectPublicKeyInfo", R("rfc3280", "SubjectPublicKeyInfo")),
    OPT("issuerUniqueID", IMPL(CTX, 1, R("rfc3280", "UniqueIdentifier"))),
    OPT("subjectUniqueID", IMPL(CTX, 2, R("rfc3280", "UniqueIdentifier"))),
    OPT("extensions", EXPL(CTX, 3, R("rfc3280", "Extensions")))>>),
  Certificate |-> SEQUENCE(<<
    REQ("tbsCertificate", R("rfc3280", "TBSCertificate")),
    REQ("signatureAlgorithm", R("rfc3280", "AlgorithmIdentifier")),
    REQ("signature", BIT_STRING)>>),
  TeletexOrganizationName |-> CON(TeletexString, SIZE(1, 64)),
  CountryName |-> EXPL(APP, 1, CHOICE(<<
    REQ("x121-dcc-code", CON(NumericString, SIZE(3, 3))),
    REQ("iso-3166-alpha2-code", CON(PrintableString, SIZE(2, 2)))>>)),
  ExtendedNetworkAddress |-> CHOICE(<<
    REQ("e163-4-address", SEQUENCE(<<
        REQ("number", IMPL(CTX, 0, CON(NumericString, SIZE(1, 15)))),
        OPT("sub-address", IMPL(CTX, 1, CON(NumericString, SIZE(1, 40))))>>)),
    REQ("psap-address", IMPL(CTX, 0, R("rfc3280", "PresentationAddress")))>>),
  X520StateOrProvinceName |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 128))),
    REQ("printableString", CON(PrintableString, SIZE(1, 128))),
    REQ("universalString", CON(UniversalString, SIZE(1, 128))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 128))),
    REQ("bmpString", CON(BMPString, SIZE(1, 128)))>>),
  X520OrganizationName |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 64))),
    REQ("printableString", CON(PrintableString, SIZE(1, 64))),
    REQ("universalString", CON(UniversalString, SIZE(1, 64))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 64))),
    REQ("bmpString", CON(BMPString, SIZE(1, 64)))>>),
  ExtensionPhysicalDeliveryAddressComponents |-> R("rfc3280", "PDSParameter"),
  NumericUserIdentifier |-> CON(NumericString, SIZE(1, 32)),
  OrganizationName |-> CON(PrintableString, SIZE(1, 64)),
  AdministrationDomainName |-> EXPL(APP, 2, CHOICE(<<
    REQ("numeric", CON(NumericString, SIZE(0, 16))),
    REQ("printable", CON(PrintableString, SIZE(0, 16)))>>)),
  PrivateDomainName |-> CHOICE(<<
    REQ("numeric", CON(NumericString, SIZE(1, 16))),
    REQ("printable", CON(PrintableString, SIZE(1, 16)))>>),
  PersonalName |-> SET_T(<<
    REQ("surname", IMPL(CTX, 0, CON(PrintableString, SIZE(1, 40)))),
    OPT("given-name", IMPL(CTX, 1, CON(PrintableString, SIZE(1, 16)))),
    OPT("initials", IMPL(CTX, 2, CON(PrintableString, SIZE(1, 5)))),
    OPT("generation-qualifier", IMPL(CTX, 3, CON(PrintableString, SIZE(1, 3))))>>),
  TerminalIdentifier |-> CON(PrintableString, SIZE(1, 24)),
  X121Address |-> CON(NumericString, SIZE(1, 16)),
  NetworkAddress |-> R("rfc3280", "X121Address"),
  BuiltInStandardAttributes |-> SEQUENCE(<<
    OPT("country-name", R("rfc3280", "CountryName")),
    OPT("administration-domain-name", R("rfc3280", "AdministrationDomainName")),
    OPT("network-address", IMPL(CTX, 0, R("rfc3280", "NetworkAddress"))),
    OPT("terminal-identifier", IMPL(CTX, 1, R("rfc3280", "TerminalIdentifier"))),
    OPT("private-domain-name", EXPL(CTX, 2, R("rfc3280", "PrivateDomainName"))),
    OPT("organization-name", IMPL(CTX, 3, R("rfc3280", "OrganizationName"))),
    OPT("numeric-user-identifier", IMPL(CTX, 4, R("rfc3280", "NumericUserIdentifier"))),
    OPT("personal-name", IMPL(CTX, 5, R("rfc3280", "PersonalName"))),
    OPT("organizational-unit-names", IMPL(CTX, 6, R("rfc3280", "OrganizationalUnitNames")))>>),
  BuiltInDomainDefinedAttribute |-> SEQUENCE(<<
    REQ("type", CON(PrintableString, SIZE(1, 8))),
    REQ("value", CON(PrintableString, SIZE(1, 128)))>>),
  BuiltInDomainDefinedAttributes |-> CON(SEQUENCE_OF(R("rfc3280", "BuiltInDomainDefinedAttribute")), SIZE(1, 4)),
  ExtensionAttribute |-> SEQUENCE(<<
    REQ("extension-attribute-type", IMPL(CTX, 0, CON(INTEGER, RANGE(I(0), I(256))))),
    REQ("extension-attribute-value", EXPL(CTX, 1, ANY_T))>>),
  ExtensionAttributes |-> CON(SET_OF(R("rfc3280", "ExtensionAttribute")), SIZE(1, 256)),
  ORAddress |-> SEQUENCE(<<
    REQ("built-in-standard-attributes", R("rfc3280", "BuiltInStandardAttributes")),
    OPT("built-in-domain-defined-attributes", R("rfc3280", "BuiltInDomainDefinedAttributes")),
    OPT("extension-attributes", R("rfc3280", "ExtensionAttributes"))>>),
  X520Title |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 64))),
    REQ("printableString", CON(PrintableString, SIZE(1, 64))),
    REQ("universalString", CON(UniversalString, SIZE(1, 64))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 64))),
    REQ("bmpString", CON(BMPString, SIZE(1, 64)))>>),
  EmailAddress |-> CON(IA5String, SIZE(1, 128)),
  TeletexCommonName |-> CON(TeletexString, SIZE(1, 64)),
  LocalPostalAttributes |-> R("rfc3280", "PDSParameter"),
  StreetAddress |-> R("rfc3280", "PDSParameter"),
  DirectoryString |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, MAXSIZE))),
    REQ("printableString", CON(PrintableString, SIZE(1, MAXSIZE))),
    REQ("universalString", CON(UniversalString, SIZE(1, MAXSIZE))),
    REQ("utf8String", CON(UTF8String, SIZE(1, MAXSIZE))),
    REQ("bmpString", CON(BMPString, SIZE(1, MAXSIZE)))>>),
  DomainComponent |-> IA5String,
  PDSName |-> CON(PrintableString, SIZE(1, 16)),
  PosteRestanteAddress |-> R("rfc3280", "PDSParameter"),
  DistinguishedName |-> R("rfc3280", "RDNSequence"),
  CommonName |-> CON(PrintableString, SIZE(1, 64)),
  X520SerialNumber |-> CON(PrintableString, SIZE(1, 64)),
  TeletexOrganizationalUnitName |-> CON(TeletexString, SIZE(1, 32)),
  TeletexPersonalName |-> SET_T(<<
    REQ("surname", IMPL(CTX, 0, CON(TeletexString, SIZE(1, 40)))),
    OPT("given-name", IMPL(CTX, 1, CON(TeletexString, SIZE(1, 16)))),
    OPT("initials", IMPL(CTX, 2, CON(TeletexString, SIZE(1, 5)))),
    OPT("generation-qualifier", IMPL(CTX, 3, CON(TeletexString, SIZE(1, 3))))>>),
  TeletexDomainDefinedAttributes |-> CON(SEQUENCE_OF(R("rfc3280", "TeletexDomainDefinedAttribute")), SIZE(1, 4)),
  TBSCertList |-> SEQUENCE(<<
    OPT("version", R("rfc3280", "Version")),
    REQ("signature", R("rfc3280", "AlgorithmIdentifier")),
    REQ("issuer", R("rfc3280", "Name")),
    REQ("thisUpdate", R("rfc3280", "Time")),
    OPT("nextUpdate", R("rfc3280", "Time")),
    OPT("revokedCertificates", SEQUENCE_OF(SEQUENCE(<<
          REQ("userCertificate", R("rfc3280", "CertificateSerialNumber")),
          REQ("revocationDate", R("rfc3280", "Time")),
          OPT("crlEntryExtensions", R("rfc3280", "Extensions"))>>))),
    OPT("crlExtensions", EXPL(CTX, 0, R("rfc3280", "Extensions")))>>),
  PhysicalDeliveryCountryName |-> CHOICE(<<
    REQ("x121-dcc-code", CON(NumericString, SIZE(3, 3))),
    REQ("iso-3166-alpha2-code", CON(PrintableString, SIZE(2, 2)))>>),
  X520name |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 32768))),
    REQ("printableString", CON(PrintableString, SIZE(1, 32768))),
    REQ("universalString", CON(UniversalString, SIZE(1, 32768))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 32768))),
    REQ("bmpString", CON(BMPString, SIZE(1, 32768)))>>),
  TerminalType |-> NAMED(INTEGER, <<NV("telex", 3), NV("teletex", 4), NV("g3-facsimile", 5), NV("g4-facsimile", 6), NV("ia5-terminal", 7), NV("videotex", 8)>>),
  X520OrganizationalUnitName |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 64))),
    REQ("printableString", CON(PrintableString, SIZE(1, 64))),
    REQ("universalString", CON(UniversalString, SIZE(1, 64))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 64))),
    REQ("bmpString", CON(BMPString, SIZE(1, 64)))>>),
  X520LocalityName |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 128))),
    REQ("printableString", CON(PrintableString, SIZE(1, 128))),
    REQ("universalString", CON(UniversalString, SIZE(1, 128))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 128))),
    REQ("bmpString", CON(BMPString, SIZE(1, 128)))>>),
  PhysicalDeliveryPersonalName |-> R("rfc3280", "PDSParameter"),
  PostalCode |-> CHOICE(<<
    REQ("numeric-code", CON(NumericString, SIZE(1, 16))),
    REQ("printable-code", CON(PrintableString, SIZE(1, 16)))>>),
  X520countryName |-> CON(PrintableString, SIZE(2, 2)),
  PostOfficeBoxAddress |-> R("rfc3280", "PDSParameter"),
  PhysicalDeliveryOfficeName |-> R("rfc3280", "PDSParameter"),
  CertificateList |-> SEQUENCE(<<
    REQ("tbsCertList", R("rfc3280", "TBSCertList")),
    REQ("signatureAlgorithm", R("rfc3280", "AlgorithmIdentifier")),
    REQ("signature", BIT_STRING)>>),
  PhysicalDeliveryOfficeNumber |-> R("rfc3280", "PDSParameter"),
  TeletexOrganizationalUnitNames |-> CON(SEQUENCE_OF(R("rfc3280", "TeletexOrganizationalUnitName")), SIZE(1, 4)),
  ExtensionORAddressComponents |-> R("rfc3280", "PDSParameter"),
  X520CommonName |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 64))),
    REQ("printableString", CON(PrintableString, SIZE(1, 64))),
    REQ("universalString", CON(UniversalString, SIZE(1, 64))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 64))),
    REQ("bmpString", CON(BMPString, SIZE(1, 64)))>>),
  X520dnQualifier |-> PrintableString,
  Attribute |-> SEQUENCE(<<
    REQ("type", R("rfc3280", "AttributeType")),
    REQ("values", SET_OF(R("rfc3280", "AttributeValue")))>>),
  UnformattedPostalAddress |-> SET_T(<<
    OPT("printable-address", CON(SEQUENCE_OF(CON(PrintableString, SIZE(1, 30))), SIZE(1, 6))),
    OPT("teletex-string", CON(TeletexString, SIZE(1, 180)))>>),
  UniquePostalName |-> R("rfc3280", "PDSParameter"),
  X520Pseudonym |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 128))),
    REQ("printableString", CON(PrintableString, SIZE(1, 128))),
    REQ("universalString", CON(UniversalString, SIZE(1, 128))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 128))),
    REQ("bmpString", CON(BMPString, SIZE(1, 128)))>>),
  EDIPartyName |-> SEQUENCE(<<
    OPT("nameAssigner", IMPL(CTX, 0, R("rfc3280", "DirectoryString"))),
    REQ("partyName", IMPL(CTX, 1, R("rfc3280", "DirectoryString")))>>),
  AnotherName |-> SEQUENCE(<<
    REQ("type-id", OBJECT_IDENTIFIER),
    REQ("value", EXPL(CTX, 0, ANY_T))>>),
  GeneralName |-> CHOICE(<<
    REQ("otherName", IMPL(CTX, 0, R("rfc3280", "AnotherName"))),
    REQ("rfc822Name", IMPL(CTX, 1, IA5String)),
    REQ("dNSName", IMPL(CTX, 2, IA5String)),
    REQ("x400Address", IMPL(CTX, 3, R("rfc3280", "ORAddress"))),
    REQ("directoryName", EXPL(CTX, 4, R("rfc3280", "Name"))),
    REQ("ediPartyName", IMPL(CTX, 5, R("rfc3280", "EDIPartyName"))),
    REQ("uniformResourceIdentifier", IMPL(CTX, 6, IA5String)),
    REQ("iPAddress", IMPL(CTX, 7, OCTET_STRING)),
    REQ("registeredID", IMPL(CTX, 8, OBJECT_IDENTIFIER))>>),
  GeneralNames |-> CON(SEQUENCE_OF(R("rfc3280", "GeneralName")), SIZE(1, MAXSIZE)),
  IssuerAltName |-> R("rfc3280", "GeneralNames"),
  CertPolicyId |-> OBJECT_IDENTIFIER,
  PolicyMappings |-> CON(SEQUENCE_OF(SEQUENCE(<<
      REQ("issuerDomainPolicy", R("rfc3280", "CertPolicyId")),
      REQ("subjectDomainPolicy", R("rfc3280", "CertPolicyId"))>>)), SIZE(1, MAXSIZE)),
  PolicyQualifierId |-> OBJECT_IDENTIFIER,
  SubjectDirectoryAttributes |-> CON(SEQUENCE_OF(R("rfc3280", "Attribute")), SIZE(1, MAXSIZE)),
  ReasonFlags |-> NAMED(BIT_STRING, <<NV("unused", 0), NV("keyCompromise", 1), NV("cACompromise", 2), NV("affiliationChanged", 3), NV("superseded", 4), NV("cessationOfOperation", 5), NV("certificateHold", 6), NV("privilegeWithdrawn", 7), NV("aACompromise", 8)>>),
  DistributionPointName |-> CHOICE(<<
    REQ("fullName", IMPL(CTX, 0, R("rfc3280", "GeneralNames"))),
    REQ("nameRelativeToCRLIssuer", IMPL(CTX, 1, R("rfc3280", "RelativeDistinguishedName")))>>),
  DistributionPoint |-> SEQUENCE(<<
    OPT("distributionPoint", EXPL(CTX, 0, R("rfc3280", "DistributionPointName"))),
    OPT("reasons", IMPL(CTX, 1, R("rfc3280", "ReasonFlags"))),
    OPT("cRLIssuer", IMPL(CTX, 2, R("rfc3280", "GeneralNames")))>>),
  PolicyQualifierInfo |-> SEQUENCE(<<
    REQ("policyQualifierId", R("rfc3280", "PolicyQualifierId")),
    REQ("qualifier", ANY_T)>>),
  PolicyInformation |-> SEQUENCE(<<
    REQ("policyIdentifier", R("rfc3280", "CertPolicyId")),
    OPT("policyQualifiers", CON(SEQUENCE_OF(R("rfc3280", "PolicyQualifierInfo")), SIZE(1, MAXSIZE)))>>),
  CertificatePolicies |-> CON(SEQUENCE_OF(R("rfc3280", "PolicyInformation")), SIZE(1, MAXSIZE)),
  HoldInstructionCode |-> OBJECT_IDENTIFIER,
  KeyPurposeId |-> OBJECT_IDENTIFIER,
  ExtKeyUsageSyntax |-> CON(SEQUENCE_OF(R("rfc3280", "KeyPurposeId")), SIZE(1, MAXSIZE)),
  SubjectAltName |-> R("rfc3280", "GeneralNames"),
  BasicConstraints |-> SEQUENCE(<<
    DFLT("cA", BOOLEAN_T, VB(FALSE)),
    OPT("pathLenConstraint", CON(INTEGER, RANGE(I(0), NOBOUND)))>>),
  SkipCerts |-> CON(INTEGER, RANGE(I(0), NOBOUND)),
  InhibitAnyPolicy |-> R("rfc3280", "SkipCerts"),
  CRLNumber |-> CON(INTEGER, RANGE(I(0), NOBOUND)),
  BaseCRLNumber |-> R("rfc3280", "CRLNumber"),
  KeyIdentifier |-> OCTET_STRING,
  AuthorityKeyIdentifier |-> SEQUENCE(<<
    OPT("keyIdentifier", IMPL(CTX, 0, R("rfc3280", "KeyIdentifier"))),
    OPT("authorityCertIssuer", IMPL(CTX, 1, R("rfc3280", "GeneralNames"))),
    OPT("authorityCertSerialNumber", IMPL(CTX, 2, R("rfc3280", "CertificateSerialNumber")))>>),
  CRLDistributionPoints |-> CON(SEQUENCE_OF(R("rfc3280", "DistributionPoint")), SIZE(1, MAXSIZE)),
  FreshestCRL |-> R("rfc3280", "CRLDistributionPoints"),
  CRLReason |-> NAMED(ENUMERATED, <<NV("unspecified", 0), NV("keyCompromise", 1), NV("cACompromise", 2), NV("affiliationChanged", 3), NV("superseded", 4), NV("cessationOfOperation", 5), NV("certificateHold", 6), NV("removeFromCRL", 8), NV("privilegeWithdrawn", 9), NV("aACompromise", 10)>>),
  BaseDistance |-> CON(INTEGER, RANGE(I(0), NOBOUND)),
  GeneralSubtree |-> SEQUENCE(<<
    REQ("base", R("rfc3280", "GeneralName")),
    DFLT("minimum", IMPL(CTX, 0, R("rfc3280", "BaseDistance")), VI(0)),
    OPT("maximum", IMPL(CTX, 1, R("rfc3280", "BaseDistance")))>>),
  GeneralSubtrees |-> CON(SEQUENCE_OF(R("rfc3280", "GeneralSubtree")), SIZE(1, MAXSIZE)),
  NameConstraints |-> SEQUENCE(<<
    OPT("permittedSubtrees", IMPL(CTX, 0, R("rfc3280", "GeneralSubtrees"))),
    OPT("excludedSubtrees", IMPL(CTX, 1, R("rfc3280", "GeneralSubtrees")))>>),
  AccessDescription |-> SEQUENCE(<<
    REQ("accessMethod", OBJECT_IDENTIFIER),
    REQ("accessLocation", R("rfc3280", "GeneralName"))>>),
  AuthorityInfoAccessSyntax |-> CON(SEQUENCE_OF(R("rfc3280", "AccessDescription")), SIZE(1, MAXSIZE)),
  CPSuri |-> IA5String,
  DisplayText |-> CHOICE(<<
    REQ("ia5String", CON(IA5String, SIZE(1, 200))),
    REQ("visibleString", CON(VisibleString, SIZE(1, 200))),
    REQ("bmpString", CON(BMPString, SIZE(1, 200))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 200)))>>),
  NoticeReference |-> SEQUENCE(<<
    REQ("organization", R("rfc3280", "DisplayText")),
    REQ("noticeNumbers", SEQUENCE_OF(INTEGER))>>),
  UserNotice |-> SEQUENCE(<<
    OPT("noticeRef", R("rfc3280", "NoticeReference")),
    OPT("explicitText", R("rfc3280", "DisplayText"))>>),
  PrivateKeyUsagePeriod |-> SEQUENCE(<<
    OPT("notBefore", IMPL(CTX, 0, GeneralizedTime)),
    OPT("notAfter", IMPL(CTX, 1, GeneralizedTime))>>),
  CertificateIssuer |-> R("rfc3280", "GeneralNames"),
  InvalidityDate |-> GeneralizedTime,
  SubjectInfoAccessSyntax |-> CON(SEQUENCE_OF(R("rfc3280", "AccessDescription")), SIZE(1, MAXSIZE)),
  KeyUsage |-> NAMED(BIT_STRING, <<NV("digitalSignature", 0), NV("nonRepudiation", 1), NV("keyEncipherment", 2), NV("dataEncipherment", 3), NV("keyAgreement", 4), NV("keyCertSign", 5), NV("cRLSign", 6), NV("encipherOnly", 7), NV("decipherOnly", 8)>>),
  PolicyConstraints |-> SEQUENCE(<<
    OPT("requireExplicitPolicy", IMPL(CTX, 0, R("rfc3280", "SkipCerts"))),
    OPT("inhibitPolicyMapping", IMPL(CTX, 1, R("rfc3280", "SkipCerts")))>>),
  SubjectKeyIdentifier |-> R("rfc3280", "KeyIdentifier"),
  IssuingDistributionPoint |-> SEQUENCE(<<
    OPT("distributionPoint", EXPL(CTX, 0, R("rfc3280", "DistributionPointName"))),
    DFLT("onlyContainsUserCerts", IMPL(CTX, 1, BOOLEAN_T), VB(FALSE)),
    DFLT("onlyContainsCACerts", IMPL(CTX, 2, BOOLEAN_T), VB(FALSE)),
    OPT("onlySomeReasons", IMPL(CTX, 3, R("rfc3280", "ReasonFlags"))),
    DFLT("indirectCRL", IMPL(CTX, 4, BOOLEAN_T), VB(FALSE)),
    DFLT("onlyContainsAttributeCerts", IMPL(CTX, 5, BOOLEAN_T), VB(FALSE))>>)]

rfc3280_Values == [
  unformatted_postal_address |-> CONST(INTEGER, VI(16)),
  ub_organizational_units |-> CONST(INTEGER, VI(4)),
  ub_organizational_unit_name_length |-> CONST(INTEGER, VI(32)),
  id_at |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4>>)),
  id_at_name |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 41>>)),
  ub_pds_parameter_length |-> CONST(INTEGER, VI(30)),
  ub_organization_name_length |-> CONST(INTEGER, VI(64)),
  ub_domain_defined_attribute_type_length |-> CONST(INTEGER, VI(8)),
  ub_domain_defined_attribute_value_length |-> CONST(INTEGER, VI(128)),
  id_pkix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7>>)),
  id_qt |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 2>>)),
  ub_surname_length |-> CONST(INTEGER, VI(40)),
  ub_e163_4_sub_address_length |-> CONST(INTEGER, VI(40)),
  teletex_common_name |-> CONST(INTEGER, VI(2)),
  ub_country_name_alpha_length |-> CONST(INTEGER, VI(2)),
  ub_country_name_numeric_length |-> CONST(INTEGER, VI(3)),
  extension_OR_address_components |-> CONST(INTEGER, VI(12)),
  id_at_dnQualifier |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 46>>)),
  ub_e163_4_number_length |-> CONST(INTEGER, VI(15)),
  terminal_type |-> CONST(INTEGER, VI(23)),
  id_domainComponent |-> CONST(OBJECT_IDENTIFIER, VOID(<<0, 9, 2342, 19200300, 100, 1, 25>>)),
  ub_state_name |-> CONST(INTEGER, VI(128)),
  ub_organization_name |-> CONST(INTEGER, VI(64)),
  ub_emailaddress_length |-> CONST(INTEGER, VI(128)),
  id_at_surname |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 4>>)),
  ub_common_name_length |-> CONST(INTEGER, VI(64)),
  id_ad |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48>>)),
  ub_numeric_user_id_length |-> CONST(INTEGER, VI(32)),
  ub_domain_name_length |-> CONST(INTEGER, VI(16)),
  ub_generation_qualifier_length |-> CONST(INTEGER, VI(3)),
  ub_given_name_length |-> CONST(INTEGER, VI(16)),
  ub_initials_length |-> CONST(INTEGER, VI(5)),
  ub_terminal_id_length |-> CONST(INTEGER, VI(24)),
  ub_x121_address_length |-> CONST(INTEGER, VI(16)),
  ub_domain_defined_attributes |-> CONST(INTEGER, VI(4)),
  ub_extension_attributes |-> CONST(INTEGER, VI(256)),
  id_pe |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1>>)),
  ub_title |-> CONST(INTEGER, VI(64)),
  id_at_organizationalUnitName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 11>>)),
  physical_delivery_country_name |-> CONST(INTEGER, VI(8)),
  id_at_givenName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 42>>)),
  id_qt_cps |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 2, 1>>)),
  id_kp |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3>>)),
  id_at_initials |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 43>>)),
  id_qt_unotice |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 2, 2>>)),
  ub_pds_name_length |-> CONST(INTEGER, VI(16)),
  ub_serial_number |-> CONST(INTEGER, VI(64)),
  id_at_generationQualifier |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 44>>)),
  ub_organizational_unit_name |-> CONST(INTEGER, VI(64)),
  id_ad_ocsp |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1>>)),
  local_postal_attributes |-> CONST(INTEGER, VI(21)),
  pkcs_9 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9>>)),
  ub_name |-> CONST(INTEGER, VI(32768)),
  id_emailAddress |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 1>>)),
  id_at_commonName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 3>>)),
  pds_name |-> CONST(INTEGER, VI(7)),
  post_office_box_address |-> CONST(INTEGER, VI(18)),
  ub_locality_name |-> CONST(INTEGER, VI(128)),
  id_ad_timeStamping |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 3>>)),
  id_at_countryName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 6>>)),
  physical_delivery_personal_name |-> CONST(INTEGER, VI(13)),
  teletex_personal_name |-> CONST(INTEGER, VI(4)),
  teletex_organizational_unit_names |-> CONST(INTEGER, VI(5)),
  ub_postal_code_length |-> CONST(INTEGER, VI(16)),
  postal_code |-> CONST(INTEGER, VI(9)),
  id_ad_caRepository |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 5>>)),
  extension_physical_delivery_address_components |-> CONST(INTEGER, VI(15)),
  id_at_title |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 12>>)),
  id_at_serialNumber |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 5>>)),
  id_ad_caIssuers |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 2>>)),
  ub_integer_options |-> CONST(INTEGER, VI(256)),
  physical_delivery_office_name |-> CONST(INTEGER, VI(10)),
  ub_common_name |-> CONST(INTEGER, VI(64)),
  ub_pseudonym |-> CONST(INTEGER, VI(128)),
  poste_restante_address |-> CONST(INTEGER, VI(19)),
  id_at_organizationName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 10>>)),
  physical_delivery_office_number |-> CONST(INTEGER, VI(11)),
  id_at_pseudonym |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 65>>)),
  physical_delivery_organization_name |-> CONST(INTEGER, VI(14)),
  id_at_stateOrProvinceName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 8>>)),
  common_name |-> CONST(INTEGER, VI(1)),
  id_at_localityName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 7>>)),
  ub_match |-> CONST(INTEGER, VI(128)),
  ub_unformatted_address_length |-> CONST(INTEGER, VI(180)),
  extended_network_address |-> CONST(INTEGER, VI(22)),
  unique_postal_name |-> CONST(INTEGER, VI(20)),
  ub_pds_physical_address_lines |-> CONST(INTEGER, VI(6)),
  teletex_organization_name |-> CONST(INTEGER, VI(3)),
  teletex_domain_defined_attributes |-> CONST(INTEGER, VI(6)),
  street_address |-> CONST(INTEGER, VI(17)),
  id_kp_OCSPSigning |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 9>>)),
  id_ce |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29>>)),
  id_ce_certificatePolicies |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 32>>)),
  id_ce_cRLDistributionPoints |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 31>>)),
  holdInstruction |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 2, 840, 10040, 2>>)),
  id_ce_subjectDirectoryAttributes |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 9>>)),
  id_holdinstruction_callissuer |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 2, 840, 10040, 2, 2>>)),
  anyPolicy |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 32, 0>>)),
  id_ce_subjectAltName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 17>>)),
  id_kp_emailProtection |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 4>>)),
  id_ce_keyUsage |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 15>>)),
  id_ce_basicConstraints |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 19>>)),
  id_ce_nameConstraints |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 30>>)),
  id_kp_serverAuth |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 1>>)),
  id_ce_freshestCRL |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 46>>)),
  id_ce_cRLReasons |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 21>>)),
  id_ce_inhibitAnyPolicy |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 54>>)),
  id_pe_authorityInfoAccess |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 1>>)),
  id_pe_subjectInfoAccess |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 11>>)),
  id_ce_certificateIssuer |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 29>>)),
  id_ce_invalidityDate |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 24>>)),
  id_ce_authorityKeyIdentifier |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 35>>)),
  id_ce_issuingDistributionPoint |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 28>>)),
  id_ce_subjectKeyIdentifier |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 14>>)),
  id_ce_extKeyUsage |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 37>>)),
  anyExtendedKeyUsage |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 37, 0>>)),
  id_ce_privateKeyUsagePeriod |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 16>>)),
  id_ce_policyMappings |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 33>>)),
  id_ce_cRLNumber |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 20>>)),
  id_ce_policyConstraints |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 36>>)),
  id_holdinstruction_none |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 2, 840, 10040, 2, 1>>)),
  id_holdinstruction_reject |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 2, 840, 10040, 2, 3>>)),
  id_kp_timeStamping |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 8>>)),
  id_kp_clientAuth |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 2>>)),
  id_ce_deltaCRLIndicator |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 27>>)),
  id_ce_issuerAltName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 18>>)),
  id_kp_codeSigning |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 3>>)),
  id_ce_holdInstructionCode |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 23>>))]

\* open type tables this module exports, with the table each one is
rfc3280_Tables == <<>>

\* what importing this module adds to the tables
rfc3280_Entries == <<
>>
=================================================================
