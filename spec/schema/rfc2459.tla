------------------------ MODULE rfc2459 ------------------------
\* http://www.trl.ibm.com/projects/xml/xss4j/data/asn1/grammars/x509.asn
\* http://www.ietf.org/rfc/rfc2459.txt
\* http://wiki.wireshark.org/SampleCaptures/
EXTENDS Asn1Notation

rfc2459_Imports == <<>>

rfc2459_StarImports == <<>>

rfc2459_Types == [
  UniversalString |-> UniversalString,
  BMPString |-> BMPString,
  UTF8String |-> UTF8String,
  X520name |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 32768))),
    REQ("printableString", CON(PrintableString, SIZE(1, 32768))),
    REQ("universalString", CON(UniversalString, SIZE(1, 32768))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 32768))),
    REQ("bmpString", CON(BMPString, SIZE(1, 32768)))>>),
  X520CommonName |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 64))),
    REQ("printableString", CON(PrintableString, SIZE(1, 64))),
    REQ("universalString", CON(UniversalString, SIZE(1, 64))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 64))),
    REQ("bmpString", CON(BMPString, SIZE(1, 64)))>>),
  X520LocalityName |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 128))),
    REQ("printableString", CON(PrintableString, SIZE(1, 128))),
    REQ("universalString", CON(UniversalString, SIZE(1, 128))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 128))),
    REQ("bmpString", CON(BMPString, SIZE(1, 128)))>>),
  X520StateOrProvinceName |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 128))),
    REQ("printableString", CON(PrintableString, SIZE(1, 128))),
    REQ("universalString", CON(UniversalString, SIZE(1, 128))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 128))),
    REQ("bmpString", CON(BMPString, SIZE(1, 128)))>>),
  X520OrganizationName |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 64))),
    REQ("printableString", CON(PrintableString, SIZE(1, 64))),
    REQ("universalString", CON(UniversalString, SIZE(1, 64))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 64))),
    REQ("bmpString", CON(BMPString, SIZE(1, 64)))>>),
  X520OrganizationalUnitName |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 64))),
    REQ("printableString", CON(PrintableString, SIZE(1, 64))),
    REQ("universalString", CON(UniversalString, SIZE(1, 64))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 64))),
    REQ("bmpString", CON(BMPString, SIZE(1, 64)))>>),
  X520Title |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 64))),
    REQ("printableString", CON(PrintableString, SIZE(1, 64))),
    REQ("universalString", CON(UniversalString, SIZE(1, 64))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 64))),
    REQ("bmpString", CON(BMPString, SIZE(1, 64)))>>),
  X520dnQualifier |-> PrintableString,
  X520countryName |-> CON(PrintableString, SIZE(2, 2)),
  Pkcs9email |-> CON(IA5String, SIZE(1, 128)),
  DSAPrivateKey |-> SEQUENCE(<<
    REQ("version", NAMED(INTEGER, <<NV("v1", 0)>>)),
    REQ("p", INTEGER),
    REQ("q", INTEGER),
    REQ("g", INTEGER),
    REQ("public", INTEGER),
    REQ("private", INTEGER)>>),
  DirectoryString |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, MAXSIZE))),
    REQ("printableString", CON(PrintableString, SIZE(1, MAXSIZE))),
    REQ("universalString", CON(UniversalString, SIZE(1, MAXSIZE))),
    REQ("utf8String", CON(UTF8String, SIZE(1, MAXSIZE))),
    REQ("bmpString", CON(BMPString, SIZE(1, MAXSIZE))),
    REQ("ia5String", CON(IA5String, SIZE(1, MAXSIZE)))>>),
  AlgorithmIdentifier |-> SEQUENCE(<<
    REQ("algorithm", OBJECT_IDENTIFIER),
    OPT("parameters", ANY_T)>>),
  Dss_Sig_Value |-> SEQUENCE(<<
    REQ("r", INTEGER),
    REQ("s", INTEGER)>>),
  ValidationParms |-> SEQUENCE(<<
    REQ("seed", BIT_STRING),
    REQ("pgenCounter", INTEGER)>>),
  DomainParameters |-> SEQUENCE(<<
    REQ("p", INTEGER),
    REQ("g", INTEGER),
    REQ("q", INTEGER),
    OPT("j", INTEGER),
    OPT("validationParms", R("rfc2459", "ValidationParms"))>>),
  Dss_Parms |-> SEQUENCE(<<
    REQ("p", INTEGER),
    REQ("q", INTEGER),
    REQ("g", INTEGER)>>),
  TeletexDomainDefinedAttribute |-> SEQUENCE(<<
    REQ("type", CON(TeletexString, SIZE(1, 8))),
    REQ("value", CON(TeletexString, SIZE(1, 128)))>>),
  TeletexDomainDefinedAttributes |-> CON(SEQUENCE_OF(R("rfc2459", "TeletexDomainDefinedAttribute")), SIZE(1, 4)),
  TerminalType |-> CON(NAMED(INTEGER, <<NV("telex", 3), NV("teletex", 4), NV("g3-facsimile", 5), NV("g4-facsimile", 6), NV("ia5-terminal", 7), NV("videotex", 8)>>), RANGE(I(0), I(256))),
  PresentationAddress |-> SEQUENCE(<<
    OPT("pSelector", EXPL(CTX, 0, OCTET_STRING)),
    OPT("sSelector", EXPL(CTX, 1, OCTET_STRING)),
    OPT("tSelector", EXPL(CTX, 2, OCTET_STRING)),
    REQ("nAddresses", EXPL(CTX, 3, CON(SET_OF(OCTET_STRING), SIZE(1, MAXSIZE))))>>),
  E163_4_address |-> SEQUENCE(<<
    REQ("number", EXPL(CTX, 0, CON(NumericString, SIZE(1, 15)))),
    OPT("sub-address", EXPL(CTX, 1, CON(NumericString, SIZE(1, 40))))>>),
  ExtendedNetworkAddress |-> CHOICE(<<
    REQ("e163-4-address", R("rfc2459", "E163_4_address")),
    REQ("psap-address", EXPL(CTX, 0, R("rfc2459", "PresentationAddress")))>>),
  PDSParameter |-> SET_T(<<
    OPT("printable-string", CON(PrintableString, SIZE(1, 30))),
    OPT("teletex-string", CON(TeletexString, SIZE(1, 30)))>>),
  LocalPostalAttributes |-> R("rfc2459", "PDSParameter"),
  UniquePostalName |-> R("rfc2459", "PDSParameter"),
  PosteRestanteAddress |-> R("rfc2459", "PDSParameter"),
  PostOfficeBoxAddress |-> R("rfc2459", "PDSParameter"),
  StreetAddress |-> R("rfc2459", "PDSParameter"),
  UnformattedPostalAddress |-> SET_T(<<
    OPT("printable-address", CON(SEQUENCE_OF(CON(PrintableString, SIZE(1, 30))), SIZE(1, 6))),
    OPT("teletex-string", CON(TeletexString, SIZE(1, 180)))>>),
  PhysicalDeliveryOfficeName |-> R("rfc2459", "PDSParameter"),
  PhysicalDeliveryOfficeNumber |-> R("rfc2459", "PDSParameter"),
  ExtensionORAddressComponents |-> R("rfc2459", "PDSParameter"),
  PhysicalDeliveryPersonalName |-> R("rfc2459", "PDSParameter"),
  PhysicalDeliveryOrganizationName |-> R("rfc2459", "PDSParameter"),
  ExtensionPhysicalDeliveryAddressComponents |-> R("rfc2459", "PDSParameter"),
  PostalCode |-> CHOICE(<<
    REQ("numeric-code", CON(NumericString, SIZE(1, 16))),
    REQ("printable-code", CON(PrintableString, SIZE(1, 16)))>>),
  PhysicalDeliveryCountryName |-> CHOICE(<<
    REQ("x121-dcc-code", CON(NumericString, SIZE(3, 3))),
    REQ("iso-3166-alpha2-code", CON(PrintableString, SIZE(2, 2)))>>),
  PDSName |-> CON(PrintableString, SIZE(1, 16)),
  TeletexOrganizationalUnitName |-> CON(TeletexString, SIZE(1, 32)),
  TeletexOrganizationalUnitNames |-> CON(SEQUENCE_OF(R("rfc2459", "TeletexOrganizationalUnitName")), SIZE(1, 4)),
  TeletexPersonalName |-> SET_T(<<
    REQ("surname", EXPL(CTX, 0, CON(TeletexString, SIZE(1, 40)))),
    OPT("given-name", EXPL(CTX, 1, CON(TeletexString, SIZE(1, 16)))),
    OPT("initials", EXPL(CTX, 2, CON(TeletexString, SIZE(1, 5)))),
    OPT("generation-qualifier", EXPL(CTX, 3, CON(TeletexString, SIZE(1, 3))))>>),
  TeletexOrganizationName |-> CON(TeletexString, SIZE(1, 64)),
  TeletexCommonName |-> CON(TeletexString, SIZE(1, 64)),
  CommonName |-> CON(PrintableString, SIZE(1, 64)),
  ExtensionAttribute |-> SEQUENCE(<<
    REQ("extension-attribute-type", EXPL(CTX, 0, CON(INTEGER, RANGE(I(0), I(256))))),
    REQ("extension-attribute-value", EXPL(CTX, 1, ANY_T))>>),
  ExtensionAttributes |-> CON(SET_OF(R("rfc2459", "ExtensionAttribute")), SIZE(1, 256)),
  BuiltInDomainDefinedAttribute |-> SEQUENCE(<<
    REQ("type", CON(PrintableString, SIZE(1, 8))),
    REQ("value", CON(PrintableString, SIZE(1, 128)))>>),
  BuiltInDomainDefinedAttributes |-> CON(SEQUENCE_OF(R("rfc2459", "BuiltInDomainDefinedAttribute")), SIZE(1, 4)),
  OrganizationalUnitName |-> CON(PrintableString, SIZE(1, 32)),
  OrganizationalUnitNames |-> CON(SEQUENCE_OF(R("rfc2459", "OrganizationalUnitName")), SIZE(1, 4)),
  PersonalName |-> SET_T(<<
    REQ("surname", EXPL(CTX, 0, CON(PrintableString, SIZE(1, 40)))),
    OPT("given-name", EXPL(CTX, 1, CON(PrintableString, SIZE(1, 16)))),
    OPT("initials", EXPL(CTX, 2, CON(PrintableString, SIZE(1, 5)))),
    OPT("generation-qualifier", EXPL(CTX, 3, CON(PrintableString, SIZE(1, 3))))>>),
  NumericUserIdentifier |-> CON(NumericString, SIZE(1, 32)),
  OrganizationName |-> CON(PrintableString, SIZE(1, 64)),
  PrivateDomainName |-> CHOICE(<<
    REQ("numeric", CON(NumericString, SIZE(1, 16))),
    REQ("printable", CON(PrintableString, SIZE(1, 16)))>>),
  TerminalIdentifier |-> CON(PrintableString, SIZE(1, 24)),
  X121Address |-> CON(NumericString, SIZE(1, 16)),
  NetworkAddress |-> R("rfc2459", "X121Address"),
  AdministrationDomainName |-> EXPL(APP, 2, CHOICE(<<
    REQ("numeric", CON(NumericString, SIZE(0, 16))),
    REQ("printable", CON(PrintableString, SIZE(0, 16)))>>)),
  CountryName |-> EXPL(APP, 1, CHOICE(<<
    REQ("x121-dcc-code", CON(NumericString, SIZE(3, 3))),
    REQ("iso-3166-alpha2-code", CON(PrintableString, SIZE(2, 2)))>>)),
  BuiltInStandardAttributes |-> SEQUENCE(<<
    OPT("country-name", R("rfc2459", "CountryName")),
    OPT("administration-domain-name", R("rfc2459", "AdministrationDomainName")),
    OPT("network-address", EXPL(CTX, 0, R("rfc2459", "NetworkAddress"))),
    OPT("terminal-identifier", EXPL(CTX, 1, R("rfc2459", "TerminalIdentifier"))),
    OPT("private-domain-name", EXPL(CTX, 2, R("rfc2459", "PrivateDomainName"))),
    OPT("organization-name", EXPL(CTX, 3, R("rfc2459", "OrganizationName"))),
    OPT("numeric-user-identifier", EXPL(CTX, 4, R("rfc2459", "NumericUserIdentifier"))),
    OPT("personal-name", EXPL(CTX, 5, R("rfc2459", "PersonalName"))),
    OPT("organizational-unit-names", EXPL(CTX, 6, R("rfc2459", "OrganizationalUnitNames")))>>),
  ORAddress |-> SEQUENCE(<<
    REQ("built-in-standard-attributes", R("rfc2459", "BuiltInStandardAttributes")),
    OPT("built-in-domain-defined-attributes", R("rfc2459", "BuiltInDomainDefinedAttributes")),
    OPT("extension-attributes", R("rfc2459", "ExtensionAttributes"))>>),
  InvalidityDate |-> GeneralizedTime,
  HoldInstructionCode |-> OBJECT_IDENTIFIER,
  CRLReason |-> NAMED(ENUMERATED, <<NV("unspecified", 0), NV("keyCompromise", 1), NV("cACompromise", 2), NV("affiliationChanged", 3), NV("superseded", 4), NV("cessationOfOperation", 5), NV("certificateHold", 6), NV("removeFromCRL", 8)>>),
  CRLNumber |-> CON(INTEGER, RANGE(I(0), NOBOUND)),
  BaseCRLNumber |-> R("rfc2459", "CRLNumber"),
  KeyPurposeId |-> OBJECT_IDENTIFIER,
  ExtKeyUsageSyntax |-> CON(SEQUENCE_OF(R("rfc2459", "KeyPurposeId")), SIZE(1, MAXSIZE)),
  ReasonFlags |-> NAMED(BIT_STRING, <<NV("unused", 0), NV("keyCompromise", 1), NV("cACompromise", 2), NV("affiliationChanged", 3), NV("superseded", 4), NV("cessationOfOperation", 5), NV("certificateHold", 6)>>),
  SkipCerts |-> CON(INTEGER, RANGE(I(0), NOBOUND)),
  PolicyConstraints |-> SEQUENCE(<<
    OPT("requireExplicitPolicy", IMPL(CTX, 0, R("rfc2459", "SkipCerts"))),
    OPT("inhibitPolicyMapping", IMPL(CTX, 1, R("rfc2459", "SkipCerts")))>>),
  BasicConstraints |-> SEQUENCE(<<
    DFLT("cA", BOOLEAN_T, VB(FALSE)),
    OPT("pathLenConstraint", CON(INTEGER, RANGE(I(0), NOBOUND)))>>),
  EDIPartyName |-> SEQUENCE(<<
    OPT("nameAssigner", IMPL(CTX, 0, R("rfc2459", "DirectoryString"))),
    REQ("partyName", IMPL(CTX, 1, R("rfc2459", "DirectoryString")))>>),
  BaseDistance |-> CON(INTEGER, RANGE(I(0), NOBOUND)),
  DisplayText |-> CHOICE(<<
    REQ("visibleString", CON(VisibleString, SIZE(1, 200))),
    REQ("bmpString", CON(BMPString, SIZE(1, 200))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 200)))>>),
  NoticeReference |-> SEQUENCE(<<
    REQ("organization", R("rfc2459", "DisplayText")),
    REQ("noticeNumbers", SEQUENCE_OF(INTEGER))>>),
  UserNotice |-> SEQUENCE(<<
    OPT("noticeRef", R("rfc2459", "NoticeReference")),
    OPT("explicitText", R("rfc2459", "DisplayText"))>>),
  CPSuri |-> IA5String,
  PolicyQualifierId |-> CON(OBJECT_IDENTIFIER, VALUES(<<VOID(<<1, 3, 6, 1, 5, 5, 7, 2, 1>>), VOID(<<1, 3, 6, 1, 5, 5, 7, 2, 2>>)>>)),
  CertPolicyId |-> OBJECT_IDENTIFIER,
  PolicyQualifierInfo |-> SEQUENCE(<<
    REQ("policyQualifierId", R("rfc2459", "PolicyQualifierId")),
    REQ("qualifier", ANY_T)>>),
  PolicyInformation |-> SEQUENCE(<<
    REQ("policyIdentifier", R("rfc2459", "CertPolicyId")),
    OPT("policyQualifiers", CON(SEQUENCE_OF(R("rfc2459", "PolicyQualifierInfo")), SIZE(1, MAXSIZE)))>>),
  CertificatePolicies |-> CON(SEQUENCE_OF(R("rfc2459", "PolicyInformation")), SIZE(1, MAXSIZE)),
  PolicyMapping |-> SEQUENCE(<<
    REQ("issuerDomainPolicy", R("rfc2459", "CertPolicyId")),
    REQ("subjectDomainPolicy", R("rfc2459", "CertPolicyId"))>>),
  PolicyMappings |-> CON(SEQUENCE_OF(R("rfc2459", "PolicyMapping")), SIZE(1, MAXSIZE)),
  PrivateKeyUsagePeriod |-> SEQUENCE(<<
    OPT("notBefore", IMPL(CTX, 0, GeneralizedTime)),
    OPT("notAfter", IMPL(CTX, 1, GeneralizedTime))>>),
  KeyUsage |-> NAMED(BIT_STRING, <<NV("digitalSignature", 0), NV("nonRepudiation", 1), NV("keyEncipherment", 2), NV("dataEncipherment", 3), NV("keyAgreement", 4), NV("keyCertSign", 5), NV("cRLSign", 6), NV("encipherOnly", 7), NV("decipherOnly", 8)>>),
  KeyIdentifier |-> OCTET_STRING,
  SubjectKeyIdentifier |-> R("rfc2459", "KeyIdentifier"),
  AttributeValue |-> ANY_T,
  AttributeType |-> OBJECT_IDENTIFIER,
  AttributeTypeAndValue |-> SEQUENCE(<<
    REQ("type", R("rfc2459", "AttributeType")),
    OPEN("type", "rfc2459", "certificateAttributesMap", REQ("value", R("rfc2459", "AttributeValue")))>>),
  Attribute |-> SEQUENCE(<<
    REQ("type", R("rfc2459", "AttributeType")),
    REQ("vals", SET_OF(R("rfc2459", "AttributeValue")))>>),
  SubjectDirectoryAttributes |-> CON(SEQUENCE_OF(R("rfc2459", "Attribute")), SIZE(1, MAXSIZE)),
  RelativeDistinguishedName |-> SET_OF(R("rfc2459", "AttributeTypeAndValue")),
  RDNSequence |-> SEQUENCE_OF(R("rfc2459", "RelativeDistinguishedName")),
  Name |-> CHOICE(<<
    REQ("", R("rfc2459", "RDNSequence"))>>),
  CertificateSerialNumber |-> INTEGER,
  AnotherName |-> SEQUENCE(<<
    REQ("type-id", OBJECT_IDENTIFIER),
    REQ("value", EXPL(CTX, 0, ANY_T))>>),
  GeneralName |-> CHOICE(<<
    REQ("otherName", IMPL(CTX, 0, R("rfc2459", "AnotherName"))),
    REQ("rfc822Name", IMPL(CTX, 1, IA5String)),
    REQ("dNSName", IMPL(CTX, 2, IA5String)),
    REQ("x400Address", IMPL(CTX, 3, R("rfc2459", "ORAddress"))),
    REQ("directoryName", IMPL(CTX, 4, R("rfc2459", "Name"))),
    REQ("ediPartyName", IMPL(CTX, 5, R("rfc2459", "EDIPartyName"))),
    REQ("uniformResourceIdentifier", IMPL(CTX, 6, IA5String)),
    REQ("iPAddress", IMPL(CTX, 7, OCTET_STRING)),
    REQ("registeredID", IMPL(CTX, 8, OBJECT_IDENTIFIER))>>),
  GeneralNames |-> CON(SEQUENCE_OF(R("rfc2459", "GeneralName")), SIZE(1, MAXSIZE)),
  AccessDescription |-> SEQUENCE(<<
    REQ("accessMethod", OBJECT_IDENTIFIER),
    REQ("accessLocation", R("rfc2459", "GeneralName"))>>),
  AuthorityInfoAccessSyntax |-> CON(SEQUENCE_OF(R("rfc2459", "AccessDescription")), SIZE(1, MAXSIZE)),
  AuthorityKeyIdentifier |-> SEQUENCE(<<
    OPT("keyIdentifier", IMPL(CTX, 0, R("rfc2459", "KeyIdentifier"))),
    OPT("authorityCertIssuer", IMPL(CTX, 1, R("rfc2459", "GeneralNames"))),
    OPT("authorityCertSerialNumber", IMPL(CTX, 2, R("rfc2459", "CertificateSerialNumber")))>>),
  DistributionPointName |-> CHOICE(<<
    REQ("fullName", IMPL(CTX, 0, R("rfc2459", "GeneralNames"))),
    REQ("nameRelativeToCRLIssuer", IMPL(CTX, 1, R("rfc2459", "RelativeDistinguishedName")))>>),
  DistributionPoint |-> SEQUENCE(<<
    OPT("distributionPoint", EXPL(CTX, 0, R("rfc2459", "DistributionPointName"))),
    OPT("reasons", IMPL(CTX, 1, R("rfc2459", "ReasonFlags"))),
    OPT("cRLIssuer", IMPL(CTX, 2, R("rfc2459", "GeneralNames")))>>),
  CRLDistPointsSyntax |-> CON(SEQUENCE_OF(R("rfc2459", "DistributionPoint")), SIZE(1, MAXSIZE)),
  IssuingDistributionPoint |-> SEQUENCE(<<
    OPT("distributionPoint", EXPL(CTX, 0, R("rfc2459", "DistributionPointName"))),
    DFLT("onlyContainsUserCerts", IMPL(CTX, 1, BOOLEAN_T), VB(FALSE)),
    DFLT("onlyContainsCACerts", IMPL(CTX, 2, BOOLEAN_T), VB(FALSE)),
    OPT("onlySomeReasons", IMPL(CTX, 3, R("rfc2459", "ReasonFlags"))),
    DFLT("indirectCRL", IMPL(CTX, 4, BOOLEAN_T), VB(FALSE))>>),
  GeneralSubtree |-> SEQUENCE(<<
    REQ("base", R("rfc2459", "GeneralName")),
    DFLT("minimum", IMPL(CTX, 0, R("rfc2459", "BaseDistance")), VI(0)),
    OPT("maximum", IMPL(CTX, 1, R("rfc2459", "BaseDistance")))>>),
  GeneralSubtrees |-> CON(SEQUENCE_OF(R("rfc2459", "GeneralSubtree")), SIZE(1, MAXSIZE)),
  NameConstraints |-> SEQUENCE(<<
    OPT("permittedSubtrees", IMPL(CTX, 0, R("rfc2459", "GeneralSubtrees"))),
    OPT("excludedSubtrees", IMPL(CTX, 1, R("rfc2459", "GeneralSubtrees")))>>),
  CertificateIssuer |-> R("rfc2459", "GeneralNames"),
  SubjectAltName |-> R("rfc2459", "GeneralNames"),
  IssuerAltName |-> R("rfc2459", "GeneralNames"),
  Extension |-> SEQUENCE(<<
    REQ("extnID", OBJECT_IDENTIFIER),
    DFLT("critical", BOOLEAN_T, VB(FALSE)),
    OPEN("extnID", "rfc2459", "certificateExtensionsMap", REQ("extnValue", OCTET_STRING))>>),
  Extensions |-> CON(SEQUENCE_OF(R("rfc2459", "Extension")), SIZE(1, MAXSIZE)),
  SubjectPublicKeyInfo |-> SEQUENCE(<<
    REQ("algorithm", R("rfc2459", "AlgorithmIdentifier")),
    REQ("subjectPublicKey", BIT_STRING)>>),
  UniqueIdentifier |-> BIT_STRING,
  Time |-> CHOICE(<<
    REQ("utcTime", UTCTime),
    REQ("generalTime", GeneralizedTime)>>),
  Validity |-> SEQUENCE(<<
    REQ("notBefore", R("rfc2459", "Time")),
    REQ("notAfter", R("rfc2459", "Time"))>>),
  Version |-> NAMED(INTEGER, <<NV("v1", 0), NV("v2", 1), NV("v3", 2)>>),
  TBSCertificate |-> SEQUENCE(<<
    DFLT("version", EXPL(CTX, 0, R("rfc2459", "Version")), VI(0)),
    REQ("serialNumber", R("rfc2459", "CertificateSerialNumber")),
    REQ("signature", R("rfc2459", "AlgorithmIdentifier")),
    REQ("issuer", R("rfc2459", "Name")),
    REQ("validity", R("rfc2459", "Validity")),
    REQ("subject", R("rfc2459", "Name")),
    REQ("subjectPublicKeyInfo", R("rfc2459", "SubjectPublicKeyInfo")),
    OPT("issuerUniqueID", IMPL(CTX, 1, R("rfc2459", "UniqueIdentifier"))),
    OPT("subjectUniqueID", IMPL(CTX, 2, R("rfc2459", "UniqueIdentifier"))),
    OPT("extensions", EXPL(CTX, 3, R("rfc2459", "Extensions")))>>),
  Certificate |-> SEQUENCE(<<
    REQ("tbsCertificate", R("rfc2459", "TBSCertificate")),
    REQ("signatureAlgorithm", R("rfc2459", "AlgorithmIdentifier")),
    REQ("signatureValue", BIT_STRING)>>),
  RevokedCertificate |-> SEQUENCE(<<
    REQ("userCertificate", R("rfc2459", "CertificateSerialNumber")),
    REQ("revocationDate", R("rfc2459", "Time")),
    OPT("crlEntryExtensions", R("rfc2459", "Extensions"))>>),
  TBSCertList |-> SEQUENCE(<<
    OPT("version", R("rfc2459", "Version")),
    REQ("signature", R("rfc2459", "AlgorithmIdentifier")),
    REQ("issuer", R("rfc2459", "Name")),
    REQ("thisUpdate", R("rfc2459", "Time")),
    OPT("nextUpdate", R("rfc2459", "Time")),
    OPT("revokedCertificates", SEQUENCE_OF(R("rfc2459", "RevokedCertificate"))),
    OPT("crlExtensions", EXPL(CTX, 0, R("rfc2459", "Extensions")))>>),
  CertificateList |-> SEQUENCE(<<
    REQ("tbsCertList", R("rfc2459", "TBSCertList")),
    REQ("signatureAlgorithm", R("rfc2459", "AlgorithmIdentifier")),
    REQ("signature", BIT_STRING)>>)]

rfc2459_Values == [
  ub_name |-> CONST(INTEGER, VI(32768)),
  ub_common_name |-> CONST(INTEGER, VI(64)),
  ub_locality_name |-> CONST(INTEGER, VI(128)),
  ub_state_name |-> CONST(INTEGER, VI(128)),
  ub_organization_name |-> CONST(INTEGER, VI(64)),
  ub_organizational_unit_name |-> CONST(INTEGER, VI(64)),
  ub_title |-> CONST(INTEGER, VI(64)),
  ub_match |-> CONST(INTEGER, VI(128)),
  ub_emailaddress_length |-> CONST(INTEGER, VI(128)),
  ub_common_name_length |-> CONST(INTEGER, VI(64)),
  ub_country_name_alpha_length |-> CONST(INTEGER, VI(2)),
  ub_country_name_numeric_length |-> CONST(INTEGER, VI(3)),
  ub_domain_defined_attributes |-> CONST(INTEGER, VI(4)),
  ub_domain_defined_attribute_type_length |-> CONST(INTEGER, VI(8)),
  ub_domain_defined_attribute_value_length |-> CONST(INTEGER, VI(128)),
  ub_domain_name_length |-> CONST(INTEGER, VI(16)),
  ub_extension_attributes |-> CONST(INTEGER, VI(256)),
  ub_e163_4_number_length |-> CONST(INTEGER, VI(15)),
  ub_e163_4_sub_address_length |-> CONST(INTEGER, VI(40)),
  ub_generation_qualifier_length |-> CONST(INTEGER, VI(3)),
  ub_given_name_length |-> CONST(INTEGER, VI(16)),
  ub_initials_length |-> CONST(INTEGER, VI(5)),
  ub_integer_options |-> CONST(INTEGER, VI(256)),
  ub_numeric_user_id_length |-> CONST(INTEGER, VI(32)),
  ub_organization_name_length |-> CONST(INTEGER, VI(64)),
  ub_organizational_unit_name_length |-> CONST(INTEGER, VI(32)),
  ub_organizational_units |-> CONST(INTEGER, VI(4)),
  ub_pds_name_length |-> CONST(INTEGER, VI(16)),
  ub_pds_parameter_length |-> CONST(INTEGER, VI(30)),
  ub_pds_physical_address_lines |-> CONST(INTEGER, VI(6)),
  ub_postal_code_length |-> CONST(INTEGER, VI(16)),
  ub_surname_length |-> CONST(INTEGER, VI(40)),
  ub_terminal_id_length |-> CONST(INTEGER, VI(24)),
  ub_unformatted_address_length |-> CONST(INTEGER, VI(180)),
  ub_x121_address_length |-> CONST(INTEGER, VI(16)),
  id_pkix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7>>)),
  id_pe |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1>>)),
  id_qt |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 2>>)),
  id_kp |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3>>)),
  id_ad |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48>>)),
  id_qt_cps |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 2, 1>>)),
  id_qt_unotice |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 2, 2>>)),
  id_ad_ocsp |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 1>>)),
  id_ad_caIssuers |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 2>>)),
  id_at |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4>>)),
  id_at_name |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 41>>)),
  id_at_sutname |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 4>>)),
  id_at_surname |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 4>>)),
  id_at_givenName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 42>>)),
  id_at_initials |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 43>>)),
  id_at_generationQualifier |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 44>>)),
  id_at_commonName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 3>>)),
  id_at_localityName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 7>>)),
  id_at_stateOrProvinceName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 8>>)),
  id_at_organizationName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 10>>)),
  id_at_organizationalUnitName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 11>>)),
  id_at_title |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 12>>)),
  id_at_dnQualifier |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 46>>)),
  id_at_countryName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 4, 6>>)),
  pkcs_9 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9>>)),
  emailAddress |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 1>>)),
  pkcs_1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1>>)),
  rsaEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 1>>)),
  md2WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 2>>)),
  md5WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 4>>)),
  sha1WithRSAEncryption |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 1, 5>>)),
  id_dsa_with_sha1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10040, 4, 3>>)),
  dhpublicnumber |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10046, 2, 1>>)),
  id_dsa |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 10040, 4, 1>>)),
  teletex_domain_defined_attributes |-> CONST(INTEGER, VI(6)),
  terminal_type |-> CONST(INTEGER, VI(23)),
  extended_network_address |-> CONST(INTEGER, VI(22)),
  local_postal_attributes |-> CONST(INTEGER, VI(21)),
  unique_postal_name |-> CONST(INTEGER, VI(20)),
  poste_restante_address |-> CONST(INTEGER, VI(19)),
  post_office_box_address |-> CONST(INTEGER, VI(18)),
  street_address |-> CONST(INTEGER, VI(17)),
  physical_delivery_office_name |-> CONST(INTEGER, VI(10)),
  physical_delivery_office_number |-> CONST(INTEGER, VI(11)),
  extension_OR_address_components |-> CONST(INTEGER, VI(12)),
  physical_delivery_personal_name |-> CONST(INTEGER, VI(13)),
  physical_delivery_organization_name |-> CONST(INTEGER, VI(14)),
  extension_physical_delivery_address_components |-> CONST(INTEGER, VI(15)),
  unformatted_postal_address |-> CONST(INTEGER, VI(16)),
  postal_code |-> CONST(INTEGER, VI(9)),
  physical_delivery_country_name |-> CONST(INTEGER, VI(8)),
  pds_name |-> CONST(INTEGER, VI(7)),
  teletex_organizational_unit_names |-> CONST(INTEGER, VI(5)),
  teletex_personal_name |-> CONST(INTEGER, VI(4)),
  teletex_organization_name |-> CONST(INTEGER, VI(3)),
  teletex_common_name |-> CONST(INTEGER, VI(2)),
  common_name |-> CONST(INTEGER, VI(1)),
  id_ce_invalidityDate |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 24>>)),
  id_holdinstruction_none |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 2, 840, 10040, 2, 1>>)),
  id_holdinstruction_callissuer |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 2, 840, 10040, 2, 2>>)),
  id_holdinstruction_reject |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 2, 840, 10040, 2, 3>>)),
  holdInstruction |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 2, 840, 10040, 2>>)),
  id_ce_holdInstructionCode |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 23>>)),
  id_ce_cRLReasons |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 21>>)),
  id_ce_cRLNumber |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 20>>)),
  id_kp_serverAuth |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 1>>)),
  id_kp_clientAuth |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 2>>)),
  id_kp_codeSigning |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 3>>)),
  id_kp_emailProtection |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 4>>)),
  id_kp_ipsecEndSystem |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 5>>)),
  id_kp_ipsecTunnel |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 6>>)),
  id_kp_ipsecUser |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 7>>)),
  id_kp_timeStamping |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 8>>)),
  id_pe_authorityInfoAccess |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 1>>)),
  id_ce_extKeyUsage |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 37>>)),
  id_ce_policyConstraints |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 36>>)),
  id_ce_basicConstraints |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 19>>)),
  id_ce_subjectDirectoryAttributes |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 9>>)),
  id_ce_deltaCRLIndicator |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 27>>)),
  id_ce_cRLDistributionPoints |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 31>>)),
  id_ce_issuingDistributionPoint |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 28>>)),
  id_ce_nameConstraints |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 30>>)),
  id_ce_certificatePolicies |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 32>>)),
  id_ce_policyMappings |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 33>>)),
  id_ce_privateKeyUsagePeriod |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 16>>)),
  id_ce_keyUsage |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 15>>)),
  id_ce |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29>>)),
  id_ce_authorityKeyIdentifier |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 35>>)),
  id_ce_subjectKeyIdentifier |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 14>>)),
  id_ce_certificateIssuer |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 29>>)),
  id_ce_subjectAltName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 17>>)),
  id_ce_issuerAltName |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 5, 29, 18>>))]

\* open type tables this module exports, with the table each one is
rfc2459_Tables == <<<<"certificateAttributesMap", "rfc2459", "certificateAttributesMap">>, <<"certificateExtensionsMap", "rfc2459", "certificateExtensionsMap">>>>

\* what importing this module adds to the tables
rfc2459_Entries == <<
  ENTRY("rfc2459", "certificateAttributesMap", VOID(<<2, 5, 4, 41>>), R("rfc2459", "X520name")),
  ENTRY("rfc2459", "certificateAttributesMap", VOID(<<2, 5, 4, 4>>), R("rfc2459", "X520name")),
  ENTRY("rfc2459", "certificateAttributesMap", VOID(<<2, 5, 4, 42>>), R("rfc2459", "X520name")),
  ENTRY("rfc2459", "certificateAttributesMap", VOID(<<2, 5, 4, 43>>), R("rfc2459", "X520name")),
  ENTRY("rfc2459", "certificateAttributesMap", VOID(<<2, 5, 4, 44>>), R("rfc2459", "X520name")),
  ENTRY("rfc2459", "certificateAttributesMap", VOID(<<2, 5, 4, 3>>), R("rfc2459", "X520CommonName")),
  ENTRY("rfc2459", "certificateAttributesMap", VOID(<<2, 5, 4, 7>>), R("rfc2459", "X520LocalityName")),
  ENTRY("rfc2459", "certificateAttributesMap", VOID(<<2, 5, 4, 8>>), R("rfc2459", "X520StateOrProvinceName")),
  ENTRY("rfc2459", "certificateAttributesMap", VOID(<<2, 5, 4, 10>>), R("rfc2459", "X520OrganizationName")),
  ENTRY("rfc2459", "certificateAttributesMap", VOID(<<2, 5, 4, 11>>), R("rfc2459", "X520OrganizationalUnitName")),
  ENTRY("rfc2459", "certificateAttributesMap", VOID(<<2, 5, 4, 12>>), R("rfc2459", "X520Title")),
  ENTRY("rfc2459", "certificateAttributesMap", VOID(<<2, 5, 4, 46>>), R("rfc2459", "X520dnQualifier")),
  ENTRY("rfc2459", "certificateAttributesMap", VOID(<<2, 5, 4, 6>>), R("rfc2459", "X520countryName")),
  ENTRY("rfc2459", "certificateAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 1>>), R("rfc2459", "Pkcs9email")),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<2, 5, 29, 35>>), R("rfc2459", "AuthorityKeyIdentifier")),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<2, 5, 29, 14>>), R("rfc2459", "SubjectKeyIdentifier")),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<2, 5, 29, 15>>), R("rfc2459", "KeyUsage")),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<2, 5, 29, 16>>), R("rfc2459", "PrivateKeyUsagePeriod")),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<2, 5, 29, 32>>), R("rfc2459", "CertificatePolicies")),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<2, 5, 29, 33>>), R("rfc2459", "PolicyMappings")),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<2, 5, 29, 17>>), R("rfc2459", "SubjectAltName")),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<2, 5, 29, 18>>), R("rfc2459", "IssuerAltName")),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<2, 5, 29, 9>>), R("rfc2459", "SubjectDirectoryAttributes")),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<2, 5, 29, 19>>), R("rfc2459", "BasicConstraints")),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<2, 5, 29, 30>>), R("rfc2459", "NameConstraints")),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<2, 5, 29, 36>>), R("rfc2459", "PolicyConstraints")),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<2, 5, 29, 37>>), R("rfc2459", "ExtKeyUsageSyntax")),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<2, 5, 29, 31>>), R("rfc2459", "CRLDistPointsSyntax")),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 1>>), R("rfc2459", "AuthorityInfoAccessSyntax")),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<2, 5, 29, 20>>), INTEGER),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<2, 5, 29, 27>>), R("rfc2459", "BaseCRLNumber")),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<2, 5, 29, 28>>), R("rfc2459", "IssuingDistributionPoint")),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<2, 5, 29, 21>>), R("rfc2459", "CRLReason")),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<2, 5, 29, 23>>), OBJECT_IDENTIFIER),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<2, 5, 29, 24>>), GeneralizedTime),
  ENTRY("rfc2459", "certificateExtensionsMap", VOID(<<2, 5, 29, 29>>), R("rfc2459", "GeneralNames"))>>
=================================================================
