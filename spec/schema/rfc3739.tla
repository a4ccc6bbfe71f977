------------------------ MODULE rfc3739 ------------------------
\* https://www.rfc-editor.org/rfc/rfc3739.txt
EXTENDS Asn1Notation

rfc3739_Imports == <<"rfc5280">>

rfc3739_StarImports == <<>>

rfc3739_Types == [
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  AttributeType |-> R("rfc5280", "AttributeType"),
  DirectoryString |-> R("rfc5280", "DirectoryString"),
  GeneralName |-> R("rfc5280", "GeneralName"),
  DateOfBirth |-> GeneralizedTime,
  PlaceOfBirth |-> R("rfc5280", "DirectoryString"),
  Gender |-> CON(CON(PrintableString, SIZE(1, 1)), VALUES(<<VSTR(<<77>>), VSTR(<<70>>), VSTR(<<109>>), VSTR(<<102>>)>>)),
  CountryOfCitizenship |-> CON(PrintableString, SIZE(2, 2)),
  CountryOfResidence |-> CON(PrintableString, SIZE(2, 2)),
  PredefinedBiometricType |-> CON(NAMED(INTEGER, <<NV("picture", 0), NV("handwritten-signature", 1)>>), VALUES(<<VI(0), VI(1)>>)),
  TypeOfBiometricData |-> CHOICE(<<
    REQ("predefinedBiometricType", R("rfc3739", "PredefinedBiometricType")),
    REQ("biometricDataOid", OBJECT_IDENTIFIER)>>),
  BiometricData |-> SEQUENCE(<<
    REQ("typeOfBiometricData", R("rfc3739", "TypeOfBiometricData")),
    REQ("hashAlgorithm", R("rfc5280", "AlgorithmIdentifier")),
    REQ("biometricDataHash", OCTET_STRING),
    OPT("sourceDataUri", IA5String)>>),
  BiometricSyntax |-> SEQUENCE_OF(R("rfc3739", "BiometricData")),
  NameRegistrationAuthorities |-> CON(SEQUENCE_OF(R("rfc5280", "GeneralName")), SIZE(1, MAXSIZE)),
  QCStatement |-> SEQUENCE(<<
    REQ("statementId", OBJECT_IDENTIFIER),
    OPEN("statementId", "rfc3739", "qcStatementMap", OPT("statementInfo", ANY_T))>>),
  QCStatements |-> SEQUENCE_OF(R("rfc3739", "QCStatement")),
  SemanticsInformation |-> CON(SEQUENCE(<<
    OPT("semanticsIndentifier", OBJECT_IDENTIFIER),
    OPT("nameRegistrationAuthorities", R("rfc3739", "NameRegistrationAuthorities"))>>), EITHER(<<WITHCOMP(<<<<"semanticsIndentifier", TRUE>>>>), WITHCOMP(<<<<"nameRegistrationAuthorities", TRUE>>>>)>>))]

rfc3739_Values == [
  id_pkix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7>>)),
  id_pe |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1>>)),
  id_pda |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 9>>)),
  id_qcs |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 11>>)),
  id_pda_dateOfBirth |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 1>>)),
  id_pda_placeOfBirth |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 2>>)),
  id_pda_gender |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 3>>)),
  id_pda_countryOfCitizenship |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 4>>)),
  id_pda_countryOfResidence |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 5>>)),
  id_pe_biometricInfo |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 2>>)),
  id_pe_qcStatements |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 3>>)),
  id_qcs_pkixQCSyntax_v1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 11, 1>>)),
  id_qcs_pkixQCSyntax_v2 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 11, 2>>))]

\* open type tables this module exports, with the table each one is
rfc3739_Tables == <<<<"qcStatementMap", "rfc3739", "qcStatementMap">>>>

\* what importing this module adds to the tables
rfc3739_Entries == <<
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 1>>), R("rfc3739", "DateOfBirth")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 2>>), R("rfc3739", "PlaceOfBirth")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 3>>), R("rfc3739", "Gender")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 4>>), R("rfc3739", "CountryOfCitizenship")),
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 9, 5>>), R("rfc3739", "CountryOfResidence")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 2>>), R("rfc3739", "BiometricSyntax")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 3>>), R("rfc3739", "QCStatements"))>>
=================================================================
