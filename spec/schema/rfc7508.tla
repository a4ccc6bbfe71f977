------------------------ MODULE rfc7508 ------------------------
\* https://www.rfc-editor.org/rfc/rfc7508.txt
\* https://www.rfc-editor.org/errata/eid5875
EXTENDS Asn1Notation

rfc7508_Imports == <<"rfc5652">>

rfc7508_StarImports == <<>>

rfc7508_Types == [
  Algorithm |-> NAMED(ENUMERATED, <<NV("canonAlgorithmSimple", 0), NV("canonAlgorithmRelaxed", 1)>>),
  HeaderFieldStatus |-> NAMED(INTEGER, <<NV("duplicated", 0), NV("deleted", 1), NV("modified", 2)>>),
  HeaderFieldName |-> CON(VisibleString, ALPHABET(<<9, 10, 11, 12, 13, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126>>)),
  HeaderFieldValue |-> UTF8String,
  HeaderField |-> SEQUENCE(<<
    REQ("field-Name", R("rfc7508", "HeaderFieldName")),
    REQ("field-Value", R("rfc7508", "HeaderFieldValue")),
    DFLT("field-Status", R("rfc7508", "HeaderFieldStatus"), VI(0))>>),
  HeaderFields |-> CON(SEQUENCE_OF(R("rfc7508", "HeaderField")), SIZE(1, MAXSIZE)),
  SecureHeaderFields |-> SET_T(<<
    REQ("canonAlgorithm", R("rfc7508", "Algorithm")),
    REQ("secHeaderFields", R("rfc7508", "HeaderFields"))>>)]

rfc7508_Values == [
  id_aa |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2>>)),
  id_aa_secureHeaderFieldsIdentifier |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 55>>))]

\* open type tables this module exports, with the table each one is
rfc7508_Tables == <<>>

\* what importing this module adds to the tables
rfc7508_Entries == <<
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 55>>), R("rfc7508", "SecureHeaderFields"))>>
=================================================================
