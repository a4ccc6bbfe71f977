------------------------ MODULE rfc5751 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5751.txt
EXTENDS Asn1Notation

rfc5751_Imports == <<"rfc5652", "rfc8018">>

rfc5751_StarImports == <<>>

rfc5751_Types == [
  IssuerAndSerialNumber |-> R("rfc5652", "IssuerAndSerialNumber"),
  RecipientKeyIdentifier |-> R("rfc5652", "RecipientKeyIdentifier"),
  SubjectKeyIdentifier |-> R("rfc5652", "SubjectKeyIdentifier"),
  SMIMECapability |-> SEQUENCE(<<
    REQ("capabilityID", OBJECT_IDENTIFIER),
    OPEN("capabilityID", "rfc5751", "smimeCapabilityMap", OPT("parameters", ANY_T))>>),
  SMIMECapabilities |-> SEQUENCE_OF(R("rfc5751", "SMIMECapability")),
  SMIMECapabilitiesParametersForRC2CBC |-> INTEGER,
  SMIMEEncryptionKeyPreference |-> CHOICE(<<
    REQ("issuerAndSerialNumber", IMPL(CTX, 0, R("rfc5652", "IssuerAndSerialNumber"))),
    REQ("receipentKeyId", IMPL(CTX, 1, R("rfc5652", "RecipientKeyIdentifier"))),
    REQ("subjectAltKeyIdentifier", IMPL(CTX, 2, R("rfc5652", "SubjectKeyIdentifier")))>>)]

rfc5751_Values == [
  rc2CBC |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 3, 2>>)),
  smimeCapabilities |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 15>>)),
  id_smime |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16>>)),
  id_aa |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2>>)),
  id_aa_encrypKeyPref |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 11>>)),
  id_cap |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 11>>)),
  id_cap_preferBinaryInside |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 11, 1>>))]

\* open type tables this module exports, with the table each one is
rfc5751_Tables == <<<<"smimeCapabilityMap", "rfc5751", "smimeCapabilityMap">>>>

\* what importing this module adds to the tables
rfc5751_Entries == <<
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 15>>), R("rfc5751", "SMIMECapabilities")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 11>>), R("rfc5751", "SMIMEEncryptionKeyPreference")),
  ENTRY("rfc5751", "smimeCapabilityMap", VOID(<<1, 2, 840, 113549, 3, 2>>), R("rfc5751", "SMIMECapabilitiesParametersForRC2CBC"))>>
=================================================================
