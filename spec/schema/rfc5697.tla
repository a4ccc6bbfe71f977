------------------------ MODULE rfc5697 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5697.txt
EXTENDS Asn1Notation

rfc5697_Imports == <<"rfc5280", "rfc4055">>

rfc5697_StarImports == <<>>

rfc5697_Types == [
  AlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  CertificateSerialNumber |-> R("rfc5280", "CertificateSerialNumber"),
  GeneralNames |-> R("rfc5280", "GeneralNames"),
  SCVPIssuerSerial |-> SEQUENCE(<<
    REQ("issuer", R("rfc5280", "GeneralNames")),
    REQ("serialNumber", R("rfc5280", "CertificateSerialNumber"))>>),
  SCVPCertID |-> SEQUENCE(<<
    REQ("certHash", OCTET_STRING),
    REQ("issuerSerial", R("rfc5697", "SCVPIssuerSerial")),
    DFLT("hashAlgorithm", R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 3, 14, 3, 2, 26>>))>>))>>),
  OtherCertificates |-> SEQUENCE_OF(R("rfc5697", "SCVPCertID"))]

rfc5697_Values == [
  id_sha1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 14, 3, 2, 26>>)),
  sha1_alg_id |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 3, 14, 3, 2, 26>>))>>)),
  id_pe_otherCerts |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 19>>))]

\* open type tables this module exports, with the table each one is
rfc5697_Tables == <<>>

\* what importing this module adds to the tables
rfc5697_Entries == <<
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 19>>), R("rfc5697", "OtherCertificates"))>>
=================================================================
