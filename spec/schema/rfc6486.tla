------------------------ MODULE rfc6486 ------------------------
\* https://www.rfc-editor.org/rfc/rfc6486.txt
EXTENDS Asn1Notation

rfc6486_Imports == <<"rfc5652">>

rfc6486_StarImports == <<>>

rfc6486_Types == [
  FileAndHash |-> SEQUENCE(<<
    REQ("file", IA5String),
    REQ("hash", BIT_STRING)>>),
  Manifest |-> SEQUENCE(<<
    DFLT("version", EXPL(CTX, 0, INTEGER), VI(0)),
    REQ("manifestNumber", CON(INTEGER, RANGE(I(0), NOBOUND))),
    REQ("thisUpdate", GeneralizedTime),
    REQ("nextUpdate", GeneralizedTime),
    REQ("fileHashAlg", OBJECT_IDENTIFIER),
    REQ("fileList", CON(SEQUENCE_OF(R("rfc6486", "FileAndHash")), SIZE(0, MAXSIZE)))>>)]

rfc6486_Values == [
  id_smime |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16>>)),
  id_ct |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1>>)),
  id_ct_rpkiManifest |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 26>>))]

\* open type tables this module exports, with the table each one is
rfc6486_Tables == <<>>

\* what importing this module adds to the tables
rfc6486_Entries == <<
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 26>>), R("rfc6486", "Manifest"))>>
=================================================================
