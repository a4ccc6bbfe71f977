------------------------ MODULE rfc8494 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8494.txt
EXTENDS Asn1Notation

rfc8494_Imports == <<>>

rfc8494_StarImports == <<>>

rfc8494_Types == [
  AlgorithmID_ShortForm |-> NAMED(INTEGER, <<NV("zlibCompress", 0)>>),
  ContentType_ShortForm |-> NAMED(INTEGER, <<NV("unidentified", 0), NV("external", 1), NV("p1", 2), NV("p3", 3), NV("p7", 4), NV("mule", 25)>>),
  CompressedContentInfo |-> SEQUENCE(<<
    REQ("unnamed", CHOICE(<<
        REQ("contentType-ShortForm", EXPL(CTX, 0, R("rfc8494", "ContentType_ShortForm"))),
        REQ("contentType-OID", EXPL(CTX, 1, OBJECT_IDENTIFIER))>>)),
    REQ("compressedContent", EXPL(CTX, 0, OCTET_STRING))>>),
  CompressionAlgorithmIdentifier |-> CHOICE(<<
    REQ("algorithmID-ShortForm", EXPL(CTX, 0, R("rfc8494", "AlgorithmID_ShortForm"))),
    REQ("algorithmID-OID", EXPL(CTX, 1, OBJECT_IDENTIFIER))>>),
  CompressedData |-> SEQUENCE(<<
    REQ("compressionAlgorithm", R("rfc8494", "CompressionAlgorithmIdentifier")),
    REQ("compressedContentInfo", R("rfc8494", "CompressedContentInfo"))>>)]

rfc8494_Values == [
  id_mmhs_CDT |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 26, 0, 4406, 0, 4, 2>>))]

\* open type tables this module exports, with the table each one is
rfc8494_Tables == <<>>

\* what importing this module adds to the tables
rfc8494_Entries == <<
>>
=================================================================
