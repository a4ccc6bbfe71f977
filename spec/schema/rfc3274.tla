------------------------ MODULE rfc3274 ------------------------
\* https://www.rfc-editor.org/rfc/rfc3274.txt
EXTENDS Asn1Notation

rfc3274_Imports == <<"rfc5280", "rfc5652">>

rfc3274_StarImports == <<>>

rfc3274_Types == [
  CompressionAlgorithmIdentifier |-> R("rfc5280", "AlgorithmIdentifier"),
  CompressedData |-> SEQUENCE(<<
    REQ("version", R("rfc5652", "CMSVersion")),
    REQ("compressionAlgorithm", R("rfc3274", "CompressionAlgorithmIdentifier")),
    REQ("encapContentInfo", R("rfc5652", "EncapsulatedContentInfo"))>>)]

rfc3274_Values == [
  id_ct_compressedData |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 9>>)),
  id_alg_zlibCompress |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 8>>)),
  cpa_zlibCompress |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 8>>))>>))]

\* open type tables this module exports, with the table each one is
rfc3274_Tables == <<>>

\* what importing this module adds to the tables
rfc3274_Entries == <<
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 9>>), R("rfc3274", "CompressedData"))>>
=================================================================
