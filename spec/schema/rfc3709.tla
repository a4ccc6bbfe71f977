------------------------ MODULE rfc3709 ------------------------
\* https://www.rfc-editor.org/rfc/rfc3709.txt
EXTENDS Asn1Notation

rfc3709_Imports == <<"rfc5280", "rfc6170">>

rfc3709_StarImports == <<>>

rfc3709_Types == [
  HashAlgAndValue |-> SEQUENCE(<<
    REQ("hashAlg", R("rfc5280", "AlgorithmIdentifier")),
    REQ("hashValue", OCTET_STRING)>>),
  LogotypeDetails |-> SEQUENCE(<<
    REQ("mediaType", IA5String),
    REQ("logotypeHash", CON(SEQUENCE_OF(R("rfc3709", "HashAlgAndValue")), SIZE(1, MAXSIZE))),
    REQ("logotypeURI", CON(SEQUENCE_OF(IA5String), SIZE(1, MAXSIZE)))>>),
  LogotypeAudioInfo |-> SEQUENCE(<<
    REQ("fileSize", INTEGER),
    REQ("playTime", INTEGER),
    REQ("channels", INTEGER),
    OPT("sampleRate", IMPL(CTX, 3, INTEGER)),
    OPT("language", IMPL(CTX, 4, IA5String))>>),
  LogotypeAudio |-> SEQUENCE(<<
    REQ("audioDetails", R("rfc3709", "LogotypeDetails")),
    OPT("audioInfo", R("rfc3709", "LogotypeAudioInfo"))>>),
  LogotypeImageType |-> NAMED(INTEGER, <<NV("grayScale", 0), NV("color", 1)>>),
  LogotypeImageResolution |-> CHOICE(<<
    REQ("numBits", IMPL(CTX, 1, INTEGER)),
    REQ("tableSize", IMPL(CTX, 2, INTEGER))>>),
  LogotypeImageInfo |-> SEQUENCE(<<
    DFLT("type", IMPL(CTX, 0, R("rfc3709", "LogotypeImageType")), VI(1)),
    REQ("fileSize", INTEGER),
    REQ("xSize", INTEGER),
    REQ("ySize", INTEGER),
    OPT("resolution", R("rfc3709", "LogotypeImageResolution")),
    OPT("language", IMPL(CTX, 4, IA5String))>>),
  LogotypeImage |-> SEQUENCE(<<
    REQ("imageDetails", R("rfc3709", "LogotypeDetails")),
    OPT("imageInfo", R("rfc3709", "LogotypeImageInfo"))>>),
  LogotypeData |-> SEQUENCE(<<
    OPT("image", SEQUENCE_OF(R("rfc3709", "LogotypeImage"))),
    OPT("audio", IMPL(CTX, 1, SEQUENCE_OF(R("rfc3709", "LogotypeAudio"))))>>),
  LogotypeReference |-> SEQUENCE(<<
    REQ("refStructHash", CON(SEQUENCE_OF(R("rfc3709", "HashAlgAndValue")), SIZE(1, MAXSIZE))),
    REQ("refStructURI", CON(SEQUENCE_OF(IA5String), SIZE(1, MAXSIZE)))>>),
  LogotypeInfo |-> CHOICE(<<
    REQ("direct", IMPL(CTX, 0, R("rfc3709", "LogotypeData"))),
    REQ("indirect", IMPL(CTX, 1, R("rfc3709", "LogotypeReference")))>>),
  OtherLogotypeInfo |-> SEQUENCE(<<
    REQ("logotypeType", OBJECT_IDENTIFIER),
    REQ("info", R("rfc3709", "LogotypeInfo"))>>),
  LogotypeExtn |-> SEQUENCE(<<
    OPT("communityLogos", EXPL(CTX, 0, SEQUENCE_OF(R("rfc3709", "LogotypeInfo")))),
    OPT("issuerLogo", EXPL(CTX, 1, R("rfc3709", "LogotypeInfo"))),
    OPT("subjectLogo", EXPL(CTX, 2, R("rfc3709", "LogotypeInfo"))),
    OPT("otherLogos", EXPL(CTX, 3, SEQUENCE_OF(R("rfc3709", "OtherLogotypeInfo"))))>>)]

rfc3709_Values == [
  id_logo_background |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 20, 2>>)),
  id_logo_loyalty |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 20, 1>>)),
  id_logo_certImage |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 20, 3>>)),
  id_pe_logotype |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 12>>))]

\* open type tables this module exports, with the table each one is
rfc3709_Tables == <<>>

\* what importing this module adds to the tables
rfc3709_Entries == <<
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 12>>), R("rfc3709", "LogotypeExtn"))>>
=================================================================
