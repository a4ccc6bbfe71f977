------------------------ MODULE rfc5915 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5915.txt
EXTENDS Asn1Notation

rfc5915_Imports == <<"rfc5480">>

rfc5915_StarImports == <<>>

rfc5915_Types == [
  ECPrivateKey |-> SEQUENCE(<<
    REQ("version", NAMED(INTEGER, <<NV("ecPrivkeyVer1", 1)>>)),
    REQ("privateKey", OCTET_STRING),
    OPT("parameters", EXPL(CTX, 0, R("rfc5480", "ECParameters"))),
    OPT("publicKey", EXPL(CTX, 1, BIT_STRING))>>)]

rfc5915_Values == [
  NoValues__ |-> CONST(NULL_T, VNULL)]

\* open type tables this module exports, with the table each one is
rfc5915_Tables == <<>>

\* what importing this module adds to the tables
rfc5915_Entries == <<
>>
=================================================================
