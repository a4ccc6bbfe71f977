------------------------ MODULE rfc5940 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5940.txt
EXTENDS Asn1Notation

rfc5940_Imports == <<"rfc2560", "rfc5652">>

rfc5940_StarImports == <<>>

rfc5940_Types == [
  OCSPResponse |-> R("rfc2560", "OCSPResponse"),
  ContentInfo |-> R("rfc5652", "ContentInfo"),
  SCVPReqRes |-> SEQUENCE(<<
    OPT("request", EXPL(CTX, 0, R("rfc5652", "ContentInfo"))),
    REQ("response", R("rfc5652", "ContentInfo"))>>)]

rfc5940_Values == [
  id_ri_ocsp_response |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 16, 2>>)),
  id_ri_scvp |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 16, 4>>))]

\* open type tables this module exports, with the table each one is
rfc5940_Tables == <<>>

\* what importing this module adds to the tables
rfc5940_Entries == <<
  ENTRY("rfc5652", "otherRevInfoFormatMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 16, 2>>), R("rfc2560", "OCSPResponse")),
  ENTRY("rfc5652", "otherRevInfoFormatMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 16, 4>>), R("rfc5940", "SCVPReqRes"))>>
=================================================================
