------------------------ MODULE rfc6482 ------------------------
\* https://www.rfc-editor.org/rfc/rfc6482.txt
\* https://www.rfc-editor.org/errata/eid5881
EXTENDS Asn1Notation

rfc6482_Imports == <<"rfc5652">>

rfc6482_StarImports == <<>>

rfc6482_Types == [
  ASID |-> INTEGER,
  IPAddress |-> BIT_STRING,
  ROAIPAddress |-> SEQUENCE(<<
    REQ("address", R("rfc6482", "IPAddress")),
    OPT("maxLength", INTEGER)>>),
  ROAIPAddressFamily |-> SEQUENCE(<<
    REQ("addressFamily", CON(OCTET_STRING, SIZE(2, 3))),
    REQ("addresses", CON(SEQUENCE_OF(R("rfc6482", "ROAIPAddress")), SIZE(1, MAXSIZE)))>>),
  RouteOriginAttestation |-> SEQUENCE(<<
    DFLT("version", EXPL(CTX, 0, INTEGER), VI(0)),
    REQ("asID", R("rfc6482", "ASID")),
    REQ("ipAddrBlocks", CON(SEQUENCE_OF(R("rfc6482", "ROAIPAddressFamily")), SIZE(1, MAXSIZE)))>>)]

rfc6482_Values == [
  id_ct_routeOriginAuthz |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 24>>))]

\* open type tables this module exports, with the table each one is
rfc6482_Tables == <<>>

\* what importing this module adds to the tables
rfc6482_Entries == <<
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 24>>), R("rfc6482", "RouteOriginAttestation"))>>
=================================================================
