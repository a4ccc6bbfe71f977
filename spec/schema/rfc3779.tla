------------------------ MODULE rfc3779 ------------------------
\* https://www.rfc-editor.org/rfc/rfc3779.txt
EXTENDS Asn1Notation

rfc3779_Imports == <<"rfc5280">>

rfc3779_StarImports == <<>>

rfc3779_Types == [
  IPAddress |-> BIT_STRING,
  IPAddressRange |-> SEQUENCE(<<
    REQ("min", R("rfc3779", "IPAddress")),
    REQ("max", R("rfc3779", "IPAddress"))>>),
  IPAddressOrRange |-> CHOICE(<<
    REQ("addressPrefix", R("rfc3779", "IPAddress")),
    REQ("addressRange", R("rfc3779", "IPAddressRange"))>>),
  IPAddressChoice |-> CHOICE(<<
    REQ("inherit", NULL_T),
    REQ("addressesOrRanges", SEQUENCE_OF(R("rfc3779", "IPAddressOrRange")))>>),
  IPAddressFamily |-> SEQUENCE(<<
    REQ("addressFamily", CON(OCTET_STRING, SIZE(2, 3))),
    REQ("ipAddressChoice", R("rfc3779", "IPAddressChoice"))>>),
  IPAddrBlocks |-> SEQUENCE_OF(R("rfc3779", "IPAddressFamily")),
  ASId |-> INTEGER,
  ASRange |-> SEQUENCE(<<
    REQ("min", R("rfc3779", "ASId")),
    REQ("max", R("rfc3779", "ASId"))>>),
  ASIdOrRange |-> CHOICE(<<
    REQ("id", R("rfc3779", "ASId")),
    REQ("range", R("rfc3779", "ASRange"))>>),
  ASIdentifierChoice |-> CHOICE(<<
    REQ("inherit", NULL_T),
    REQ("asIdsOrRanges", SEQUENCE_OF(R("rfc3779", "ASIdOrRange")))>>),
  ASIdentifiers |-> SEQUENCE(<<
    OPT("asnum", EXPL(CTX, 0, R("rfc3779", "ASIdentifierChoice"))),
    OPT("rdi", EXPL(CTX, 1, R("rfc3779", "ASIdentifierChoice")))>>)]

rfc3779_Values == [
  id_pe_ipAddrBlocks |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 7>>)),
  id_pe_autonomousSysIds |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 8>>))]

\* open type tables this module exports, with the table each one is
rfc3779_Tables == <<>>

\* what importing this module adds to the tables
rfc3779_Entries == <<
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 7>>), R("rfc3779", "IPAddrBlocks")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 8>>), R("rfc3779", "ASIdentifiers"))>>
=================================================================
