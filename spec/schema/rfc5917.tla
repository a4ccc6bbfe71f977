------------------------ MODULE rfc5917 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5917.txt
\* https://www.rfc-editor.org/errata/eid4558
\* https://www.rfc-editor.org/errata/eid5883
EXTENDS Asn1Notation

rfc5917_Imports == <<"rfc5280">>

rfc5917_StarImports == <<>>

rfc5917_Types == [
  DirectoryString |-> CHOICE(<<
    REQ("utf8String", CON(UTF8String, SIZE(1, 64)))>>)]

rfc5917_Values == [
  id_clearanceSponsor |-> CONST(OBJECT_IDENTIFIER, VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 68>>)),
  ub_clearance_sponsor |-> CONST(INTEGER, VI(64)),
  at_clearanceSponsor |-> CONST(R("rfc5280", "Attribute"), VSEQ(<<FV("type", VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 68>>))>>))]

\* open type tables this module exports, with the table each one is
rfc5917_Tables == <<>>

\* what importing this module adds to the tables
rfc5917_Entries == <<
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<2, 16, 840, 1, 101, 2, 1, 5, 68>>), R("rfc5917", "DirectoryString"))>>
=================================================================
