------------------------ MODULE rfc7894 ------------------------
\* https://www.rfc-editor.org/rfc/rfc7894.txt
EXTENDS Asn1Notation

rfc7894_Imports == <<"rfc5652", "rfc6402", "rfc7191">>

rfc7894_StarImports == <<>>

rfc7894_Types == [
  Attribute |-> R("rfc7191", "SingleAttribute"),
  DirectoryString |-> CHOICE(<<
    REQ("teletexString", CON(TeletexString, SIZE(1, 255))),
    REQ("printableString", CON(PrintableString, SIZE(1, 255))),
    REQ("universalString", CON(UniversalString, SIZE(1, 255))),
    REQ("utf8String", CON(UTF8String, SIZE(1, 255))),
    REQ("bmpString", CON(BMPString, SIZE(1, 255)))>>)]

rfc7894_Values == [
  id_aa_otpChallenge |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 56>>)),
  ub_aa_otpChallenge |-> CONST(INTEGER, VI(255)),
  otpChallenge |-> CONST(R("rfc7191", "SingleAttribute"), VSEQ(<<FV("attrType", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 56>>))>>)),
  id_aa_revocationChallenge |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 57>>)),
  ub_aa_revocationChallenge |-> CONST(INTEGER, VI(255)),
  revocationChallenge |-> CONST(R("rfc7191", "SingleAttribute"), VSEQ(<<FV("attrType", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 57>>))>>)),
  id_aa_estIdentityLinking |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 58>>)),
  ub_aa_est_identity_linking |-> CONST(INTEGER, VI(255)),
  estIdentityLinking |-> CONST(R("rfc7191", "SingleAttribute"), VSEQ(<<FV("attrType", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 58>>))>>))]

\* open type tables this module exports, with the table each one is
rfc7894_Tables == <<>>

\* what importing this module adds to the tables
rfc7894_Entries == <<
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 56>>), R("rfc7894", "DirectoryString")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 57>>), R("rfc7894", "DirectoryString")),
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 58>>), R("rfc7894", "DirectoryString"))>>
=================================================================
