------------------------ MODULE rfc4073 ------------------------
\* https://www.rfc-editor.org/rfc/rfc4073.txt
EXTENDS Asn1Notation

rfc4073_Imports == <<"rfc5652">>

rfc4073_StarImports == <<>>

rfc4073_Types == [
  ContentCollection |-> CON(SEQUENCE_OF(R("rfc5652", "ContentInfo")), SIZE(1, MAXSIZE)),
  ContentWithAttributes |-> SEQUENCE(<<
    REQ("content", R("rfc5652", "ContentInfo")),
    REQ("attrs", CON(SEQUENCE_OF(R("rfc5652", "Attribute")), SIZE(1, MAXSIZE)))>>)]

rfc4073_Values == [
  id_ct_contentCollection |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 19>>)),
  id_ct_contentWithAttrs |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 20>>))]

\* open type tables this module exports, with the table each one is
rfc4073_Tables == <<>>

\* what importing this module adds to the tables
rfc4073_Entries == <<
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 19>>), R("rfc4073", "ContentCollection")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 20>>), R("rfc4073", "ContentWithAttributes"))>>
=================================================================
