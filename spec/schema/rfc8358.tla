------------------------ MODULE rfc8358 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8358.txt
EXTENDS Asn1Notation

rfc8358_Imports == <<"rfc5652">>

rfc8358_StarImports == <<>>

rfc8358_Types == [
  NoTypes__ |-> NULL_T]

rfc8358_Values == [
  id_ct |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1>>)),
  id_ct_asciiTextWithCRLF |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 27>>)),
  id_ct_epub |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 39>>)),
  id_ct_htmlWithCRLF |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 38>>)),
  id_ct_pdf |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 29>>)),
  id_ct_postscript |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 30>>)),
  id_ct_utf8TextWithCRLF |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 37>>)),
  id_ct_xml |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 28>>))]

\* open type tables this module exports, with the table each one is
rfc8358_Tables == <<>>

\* what importing this module adds to the tables
rfc8358_Entries == <<
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 27>>), OCTET_STRING),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 39>>), OCTET_STRING),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 38>>), OCTET_STRING),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 29>>), OCTET_STRING),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 30>>), OCTET_STRING),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 37>>), OCTET_STRING),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 28>>), OCTET_STRING)>>
=================================================================
