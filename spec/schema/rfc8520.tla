------------------------ MODULE rfc8520 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8520.txt
EXTENDS Asn1Notation

rfc8520_Imports == <<"rfc5280", "rfc5652">>

rfc8520_StarImports == <<>>

rfc8520_Types == [
  MUDURLSyntax |-> IA5String,
  MUDsignerSyntax |-> R("rfc5280", "Name")]

rfc8520_Values == [
  id_pe_mud_url |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 25>>)),
  id_pe_mudsigner |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 30>>)),
  id_ct_mudtype |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 41>>))]

\* open type tables this module exports, with the table each one is
rfc8520_Tables == <<>>

\* what importing this module adds to the tables
rfc8520_Entries == <<
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 25>>), R("rfc8520", "MUDURLSyntax")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 30>>), R("rfc8520", "MUDsignerSyntax")),
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 41>>), OCTET_STRING)>>
=================================================================
