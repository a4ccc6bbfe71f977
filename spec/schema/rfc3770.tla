------------------------ MODULE rfc3770 ------------------------
\* https://www.rfc-editor.org/rfc/rfc3770.txt
\* https://www.rfc-editor.org/errata/eid234
EXTENDS Asn1Notation

rfc3770_Imports == <<"rfc5280">>

rfc3770_StarImports == <<>>

rfc3770_Types == [
  SSID |-> CON(OCTET_STRING, SIZE(1, 32)),
  SSIDList |-> CON(SEQUENCE_OF(R("rfc3770", "SSID")), SIZE(1, MAXSIZE))]

rfc3770_Values == [
  id_kp_eapOverLAN |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 14>>)),
  id_kp_eapOverPPP |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 13>>)),
  id_pe_wlanSSID |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 13>>)),
  id_aca_wlanSSID |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 10, 7>>))]

\* open type tables this module exports, with the table each one is
rfc3770_Tables == <<>>

\* what importing this module adds to the tables
rfc3770_Entries == <<
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 10, 7>>), R("rfc3770", "SSIDList")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 13>>), R("rfc3770", "SSIDList"))>>
=================================================================
