------------------------ MODULE rfc4334 ------------------------
\* https://www.rfc-editor.org/rfc/rfc4334.txt
EXTENDS Asn1Notation

rfc4334_Imports == <<"rfc5280">>

rfc4334_StarImports == <<>>

rfc4334_Types == [
  SSID |-> CON(OCTET_STRING, SIZE(1, 32)),
  SSIDList |-> CON(SEQUENCE_OF(R("rfc4334", "SSID")), SIZE(1, MAXSIZE))]

rfc4334_Values == [
  id_pe |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1>>)),
  id_kp |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3>>)),
  id_aca |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 10>>)),
  id_kp_eapOverPPP |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 13>>)),
  id_kp_eapOverLAN |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 3, 14>>)),
  id_pe_wlanSSID |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 13>>)),
  id_aca_wlanSSID |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 10, 7>>))]

\* open type tables this module exports, with the table each one is
rfc4334_Tables == <<>>

\* what importing this module adds to the tables
rfc4334_Entries == <<
  ENTRY("rfc5280", "certificateAttributesMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 10, 7>>), R("rfc4334", "SSIDList")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 13>>), R("rfc4334", "SSIDList"))>>
=================================================================
