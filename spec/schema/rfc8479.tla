------------------------ MODULE rfc8479 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8479.txt
EXTENDS Asn1Notation

rfc8479_Imports == <<"rfc5652">>

rfc8479_StarImports == <<>>

rfc8479_Types == [
  ValidationParams |-> SEQUENCE(<<
    REQ("hashAlg", OBJECT_IDENTIFIER),
    REQ("seed", OCTET_STRING)>>)]

rfc8479_Values == [
  id_attr_validation_parameters |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 4, 1, 2312, 18, 8, 1>>)),
  at_validation_parameters |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<1, 3, 6, 1, 4, 1, 2312, 18, 8, 1>>))>>))]

\* open type tables this module exports, with the table each one is
rfc8479_Tables == <<>>

\* what importing this module adds to the tables
rfc8479_Entries == <<
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 3, 6, 1, 4, 1, 2312, 18, 8, 1>>), R("rfc8479", "ValidationParams"))>>
=================================================================
