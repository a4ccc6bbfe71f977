------------------------ MODULE rfc7030 ------------------------
\* https://www.rfc-editor.org/rfc/rfc7030.txt
EXTENDS Asn1Notation

rfc7030_Imports == <<"rfc5652">>

rfc7030_StarImports == <<>>

rfc7030_Types == [
  Attribute |-> R("rfc5652", "Attribute"),
  AsymmetricDecryptKeyIdentifier |-> OCTET_STRING,
  AttrOrOID |-> CHOICE(<<
    REQ("oid", OBJECT_IDENTIFIER),
    REQ("attribute", R("rfc5652", "Attribute"))>>),
  CsrAttrs |-> CON(SEQUENCE_OF(R("rfc7030", "AttrOrOID")), SIZE(0, MAXSIZE))]

rfc7030_Values == [
  id_aa_asymmDecryptKeyID |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 54>>)),
  aa_asymmDecryptKeyID |-> CONST(R("rfc5652", "Attribute"), VSEQ(<<FV("attrType", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 54>>))>>))]

\* open type tables this module exports, with the table each one is
rfc7030_Tables == <<>>

\* what importing this module adds to the tables
rfc7030_Entries == <<
  ENTRY("rfc5652", "cmsAttributesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 2, 54>>), R("rfc7030", "AsymmetricDecryptKeyIdentifier"))>>
=================================================================
