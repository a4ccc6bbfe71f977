------------------------ MODULE rfc6010 ------------------------
\* https://www.rfc-editor.org/rfc/rfc6010.txt
EXTENDS Asn1Notation

rfc6010_Imports == <<"rfc5280">>

rfc6010_StarImports == <<>>

rfc6010_Types == [
  AttributeType |-> R("rfc5280", "AttributeType"),
  AttributeValue |-> R("rfc5280", "AttributeValue"),
  AttrConstraint |-> SEQUENCE(<<
    REQ("attrType", R("rfc5280", "AttributeType")),
    REQ("attrValues", CON(SET_OF(R("rfc5280", "AttributeValue")), SIZE(1, MAXSIZE)))>>),
  AttrConstraintList |-> CON(SEQUENCE_OF(R("rfc6010", "AttrConstraint")), SIZE(1, MAXSIZE)),
  ContentTypeGeneration |-> NAMED(ENUMERATED, <<NV("canSource", 0), NV("cannotSource", 1)>>),
  ContentTypeConstraint |-> SEQUENCE(<<
    REQ("contentType", OBJECT_IDENTIFIER),
    DFLT("canSource", R("rfc6010", "ContentTypeGeneration"), VI(0)),
    OPT("attrConstraints", R("rfc6010", "AttrConstraintList"))>>),
  CMSContentConstraints |-> CON(SEQUENCE_OF(R("rfc6010", "ContentTypeConstraint")), SIZE(1, MAXSIZE))]

rfc6010_Values == [
  id_ct_anyContentType |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 0>>)),
  id_pe_cmsContentConstraints |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 18>>))]

\* open type tables this module exports, with the table each one is
rfc6010_Tables == <<>>

\* what importing this module adds to the tables
rfc6010_Entries == <<
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 18>>), R("rfc6010", "CMSContentConstraints"))>>
=================================================================
