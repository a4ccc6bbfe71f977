------------------------ MODULE rfc7773 ------------------------
\* https://www.rfc-editor.org/rfc/rfc7773.txt
EXTENDS Asn1Notation

rfc7773_Imports == <<"rfc5280">>

rfc7773_StarImports == <<>>

rfc7773_Types == [
  AuthenticationContext |-> SEQUENCE(<<
    REQ("contextType", UTF8String),
    OPT("contextInfo", UTF8String)>>),
  AuthenticationContexts |-> CON(SEQUENCE_OF(R("rfc7773", "AuthenticationContext")), SIZE(1, MAXSIZE))]

rfc7773_Values == [
  e_legnamnden |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 752, 201>>)),
  id_eleg_ce |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 752, 201, 5>>)),
  id_ce_authContext |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 752, 201, 5, 1>>))]

\* open type tables this module exports, with the table each one is
rfc7773_Tables == <<>>

\* what importing this module adds to the tables
rfc7773_Entries == <<
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 2, 752, 201, 5, 1>>), R("rfc7773", "AuthenticationContexts"))>>
=================================================================
