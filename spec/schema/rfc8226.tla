------------------------ MODULE rfc8226 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8226.txt (with errata corrected)
EXTENDS Asn1Notation

rfc8226_Imports == <<"rfc5280">>

rfc8226_StarImports == <<>>

rfc8226_Types == [
  JWTClaimName |-> IA5String,
  JWTClaimNames |-> CON(SEQUENCE_OF(R("rfc8226", "JWTClaimName")), SIZE(1, MAXSIZE)),
  JWTClaimPermittedValues |-> SEQUENCE(<<
    REQ("claim", R("rfc8226", "JWTClaimName")),
    REQ("permitted", CON(SEQUENCE_OF(UTF8String), SIZE(1, MAXSIZE)))>>),
  JWTClaimPermittedValuesList |-> CON(SEQUENCE_OF(R("rfc8226", "JWTClaimPermittedValues")), SIZE(1, MAXSIZE)),
  JWTClaimConstraints |-> CON(SEQUENCE(<<
    OPT("mustInclude", EXPL(CTX, 0, R("rfc8226", "JWTClaimNames"))),
    OPT("permittedValues", EXPL(CTX, 1, R("rfc8226", "JWTClaimPermittedValuesList")))>>), EITHER(<<WITHCOMP(<<<<"mustInclude", TRUE>>>>), WITHCOMP(<<<<"permittedValues", TRUE>>>>)>>)),
  ServiceProviderCode |-> IA5String,
  TelephoneNumber |-> CON(CON(IA5String, SIZE(1, 15)), ALPHABET(<<35, 42, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57>>)),
  TelephoneNumberRange |-> SEQUENCE(<<
    REQ("start", R("rfc8226", "TelephoneNumber")),
    REQ("count", CON(INTEGER, RANGE(I(2), NOBOUND)))>>),
  TNEntry |-> CHOICE(<<
    REQ("spc", EXPL(CTX, 0, R("rfc8226", "ServiceProviderCode"))),
    REQ("range", EXPL(CTX, 1, R("rfc8226", "TelephoneNumberRange"))),
    REQ("one", EXPL(CTX, 2, R("rfc8226", "TelephoneNumber")))>>),
  TNAuthorizationList |-> CON(SEQUENCE_OF(R("rfc8226", "TNEntry")), SIZE(1, MAXSIZE))]

rfc8226_Values == [
  id_pe_JWTClaimConstraints |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 27>>)),
  id_pe_TNAuthList |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 26>>)),
  id_ad_stirTNList |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 48, 14>>))]

\* open type tables this module exports, with the table each one is
rfc8226_Tables == <<>>

\* what importing this module adds to the tables
rfc8226_Entries == <<
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 26>>), R("rfc8226", "TNAuthorizationList")),
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 27>>), R("rfc8226", "JWTClaimConstraints"))>>
=================================================================
