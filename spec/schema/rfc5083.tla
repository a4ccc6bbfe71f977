------------------------ MODULE rfc5083 ------------------------
\* https://www.rfc-editor.org/rfc/rfc5083.txt
EXTENDS Asn1Notation

rfc5083_Imports == <<"rfc5652">>

rfc5083_StarImports == <<>>

rfc5083_Types == [
  AuthEnvelopedData |-> SEQUENCE(<<
    REQ("version", R("rfc5652", "CMSVersion")),
    OPT("originatorInfo", IMPL(CTX, 0, R("rfc5652", "OriginatorInfo"))),
    REQ("recipientInfos", R("rfc5652", "RecipientInfos")),
    REQ("authEncryptedContentInfo", R("rfc5652", "EncryptedContentInfo")),
    OPT("authAttrs", IMPL(CTX, 1, R("rfc5652", "AuthAttributes"))),
    REQ("mac", R("rfc5652", "MessageAuthenticationCode")),
    OPT("unauthAttrs", IMPL(CTX, 2, R("rfc5652", "UnauthAttributes")))>>)]

rfc5083_Values == [
  id_ct_authEnvelopedData |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 23>>))]

\* open type tables this module exports, with the table each one is
rfc5083_Tables == <<>>

\* what importing this module adds to the tables
rfc5083_Entries == <<
  ENTRY("rfc5652", "cmsContentTypesMap", VOID(<<1, 2, 840, 113549, 1, 9, 16, 1, 23>>), R("rfc5083", "AuthEnvelopedData"))>>
=================================================================
