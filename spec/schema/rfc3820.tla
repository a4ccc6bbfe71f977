------------------------ MODULE rfc3820 ------------------------
\* https://www.rfc-editor.org/rfc/rfc3820.txt
EXTENDS Asn1Notation

rfc3820_Imports == <<"rfc5280">>

rfc3820_StarImports == <<>>

rfc3820_Types == [
  ProxyCertPathLengthConstraint |-> INTEGER,
  ProxyPolicy |-> SEQUENCE(<<
    REQ("policyLanguage", OBJECT_IDENTIFIER),
    OPT("policy", OCTET_STRING)>>),
  ProxyCertInfoExtension |-> SEQUENCE(<<
    OPT("pCPathLenConstraint", R("rfc3820", "ProxyCertPathLengthConstraint")),
    REQ("proxyPolicy", R("rfc3820", "ProxyPolicy"))>>)]

rfc3820_Values == [
  id_pkix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7>>)),
  id_pe |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1>>)),
  id_pe_proxyCertInfo |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 14>>)),
  id_ppl |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 21>>)),
  id_ppl_anyLanguage |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 21, 0>>)),
  id_ppl_inheritAll |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 21, 1>>)),
  id_ppl_independent |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 21, 2>>))]

\* open type tables this module exports, with the table each one is
rfc3820_Tables == <<>>

\* what importing this module adds to the tables
rfc3820_Entries == <<
  ENTRY("rfc5280", "certificateExtensionsMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 1, 14>>), R("rfc3820", "ProxyCertInfoExtension"))>>
=================================================================
