------------------------ MODULE rfc7296 ------------------------
\* https://www.rfc-editor.org/rfc/rfc7296.txt
EXTENDS Asn1Notation

rfc7296_Imports == <<"rfc5280">>

rfc7296_StarImports == <<>>

rfc7296_Types == [
  CertificateOrCRL |-> CHOICE(<<
    REQ("cert", EXPL(CTX, 0, R("rfc5280", "Certificate"))),
    REQ("crl", EXPL(CTX, 1, R("rfc5280", "CertificateList")))>>),
  CertificateBundle |-> SEQUENCE_OF(R("rfc7296", "CertificateOrCRL"))]

rfc7296_Values == [
  NoValues__ |-> CONST(NULL_T, VNULL)]

\* open type tables this module exports, with the table each one is
rfc7296_Tables == <<>>

\* what importing this module adds to the tables
rfc7296_Entries == <<
>>
=================================================================
