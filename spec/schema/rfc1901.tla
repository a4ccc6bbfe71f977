------------------------ MODULE rfc1901 ------------------------
\* http://www.ietf.org/rfc/rfc1901.txt
EXTENDS Asn1Notation

rfc1901_Imports == <<>>

rfc1901_StarImports == <<>>

rfc1901_Types == [
  Message |-> SEQUENCE(<<
    REQ("version", NAMED(INTEGER, <<NV("version-2c", 1)>>)),
    REQ("community", OCTET_STRING),
    REQ("data", ANY_T)>>)]

rfc1901_Values == [
  NoValues__ |-> CONST(NULL_T, VNULL)]

\* open type tables this module exports, with the table each one is
rfc1901_Tables == <<>>

\* what importing this module adds to the tables
rfc1901_Entries == <<
>>
=================================================================
