------------------------ MODULE rfc8398 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8398.txt
\* https://www.rfc-editor.org/errata/eid5418
EXTENDS Asn1Notation

rfc8398_Imports == <<"rfc5280">>

rfc8398_StarImports == <<>>

rfc8398_Types == [
  SmtpUTF8Mailbox |-> CON(UTF8String, SIZE(1, MAXSIZE))]

rfc8398_Values == [
  id_pkix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7>>)),
  id_on |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 8>>)),
  id_on_SmtpUTF8Mailbox |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 8, 9>>)),
  on_SmtpUTF8Mailbox |-> CONST(R("rfc5280", "AnotherName"), VSEQ(<<FV("type-id", VOID(<<1, 3, 6, 1, 5, 5, 7, 8, 9>>))>>))]

\* open type tables this module exports, with the table each one is
rfc8398_Tables == <<>>

\* what importing this module adds to the tables
rfc8398_Entries == <<
  ENTRY("rfc5280", "anotherNameMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 8, 9>>), R("rfc8398", "SmtpUTF8Mailbox"))>>
=================================================================
