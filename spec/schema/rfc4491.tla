------------------------ MODULE rfc4491 ------------------------
\* https://www.rfc-editor.org/rfc/rfc4491.txt
EXTENDS Asn1Notation

rfc4491_Imports == <<"rfc4357">>

rfc4491_StarImports == <<>>

rfc4491_Types == [
  GostR3410_2001_PublicKey |-> R("rfc4357", "GostR3410_2001_PublicKey"),
  GostR3410_2001_PublicKeyParameters |-> R("rfc4357", "GostR3410_2001_PublicKeyParameters"),
  GostR3410_94_PublicKey |-> R("rfc4357", "GostR3410_94_PublicKey"),
  GostR3410_94_PublicKeyParameters |-> R("rfc4357", "GostR3410_94_PublicKeyParameters")]

rfc4491_Values == [
  id_GostR3411_94_with_GostR3410_94 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 4>>)),
  id_GostR3411_94_with_GostR3410_2001 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 3>>)),
  id_GostR3410_94 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 20>>)),
  id_GostR3410_2001 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 643, 2, 2, 19>>))]

\* open type tables this module exports, with the table each one is
rfc4491_Tables == <<>>

\* what importing this module adds to the tables
rfc4491_Entries == <<
>>
=================================================================
