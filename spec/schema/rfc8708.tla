------------------------ MODULE rfc8708 ------------------------
\* https://www.rfc-editor.org/rfc/rfc8708.txt
EXTENDS Asn1Notation

rfc8708_Imports == <<"rfc5280">>

rfc8708_StarImports == <<>>

rfc8708_Types == [
  HSS_LMS_HashSig_PublicKey |-> OCTET_STRING]

rfc8708_Values == [
  id_alg_hss_lms_hashsig |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 17>>)),
  id_alg_mts_hashsig |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 17>>)),
  sa_HSS_LMS_HashSig |-> CONST(R("rfc5280", "AlgorithmIdentifier"), VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 17>>))>>)),
  pk_HSS_LMS_HashSig |-> CONST(R("rfc5280", "SubjectPublicKeyInfo"), VSEQ(<<FV("algorithm", VSEQ(<<FV("algorithm", VOID(<<1, 2, 840, 113549, 1, 9, 16, 3, 17>>))>>))>>))]

\* open type tables this module exports, with the table each one is
rfc8708_Tables == <<>>

\* what importing this module adds to the tables
rfc8708_Entries == <<
>>
=================================================================
