------------------------ MODULE rfc3447 ------------------------
\* ftp://ftp.rsasecurity.com/pub/pkcs/pkcs-1/pkcs-1v2-1.asn
EXTENDS Asn1Notation

rfc3447_Imports == <<"rfc2437">>

rfc3447_StarImports == <<"rfc2437">>

rfc3447_Types == [
  RSAPrivateKey |-> SEQUENCE(<<
    REQ("version", NAMED(INTEGER, <<NV("two-prime", 0), NV("multi", 1)>>)),
    REQ("modulus", INTEGER),
    REQ("publicExponent", INTEGER),
    REQ("privateExponent", INTEGER),
    REQ("prime1", INTEGER),
    REQ("prime2", INTEGER),
    REQ("exponent1", INTEGER),
    REQ("exponent2", INTEGER),
    REQ("coefficient", INTEGER),
    OPT("otherPrimeInfos", R("rfc3447", "OtherPrimeInfos"))>>),
  OtherPrimeInfo |-> SEQUENCE(<<
    REQ("prime", INTEGER),
    REQ("exponent", INTEGER),
    REQ("coefficient", INTEGER)>>),
  OtherPrimeInfos |-> CON(SEQUENCE_OF(R("rfc3447", "OtherPrimeInfo")), SIZE(1, MAXSIZE))]

rfc3447_Values == [
  NoValues__ |-> CONST(NULL_T, VNULL)]

\* open type tables this module exports, with the table each one is
rfc3447_Tables == <<>>

\* what importing this module adds to the tables
rfc3447_Entries == <<
>>
=================================================================
