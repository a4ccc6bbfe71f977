------------------------ MODULE rfc6955 ------------------------
\* https://www.rfc-editor.org/rfc/rfc6955.txt
EXTENDS Asn1Notation

rfc6955_Imports == <<"rfc3279", "rfc5280", "rfc5652">>

rfc6955_StarImports == <<>>

rfc6955_Types == [
  MessageDigest |-> R("rfc5652", "MessageDigest"),
  IssuerAndSerialNumber |-> R("rfc5652", "IssuerAndSerialNumber"),
  Dss_Sig_Value |-> R("rfc3279", "Dss_Sig_Value"),
  DomainParameters |-> R("rfc3279", "DomainParameters"),
  DhSigStatic |-> SEQUENCE(<<
    OPT("issuerAndSerial", R("rfc5652", "IssuerAndSerialNumber")),
    REQ("hashValue", R("rfc5652", "MessageDigest"))>>)]

rfc6955_Values == [
  id_pkix |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7>>)),
  id_dh_sig_hmac_sha1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 3>>)),
  id_dhPop_static_sha1_hmac_sha1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 3>>)),
  id_alg_dh_pop |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 4>>)),
  id_alg_dhPop_sha1 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 4>>)),
  id_alg_dhPop_sha224 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 5>>)),
  id_alg_dhPop_sha256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 6>>)),
  id_alg_dhPop_sha384 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 7>>)),
  id_alg_dhPop_sha512 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 8>>)),
  id_alg_dhPop_static_sha224_hmac_sha224 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 15>>)),
  id_alg_dhPop_static_sha256_hmac_sha256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 16>>)),
  id_alg_dhPop_static_sha384_hmac_sha384 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 17>>)),
  id_alg_dhPop_static_sha512_hmac_sha512 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 18>>)),
  id_alg_ecdhPop_static_sha224_hmac_sha224 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 25>>)),
  id_alg_ecdhPop_static_sha256_hmac_sha256 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 26>>)),
  id_alg_ecdhPop_static_sha384_hmac_sha384 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 27>>)),
  id_alg_ecdhPop_static_sha512_hmac_sha512 |-> CONST(OBJECT_IDENTIFIER, VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 28>>))]

\* open type tables this module exports, with the table each one is
rfc6955_Tables == <<>>

\* what importing this module adds to the tables
rfc6955_Entries == <<
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 4>>), R("rfc3279", "DomainParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 5>>), R("rfc3279", "DomainParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 6>>), R("rfc3279", "DomainParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 7>>), R("rfc3279", "DomainParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 8>>), R("rfc3279", "DomainParameters")),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 3>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 15>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 16>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 17>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 18>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 25>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 26>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 27>>), NULL_T),
  ENTRY("rfc5280", "algorithmIdentifierMap", VOID(<<1, 3, 6, 1, 5, 5, 7, 6, 28>>), NULL_T)>>
=================================================================
