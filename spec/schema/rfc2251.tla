------------------------ MODULE rfc2251 ------------------------
\* http://www.trl.ibm.com/projects/xml/xss4j/data/asn1/grammars/ldap.asn
\* http://wiki.wireshark.org/SampleCaptures/
EXTENDS Asn1Notation

rfc2251_Imports == <<>>

rfc2251_StarImports == <<>>

rfc2251_Types == [
  LDAPString |-> OCTET_STRING,
  LDAPOID |-> OCTET_STRING,
  LDAPDN |-> R("rfc2251", "LDAPString"),
  RelativeLDAPDN |-> R("rfc2251", "LDAPString"),
  AttributeType |-> R("rfc2251", "LDAPString"),
  AttributeDescription |-> R("rfc2251", "LDAPString"),
  AttributeDescriptionList |-> SEQUENCE_OF(R("rfc2251", "AttributeDescription")),
  AttributeValue |-> OCTET_STRING,
  AssertionValue |-> OCTET_STRING,
  AttributeValueAssertion |-> SEQUENCE(<<
    REQ("attributeDesc", R("rfc2251", "AttributeDescription")),
    REQ("assertionValue", R("rfc2251", "AssertionValue"))>>),
  Attribute |-> SEQUENCE(<<
    REQ("type", R("rfc2251", "AttributeDescription")),
    REQ("vals", SET_OF(R("rfc2251", "AttributeValue")))>>),
  MatchingRuleId |-> R("rfc2251", "LDAPString"),
  Control |-> SEQUENCE(<<
    REQ("controlType", R("rfc2251", "LDAPOID")),
    DFLT("criticality", BOOLEAN_T, VB(FALSE)),
    OPT("controlValue", OCTET_STRING)>>),
  Controls |-> SEQUENCE_OF(R("rfc2251", "Control")),
  LDAPURL |-> R("rfc2251", "LDAPString"),
  Referral |-> SEQUENCE_OF(R("rfc2251", "LDAPURL")),
  SaslCredentials |-> SEQUENCE(<<
    REQ("mechanism", R("rfc2251", "LDAPString")),
    OPT("credentials", OCTET_STRING)>>),
  AuthenticationChoice |-> CHOICE(<<
    REQ("simple", IMPL(CTX, 0, OCTET_STRING)),
    REQ("reserved-1", IMPL(CTX, 1, OCTET_STRING)),
    REQ("reserved-2", IMPL(CTX, 2, OCTET_STRING)),
    REQ("sasl", IMPL(CTX, 3, R("rfc2251", "SaslCredentials")))>>),
  BindRequest |-> IMPL(APP, 0, SEQUENCE(<<
    REQ("version", CON(INTEGER, RANGE(I(1), I(127)))),
    REQ("name", R("rfc2251", "LDAPDN")),
    REQ("authentication", R("rfc2251", "AuthenticationChoice"))>>)),
  PartialAttributeList |-> SEQUENCE_OF(SEQUENCE(<<
      REQ("type", R("rfc2251", "AttributeDescription")),
      REQ("vals", SET_OF(R("rfc2251", "AttributeValue")))>>)),
  SearchResultEntry |-> IMPL(APP, 4, SEQUENCE(<<
    REQ("objectName", R("rfc2251", "LDAPDN")),
    REQ("attributes", R("rfc2251", "PartialAttributeList"))>>)),
  MatchingRuleAssertion |-> SEQUENCE(<<
    OPT("matchingRule", IMPL(CTX, 1, R("rfc2251", "MatchingRuleId"))),
    OPT("type", IMPL(CTX, 2, R("rfc2251", "AttributeDescription"))),
    REQ("matchValue", IMPL(CTX, 3, R("rfc2251", "AssertionValue"))),
    DFLT("dnAttributes", IMPL(CTX, 4, BOOLEAN_T), VB(FALSE))>>),
  SubstringFilter |-> SEQUENCE(<<
    REQ("type", R("rfc2251", "AttributeDescription")),
    REQ("substrings", SEQUENCE_OF(CHOICE(<<
          REQ("initial", IMPL(CTX, 0, R("rfc2251", "LDAPString"))),
          REQ("any", IMPL(CTX, 1, R("rfc2251", "LDAPString"))),
          REQ("final", IMPL(CTX, 2, R("rfc2251", "LDAPString")))>>)))>>),
  Filter3 |-> CHOICE(<<
    REQ("equalityMatch", IMPL(CTX, 3, R("rfc2251", "AttributeValueAssertion"))),
    REQ("substrings", IMPL(CTX, 4, R("rfc2251", "SubstringFilter"))),
    REQ("greaterOrEqual", IMPL(CTX, 5, R("rfc2251", "AttributeValueAssertion"))),
    REQ("lessOrEqual", IMPL(CTX, 6, R("rfc2251", "AttributeValueAssertion"))),
    REQ("present", IMPL(CTX, 7, R("rfc2251", "AttributeDescription"))),
    REQ("approxMatch", IMPL(CTX, 8, R("rfc2251", "AttributeValueAssertion"))),
    REQ("extensibleMatch", IMPL(CTX, 9, R("rfc2251", "MatchingRuleAssertion")))>>),
  Filter2 |-> CHOICE(<<
    REQ("and", IMPL(CTX, 0, SET_OF(R("rfc2251", "Filter3")))),
    REQ("or", IMPL(CTX, 1, SET_OF(R("rfc2251", "Filter3")))),
    REQ("not", EXPL(CTX, 2, R("rfc2251", "Filter3"))),
    REQ("equalityMatch", IMPL(CTX, 3, R("rfc2251", "AttributeValueAssertion"))),
    REQ("substrings", IMPL(CTX, 4, R("rfc2251", "SubstringFilter"))),
    REQ("greaterOrEqual", IMPL(CTX, 5, R("rfc2251", "AttributeValueAssertion"))),
    REQ("lessOrEqual", IMPL(CTX, 6, R("rfc2251", "AttributeValueAssertion"))),
    REQ("present", IMPL(CTX, 7, R("rfc2251", "AttributeDescription"))),
    REQ("approxMatch", IMPL(CTX, 8, R("rfc2251", "AttributeValueAssertion"))),
    REQ("extensibleMatch", IMPL(CTX, 9, R("rfc2251", "MatchingRuleAssertion")))>>),
  Filter |-> CHOICE(<<
    REQ("and", IMPL(CTX, 0, SET_OF(R("rfc2251", "Filter2")))),
    REQ("or", IMPL(CTX, 1, SET_OF(R("rfc2251", "Filter2")))),
    REQ("not", EXPL(CTX, 2, R("rfc2251", "Filter2"))),
    REQ("equalityMatch", IMPL(CTX, 3, R("rfc2251", "AttributeValueAssertion"))),
    REQ("substrings", IMPL(CTX, 4, R("rfc2251", "SubstringFilter"))),
    REQ("greaterOrEqual", IMPL(CTX, 5, R("rfc2251", "AttributeValueAssertion"))),
    REQ("lessOrEqual", IMPL(CTX, 6, R("rfc2251", "AttributeValueAssertion"))),
    REQ("present", IMPL(CTX, 7, R("rfc2251", "AttributeDescription"))),
    REQ("approxMatch", IMPL(CTX, 8, R("rfc2251", "AttributeValueAssertion"))),
    REQ("extensibleMatch", IMPL(CTX, 9, R("rfc2251", "MatchingRuleAssertion")))>>),
  SearchRequest |-> IMPL(APP, 3, SEQUENCE(<<
    REQ("baseObject", R("rfc2251", "LDAPDN")),
    REQ("scope", NAMED(ENUMERATED, <<NV("baseObject", 0), NV("singleLevel", 1), NV("wholeSubtree", 2)>>)),
    REQ("derefAliases", NAMED(ENUMERATED, <<NV("neverDerefAliases", 0), NV("derefInSearching", 1), NV("derefFindingBaseObj", 2), NV("derefAlways", 3)>>)),
    REQ("sizeLimit", CON(INTEGER, RANGE(I(0), BIG(<<127, 255, 255, 255>>)))),
    REQ("timeLimit", CON(INTEGER, RANGE(I(0), BIG(<<127, 255, 255, 255>>)))),
    REQ("typesOnly", BOOLEAN_T),
    REQ("filter", R("rfc2251", "Filter")),
    REQ("attributes", R("rfc2251", "AttributeDescriptionList"))>>)),
  UnbindRequest |-> IMPL(APP, 2, NULL_T),
  BindResponse |-> IMPL(APP, 1, SEQUENCE(<<
    REQ("resultCode", NAMED(ENUMERATED, <<NV("success", 0), NV("operationsError", 1), NV("protocolError", 2), NV("timeLimitExceeded", 3), NV("sizeLimitExceeded", 4), NV("compareFalse", 5), NV("compareTrue", 6), NV("authMethodNotSupported", 7), NV("strongAuthRequired", 8), NV("reserved-9", 9), NV("referral", 10), NV("adminLimitExceeded", 11), NV("unavailableCriticalExtension", 12), NV("confidentialityRequired", 13), NV("saslBindInProgress", 14), NV("noSuchAttribute", 16), NV("undefinedAttributeType", 17), NV("inappropriateMatching", 18), NV("constraintViolation", 19), NV("attributeOrValueExists", 20), NV("invalidAttributeSyntax", 21), NV("noSuchObject", 32), NV("aliasProblem", 33), NV("invalidDNSyntax", 34), NV("reserved-35", 35), NV("aliasDereferencingProblem", 36), NV("inappropriateAuthentication", 48), NV("invalidCredentials", 49), NV("insufficientAccessRights", 50), NV("busy", 51), NV("unavailable", 52), NV("unwillingToPerform", 53), NV("loopDetect", 54), NV("namingViolation", 64), NV("objectClassViolation", 65), NV("notAllowedOnNonLeaf", 66), NV("notAllowedOnRDN", 67), NV("entryAlreadyExists", 68), NV("objectClassModsProhibited", 69), NV("reserved-70", 70), NV("affectsMultipleDSAs", 71), NV("other", 80), NV("reserved-81", 81), NV("reserved-82", 82), NV("reserved-83", 83), NV("reserved-84", 84), NV("reserved-85", 85), NV("reserved-86", 86), NV("reserved-87", 87), NV("reserved-88", 88), NV("reserved-89", 89), NV("reserved-90", 90)>>)),
    REQ("matchedDN", R("rfc2251", "LDAPDN")),
    REQ("errorMessage", R("rfc2251", "LDAPString")),
    OPT("referral", IMPL(CTX, 3, R("rfc2251", "Referral"))),
    OPT("serverSaslCreds", IMPL(CTX, 7, OCTET_STRING))>>)),
  LDAPResult |-> SEQUENCE(<<
    REQ("resultCode", NAMED(ENUMERATED, <<NV("success", 0), NV("operationsError", 1), NV("protocolError", 2), NV("timeLimitExceeded", 3), NV("sizeLimitExceeded", 4), NV("compareFalse", 5), NV("compareTrue", 6), NV("authMethodNotSupported", 7), NV("strongAuthRequired", 8), NV("reserved-9", 9), NV("referral", 10), NV("adminLimitExceeded", 11), NV("unavailableCriticalExtension", 12), NV("confidentialityRequired", 13), NV("saslBindInProgress", 14), NV("noSuchAttribute", 16), NV("undefinedAttributeType", 17), NV("inappropriateMatching", 18), NV("constraintViolation", 19), NV("attributeOrValueExists", 20), NV("invalidAttributeSyntax", 21), NV("noSuchObject", 32), NV("aliasProblem", 33), NV("invalidDNSyntax", 34), NV("reserved-35", 35), NV("aliasDereferencingProblem", 36), NV("inappropriateAuthentication", 48), NV("invalidCredentials", 49), NV("insufficientAccessRights", 50), NV("busy", 51), NV("unavailable", 52), NV("unwillingToPerform", 53), NV("loopDetect", 54), NV("namingViolation", 64), NV("objectClassViolation", 65), NV("notAllowedOnNonLeaf", 66), NV("notAllowedOnRDN", 67), NV("entryAlreadyExists", 68), NV("objectClassModsProhibited", 69), NV("reserved-70", 70), NV("affectsMultipleDSAs", 71), NV("other", 80), NV("reserved-81", 81), NV("reserved-82", 82), NV("reserved-83", 83), NV("reserved-84", 84), NV("reserved-85", 85), NV("reserved-86", 86), NV("reserved-87", 87), NV("reserved-88", 88), NV("reserved-89", 89), NV("reserved-90", 90)>>)),
    REQ("matchedDN", R("rfc2251", "LDAPDN")),
    REQ("errorMessage", R("rfc2251", "LDAPString")),
    OPT("referral", IMPL(CTX, 3, R("rfc2251", "Referral")))>>),
  SearchResultReference |-> IMPL(APP, 19, SEQUENCE_OF(R("rfc2251", "LDAPURL"))),
  SearchResultDone |-> IMPL(APP, 5, R("rfc2251", "LDAPResult")),
  AttributeTypeAndValues |-> SEQUENCE(<<
    REQ("type", R("rfc2251", "AttributeDescription")),
    REQ("vals", SET_OF(R("rfc2251", "AttributeValue")))>>),
  ModifyRequest |-> IMPL(APP, 6, SEQUENCE(<<
    REQ("object", R("rfc2251", "LDAPDN")),
    REQ("modification", SEQUENCE_OF(SEQUENCE(<<
          REQ("operation", NAMED(ENUMERATED, <<NV("add", 0), NV("delete", 1), NV("replace", 2)>>)),
          REQ("modification", R("rfc2251", "AttributeTypeAndValues"))>>)))>>)),
  ModifyResponse |-> IMPL(APP, 7, R("rfc2251", "LDAPResult")),
  AttributeList |-> SEQUENCE_OF(SEQUENCE(<<
      REQ("type", R("rfc2251", "AttributeDescription")),
      REQ("vals", SET_OF(R("rfc2251", "AttributeValue")))>>)),
  AddRequest |-> IMPL(APP, 8, SEQUENCE(<<
    REQ("entry", R("rfc2251", "LDAPDN")),
    REQ("attributes", R("rfc2251", "AttributeList"))>>)),
  AddResponse |-> IMPL(APP, 9, R("rfc2251", "LDAPResult")),
  DelRequest |-> IMPL(APP, 10, R("rfc2251", "LDAPDN")),
  DelResponse |-> IMPL(APP, 11, R("rfc2251", "LDAPResult")),
  ModifyDNRequest |-> IMPL(APP, 12, SEQUENCE(<<
    REQ("entry", R("rfc2251", "LDAPDN")),
    REQ("newrdn", R("rfc2251", "RelativeLDAPDN")),
    REQ("deleteoldrdn", BOOLEAN_T),
    OPT("newSuperior", IMPL(CTX, 0, R("rfc2251", "LDAPDN")))>>)),
  ModifyDNResponse |-> IMPL(APP, 13, R("rfc2251", "LDAPResult")),
  CompareRequest |-> IMPL(APP, 14, SEQUENCE(<<
    REQ("entry", R("rfc2251", "LDAPDN")),
    REQ("ava", R("rfc2251", "AttributeValueAssertion"))>>)),
  CompareResponse |-> IMPL(APP, 15, R("rfc2251", "LDAPResult")),
  MessageID |-> CON(INTEGER, RANGE(I(0), BIG(<<127, 255, 255, 255>>))),
  AbandonRequest |-> IMPL(APP, 16, R("rfc2251", "MessageID")),
  ExtendedRequest |-> IMPL(APP, 23, SEQUENCE(<<
    REQ("requestName", IMPL(CTX, 0, R("rfc2251", "LDAPOID"))),
    OPT("requestValue", IMPL(CTX, 1, OCTET_STRING))>>)),
  ExtendedResponse |-> IMPL(APP, 24, SEQUENCE(<<
    REQ("resultCode", NAMED(ENUMERATED, <<NV("success", 0), NV("operationsError", 1), NV("protocolError", 2), NV("timeLimitExceeded", 3), NV("sizeLimitExceeded", 4), NV("compareFalse", 5), NV("compareTrue", 6), NV("authMethodNotSupported", 7), NV("strongAuthRequired", 8), NV("reserved-9", 9), NV("referral", 10), NV("adminLimitExceeded", 11), NV("unavailableCriticalExtension", 12), NV("confidentialityRequired", 13), NV("saslBindInProgress", 14), NV("noSuchAttribute", 16), NV("undefinedAttributeType", 17), NV("inappropriateMatching", 18), NV("constraintViolation", 19), NV("attributeOrValueExists", 20), NV("invalidAttributeSyntax", 21), NV("noSuchObject", 32), NV("aliasProblem", 33), NV("invalidDNSyntax", 34), NV("reserved-35", 35), NV("aliasDereferencingProblem", 36), NV("inappropriateAuthentication", 48), NV("invalidCredentials", 49), NV("insufficientAccessRights", 50), NV("busy", 51), NV("unavailable", 52), NV("unwillingToPerform", 53), NV("loopDetect", 54), NV("namingViolation", 64), NV("objectClassViolation", 65), NV("notAllowedOnNonLeaf", 66), NV("notAllowedOnRDN", 67), NV("entryAlreadyExists", 68), NV("objectClassModsProhibited", 69), NV("reserved-70", 70), NV("affectsMultipleDSAs", 71), NV("other", 80), NV("reserved-81", 81), NV("reserved-82", 82), NV("reserved-83", 83), NV("reserved-84", 84), NV("reserved-85", 85), NV("reserved-86", 86), NV("reserved-87", 87), NV("reserved-88", 88), NV("reserved-89", 89), NV("reserved-90", 90)>>)),
    REQ("matchedDN", R("rfc2251", "LDAPDN")),
    REQ("errorMessage", R("rfc2251", "LDAPString")),
    OPT("referral", IMPL(CTX, 3, R("rfc2251", "Referral"))),
    OPT("responseName", IMPL(CTX, 10, R("rfc2251", "LDAPOID"))),
    OPT("response", IMPL(CTX, 11, OCTET_STRING))>>)),
  LDAPMessage |-> SEQUENCE(<<
    REQ("messageID", R("rfc2251", "MessageID")),
    REQ("protocolOp", CHOICE(<<
        REQ("bindRequest", R("rfc2251", "BindRequest")),
        REQ("bindResponse", R("rfc2251", "BindResponse")),
        REQ("unbindRequest", R("rfc2251", "UnbindRequest")),
        REQ("searchRequest", R("rfc2251", "SearchRequest")),
        REQ("searchResEntry", R("rfc2251", "SearchResultEntry")),
        REQ("searchResDone", R("rfc2251", "SearchResultDone")),
        REQ("searchResRef", R("rfc2251", "SearchResultReference")),
        REQ("modifyRequest", R("rfc2251", "ModifyRequest")),
        REQ("modifyResponse", R("rfc2251", "ModifyResponse")),
        REQ("addRequest", R("rfc2251", "AddRequest")),
        REQ("addResponse", R("rfc2251", "AddResponse")),
        REQ("delRequest", R("rfc2251", "DelRequest")),
        REQ("delResponse", R("rfc2251", "DelResponse")),
        REQ("modDNRequest", R("rfc2251", "ModifyDNRequest")),
        REQ("modDNResponse", R("rfc2251", "ModifyDNResponse")),
        REQ("compareRequest", R("rfc2251", "CompareRequest")),
        REQ("compareResponse", R("rfc2251", "CompareResponse")),
        REQ("abandonRequest", R("rfc2251", "AbandonRequest")),
        REQ("extendedReq", R("rfc2251", "ExtendedRequest")),
        REQ("extendedResp", R("rfc2251", "ExtendedResponse"))>>)),
    OPT("controls", IMPL(CTX, 0, R("rfc2251", "Controls")))>>)]

rfc2251_Values == [
  maxInt |-> CONST(INTEGER, VBIG(<<127, 255, 255, 255>>))]

\* open type tables this module exports, with the table each one is
rfc2251_Tables == <<>>

\* what importing this module adds to the tables
rfc2251_Entries == <<
>>
=================================================================
