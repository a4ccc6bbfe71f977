From 162455f42585b3122c450910391a19405ab86859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 01/31] fix: rfc1157.TrapPDU lacked its [4] IMPLICIT tag

---
 pyasn1_modules/rfc1157.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyasn1_modules/rfc1157.py b/pyasn1_modules/rfc1157.py
index df49e48..e44eed3 100644
--- a/pyasn1_modules/rfc1157.py
+++ b/pyasn1_modules/rfc1157.py
@@ -95,6 +95,9 @@ class SetRequestPDU(_RequestBase):
 
 
 class TrapPDU(univ.Sequence):
+    tagSet = univ.Sequence.tagSet.tagImplicitly(
+        tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 4)
+    )
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('enterprise', univ.ObjectIdentifier()),
         namedtype.NamedType('agent-addr', rfc1155.NetworkAddress()),
-- 
2.43.0


From 4909f9d30e788fb89cbf285ed5c2e0d23ee96c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 02/31] fix: rfc2251.UnbindRequest encoded NULL with a
 constructed tag

---
 pyasn1_modules/rfc2251.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2251.py b/pyasn1_modules/rfc2251.py
index 094922c..8a5e2f0 100644
--- a/pyasn1_modules/rfc2251.py
+++ b/pyasn1_modules/rfc2251.py
@@ -276,7 +276,7 @@ class SearchRequest(univ.Sequence):
 
 
 class UnbindRequest(univ.Null):
-    tagSet = univ.Sequence.tagSet.tagImplicitly(
+    tagSet = univ.Null.tagSet.tagImplicitly(
         tag.Tag(tag.tagClassApplication, tag.tagFormatSimple, 2)
     )
 
-- 
2.43.0


From 2386f783fb5fc6fea558b1c996eb7015ed77f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 03/31] fix: rfc2251.DelRequest is an LDAPDN, not an LDAPResult

---
 pyasn1_modules/rfc2251.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyasn1_modules/rfc2251.py b/pyasn1_modules/rfc2251.py
index 8a5e2f0..33acf9f 100644
--- a/pyasn1_modules/rfc2251.py
+++ b/pyasn1_modules/rfc2251.py
@@ -418,9 +418,9 @@ class AddResponse(LDAPResult):
     )
 
 
-class DelRequest(LDAPResult):
-    tagSet = univ.Sequence.tagSet.tagImplicitly(
-        tag.Tag(tag.tagClassApplication, tag.tagFormatConstructed, 10)
+class DelRequest(LDAPDN):
+    tagSet = LDAPDN.tagSet.tagImplicitly(
+        tag.Tag(tag.tagClassApplication, tag.tagFormatSimple, 10)
     )
 
 
-- 
2.43.0


From d890714b1f35ebb2a0ddb6ac01a62b687f72334f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 04/31] fix: rfc2251.AbandonRequest is a MessageID, not an
 LDAPResult

---
 pyasn1_modules/rfc2251.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyasn1_modules/rfc2251.py b/pyasn1_modules/rfc2251.py
index 33acf9f..12a4a7d 100644
--- a/pyasn1_modules/rfc2251.py
+++ b/pyasn1_modules/rfc2251.py
@@ -466,9 +466,15 @@ class CompareResponse(LDAPResult):
     )
 
 
-class AbandonRequest(LDAPResult):
-    tagSet = univ.Sequence.tagSet.tagImplicitly(
-        tag.Tag(tag.tagClassApplication, tag.tagFormatConstructed, 16)
+class MessageID(univ.Integer):
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(
+        0, maxInt
+    )
+
+
+class AbandonRequest(MessageID):
+    tagSet = MessageID.tagSet.tagImplicitly(
+        tag.Tag(tag.tagClassApplication, tag.tagFormatSimple, 16)
     )
 
 
@@ -523,12 +529,6 @@ class ExtendedResponse(univ.Sequence):
     )
 
 
-class MessageID(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(
-        0, maxInt
-    )
-
-
 class LDAPMessage(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('messageID', MessageID()),
-- 
2.43.0


From 31069b52a48140071b4647035c7c0fa76e414251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 05/31] fix: rfc2315.EncryptedContentInfo resolved ciphertext
 as an open type

---
 pyasn1_modules/rfc2315.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc2315.py b/pyasn1_modules/rfc2315.py
index 1069fc2..6a56faf 100644
--- a/pyasn1_modules/rfc2315.py
+++ b/pyasn1_modules/rfc2315.py
@@ -61,8 +61,7 @@ class EncryptedContentInfo(univ.Sequence):
         namedtype.OptionalNamedType(
             'encryptedContent', EncryptedContent().subtype(
                 implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0)
-            ),
-            openType=opentype.OpenType('contentType', contentTypeMap)
+            )
         )
     )
 
-- 
2.43.0


From a23b082dcf1a2597eeee5ea752a264d0d1d4eb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 06/31] fix: rfc2315.SignedData digestAlgorithms and
 signerInfos are mandatory

---
 pyasn1_modules/rfc2315.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc2315.py b/pyasn1_modules/rfc2315.py
index 6a56faf..df393b0 100644
--- a/pyasn1_modules/rfc2315.py
+++ b/pyasn1_modules/rfc2315.py
@@ -268,13 +268,13 @@ class DigestInfo(univ.Sequence):
 class SignedData(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('version', Version()),
-        namedtype.OptionalNamedType('digestAlgorithms', DigestAlgorithmIdentifiers()),
+        namedtype.NamedType('digestAlgorithms', DigestAlgorithmIdentifiers()),
         namedtype.NamedType('contentInfo', ContentInfo()),
         namedtype.OptionalNamedType('certificates', ExtendedCertificatesAndCertificates().subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
         namedtype.OptionalNamedType('crls', CertificateRevocationLists().subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))),
-        namedtype.OptionalNamedType('signerInfos', SignerInfos())
+        namedtype.NamedType('signerInfos', SignerInfos())
     )
 
 
-- 
2.43.0


From 20918330a1d7701d1a9d2cb4b62316f658c3076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 07/31] fix: rfc2437.RSAES_OAEP_params fields are EXPLICIT and
 have defaults

---
 pyasn1_modules/rfc2437.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/pyasn1_modules/rfc2437.py b/pyasn1_modules/rfc2437.py
index 88641cf..91520ea 100644
--- a/pyasn1_modules/rfc2437.py
+++ b/pyasn1_modules/rfc2437.py
@@ -11,6 +11,7 @@
 #
 # Sample captures could be obtained with "openssl genrsa" command
 #
+from pyasn1.codec.der import encoder
 from pyasn1.type import namedtype
 from pyasn1.type import tag
 from pyasn1.type import univ
@@ -57,13 +58,27 @@ class RSAPublicKey(univ.Sequence):
     )
 
 
-# XXX defaults not set
+def _algorithmIdentifier(algorithm, parameters):
+    algorithmIdentifier = AlgorithmIdentifier()
+    algorithmIdentifier['algorithm'] = algorithm
+    algorithmIdentifier['parameters'] = univ.Any(encoder.encode(parameters))
+    return algorithmIdentifier
+
+
+def _defaultAlgorithm(algorithmIdentifier, tagId):
+    return algorithmIdentifier.subtype(
+        explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, tagId),
+        cloneValueFlag=True)
+
+
+sha1Identifier = _algorithmIdentifier(id_sha1, univ.Null(''))
+mgf1SHA1Identifier = _algorithmIdentifier(id_mgf1, sha1Identifier)
+pSpecifiedEmptyIdentifier = _algorithmIdentifier(id_pSpecified, univ.OctetString(''))
+
+
 class RSAES_OAEP_params(univ.Sequence):
     componentType = namedtype.NamedTypes(
-        namedtype.NamedType('hashFunc', AlgorithmIdentifier().subtype(
-            implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
-        namedtype.NamedType('maskGenFunc', AlgorithmIdentifier().subtype(
-            implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))),
-        namedtype.NamedType('pSourceFunc', AlgorithmIdentifier().subtype(
-            implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 2)))
+        namedtype.DefaultedNamedType('hashFunc', _defaultAlgorithm(sha1Identifier, 0)),
+        namedtype.DefaultedNamedType('maskGenFunc', _defaultAlgorithm(mgf1SHA1Identifier, 1)),
+        namedtype.DefaultedNamedType('pSourceFunc', _defaultAlgorithm(pSpecifiedEmptyIdentifier, 2))
     )
-- 
2.43.0


From 13d4e18df2ba4f72a3bb946e378c45da0f26b920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 08/31] fix: rfc2459 applied size constraints to INTEGER types

---
 pyasn1_modules/rfc2459.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index 57f783e..1cce106 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -364,7 +364,7 @@ terminal_type = univ.Integer(23)
 
 
 class TerminalType(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueSizeConstraint(0, ub_integer_options)
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, ub_integer_options)
     namedValues = namedval.NamedValues(
         ('telex', 3),
         ('teletelex', 4),
@@ -595,7 +595,7 @@ common_name = univ.Integer(1)
 class ExtensionAttribute(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('extension-attribute-type', univ.Integer().subtype(
-            subtypeSpec=constraint.ValueSizeConstraint(0, ub_extension_attributes),
+            subtypeSpec=constraint.ValueRangeConstraint(0, ub_extension_attributes),
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 0))),
         namedtype.NamedType('extension-attribute-value',
                             univ.Any().subtype(explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 1)))
@@ -774,7 +774,7 @@ id_ce_cRLNumber = univ.ObjectIdentifier('2.5.29.20')
 
 
 class CRLNumber(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueSizeConstraint(0, MAX)
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, MAX)
 
 
 class BaseCRLNumber(CRLNumber):
@@ -815,7 +815,7 @@ class ReasonFlags(univ.BitString):
 
 
 class SkipCerts(univ.Integer):
-    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueSizeConstraint(0, MAX)
+    subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, MAX)
 
 
 id_ce_policyConstraints = univ.ObjectIdentifier('2.5.29.36')
-- 
2.43.0


From 6eacf153cc5f1e471d876032cba97ae079fdcd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 09/31] fix: rfc2459.IssuingDistributionPoint booleans are
 DEFAULT FALSE

---
 pyasn1_modules/rfc2459.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index 1cce106..b3c5451 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -1135,13 +1135,13 @@ class IssuingDistributionPoint(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.OptionalNamedType('distributionPoint', DistributionPointName().subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 0))),
-        namedtype.NamedType('onlyContainsUserCerts', univ.Boolean(False).subtype(
+        namedtype.DefaultedNamedType('onlyContainsUserCerts', univ.Boolean(False).subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 1))),
-        namedtype.NamedType('onlyContainsCACerts', univ.Boolean(False).subtype(
+        namedtype.DefaultedNamedType('onlyContainsCACerts', univ.Boolean(False).subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 2))),
         namedtype.OptionalNamedType('onlySomeReasons', ReasonFlags().subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3))),
-        namedtype.NamedType('indirectCRL', univ.Boolean(False).subtype(
+        namedtype.DefaultedNamedType('indirectCRL', univ.Boolean(False).subtype(
             implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 4)))
     )
 
-- 
2.43.0


From b25e23e919eb7ca8864617df96b95ecccc221e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 10/31] fix: rfc2459.DomainParameters.j is OPTIONAL

---
 pyasn1_modules/rfc2459.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index b3c5451..09b9be6 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -326,7 +326,7 @@ class DomainParameters(univ.Sequence):
         namedtype.NamedType('p', univ.Integer()),
         namedtype.NamedType('g', univ.Integer()),
         namedtype.NamedType('q', univ.Integer()),
-        namedtype.NamedType('j', univ.Integer()),
+        namedtype.OptionalNamedType('j', univ.Integer()),
         namedtype.OptionalNamedType('validationParms', ValidationParms())
     )
 
-- 
2.43.0


From 36a682684df6683a0f366d82837a0b542f7ca833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 11/31] fix: rfc2459.UnformattedPostalAddress limited lines to
 6 characters

---
 pyasn1_modules/rfc2459.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index 09b9be6..2e4f03d 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -457,8 +457,8 @@ class StreetAddress(PDSParameter):
 class UnformattedPostalAddress(univ.Set):
     componentType = namedtype.NamedTypes(
         namedtype.OptionalNamedType('printable-address', univ.SequenceOf(componentType=char.PrintableString().subtype(
-            subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length)).subtype(
-            subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_physical_address_lines)))),
+            subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length))).subtype(
+            subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_physical_address_lines))),
         namedtype.OptionalNamedType('teletex-string', char.TeletexString().subtype(
             subtypeSpec=constraint.ValueSizeConstraint(1, ub_unformatted_address_length)))
     )
-- 
2.43.0


From 6dc6b25bac1197ded1bf90969d01138074c44195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 12/31] fix: rfc2459 X.400 address types (value SIZE,
 nAddresses mandatory, teletex name)

---
 pyasn1_modules/rfc2459.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyasn1_modules/rfc2459.py b/pyasn1_modules/rfc2459.py
index 2e4f03d..b2eb5cd 100644
--- a/pyasn1_modules/rfc2459.py
+++ b/pyasn1_modules/rfc2459.py
@@ -351,7 +351,8 @@ class TeletexDomainDefinedAttribute(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('type', char.TeletexString().subtype(
             subtypeSpec=constraint.ValueSizeConstraint(1, ub_domain_defined_attribute_type_length))),
-        namedtype.NamedType('value', char.TeletexString())
+        namedtype.NamedType('value', char.TeletexString().subtype(
+            subtypeSpec=constraint.ValueSizeConstraint(1, ub_domain_defined_attribute_value_length)))
     )
 
 
@@ -367,7 +368,7 @@ class TerminalType(univ.Integer):
     subtypeSpec = univ.Integer.subtypeSpec + constraint.ValueRangeConstraint(0, ub_integer_options)
     namedValues = namedval.NamedValues(
         ('telex', 3),
-        ('teletelex', 4),
+        ('teletex', 4),
         ('g3-facsimile', 5),
         ('g4-facsimile', 6),
         ('ia5-terminal', 7),
@@ -383,7 +384,7 @@ class PresentationAddress(univ.Sequence):
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 1))),
         namedtype.OptionalNamedType('tSelector', univ.OctetString().subtype(
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 2))),
-        namedtype.OptionalNamedType('nAddresses', univ.SetOf(componentType=univ.OctetString()).subtype(
+        namedtype.NamedType('nAddresses', univ.SetOf(componentType=univ.OctetString()).subtype(
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3),
             subtypeSpec=constraint.ValueSizeConstraint(1, MAX))),
     )
-- 
2.43.0


From ade5151806b2c05bb40519fc39e49e46423e6290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 13/31] fix: rfc2511.GeneralName was an OCTET STRING
 placeholder

---
 pyasn1_modules/rfc2511.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pyasn1_modules/rfc2511.py b/pyasn1_modules/rfc2511.py
index 8935cda..a3db446 100644
--- a/pyasn1_modules/rfc2511.py
+++ b/pyasn1_modules/rfc2511.py
@@ -30,14 +30,6 @@ id_regInfo_utf8Pairs = univ.ObjectIdentifier('1.3.6.1.5.5.7.5.2.1')
 id_regInfo_certReq = univ.ObjectIdentifier('1.3.6.1.5.5.7.5.2.2')
 
 
-# This should be in PKIX Certificate Extensions module
-
-class GeneralName(univ.OctetString):
-    pass
-
-
-# end of PKIX Certificate Extensions module
-
 class UTF8Pairs(char.UTF8String):
     pass
 
-- 
2.43.0


From c910339676fddb82aaf138365d535bb7ef69eb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 14/31] fix: rfc2560.GeneralName was an OCTET STRING
 placeholder

---
 pyasn1_modules/rfc2560.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pyasn1_modules/rfc2560.py b/pyasn1_modules/rfc2560.py
index 017ac0b..6192879 100644
--- a/pyasn1_modules/rfc2560.py
+++ b/pyasn1_modules/rfc2560.py
@@ -51,13 +51,7 @@ class CRLReason(univ.Enumerated):
 
 # end of directory Authentication Framework (X.509) module
 
-# This should be in PKIX Certificate Extensions module
-
-class GeneralName(univ.OctetString):
-    pass
-
-
-# end of PKIX Certificate Extensions module
+GeneralName = rfc2459.GeneralName
 
 id_kp_OCSPSigning = univ.ObjectIdentifier((1, 3, 6, 1, 5, 5, 7, 3, 9))
 id_pkix_ocsp = univ.ObjectIdentifier((1, 3, 6, 1, 5, 5, 7, 48, 1))
-- 
2.43.0


From 9944e652074c060abc0a2c6dc3d3b62887cc0a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 15/31] fix: rfc3280.DirectoryString was redefined as a CHOICE
 of ANY

---
 pyasn1_modules/rfc3280.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pyasn1_modules/rfc3280.py b/pyasn1_modules/rfc3280.py
index 4c6df13..5a54e13 100644
--- a/pyasn1_modules/rfc3280.py
+++ b/pyasn1_modules/rfc3280.py
@@ -1363,14 +1363,6 @@ id_ce_certificateIssuer = _OID(id_ce, 29)
 id_ce_invalidityDate = _OID(id_ce, 24)
 
 
-class DirectoryString(univ.Choice):
-    pass
-
-
-DirectoryString.componentType = namedtype.NamedTypes(
-    namedtype.NamedType('any', univ.Any())
-)
-
 id_ce_authorityKeyIdentifier = _OID(id_ce, 35)
 
 
-- 
2.43.0


From a98af1824327d0c9918e2920956d0f186c977359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 16/31] fix: rfc5208.Attributes used the LDAP Attribute type

---
 pyasn1_modules/rfc5208.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc5208.py b/pyasn1_modules/rfc5208.py
index 295fdbf..f2e3e6d 100644
--- a/pyasn1_modules/rfc5208.py
+++ b/pyasn1_modules/rfc5208.py
@@ -11,7 +11,6 @@
 #
 # Sample captures could be obtained with "openssl pkcs8 -topk8" command
 #
-from pyasn1_modules import rfc2251
 from pyasn1_modules.rfc2459 import *
 
 
@@ -39,7 +38,7 @@ class PrivateKey(univ.OctetString):
 
 
 class Attributes(univ.SetOf):
-    componentType = rfc2251.Attribute()
+    componentType = Attribute()
 
 
 class Version(univ.Integer):
-- 
2.43.0


From a11205706db60a19fe929f26a46eee8cffe5089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 17/31] fix: rfc5990 aes192_Wrap and aes256_Wrap named other
 algorithms

---
 pyasn1_modules/rfc5990.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc5990.py b/pyasn1_modules/rfc5990.py
index 281316f..30e32ac 100644
--- a/pyasn1_modules/rfc5990.py
+++ b/pyasn1_modules/rfc5990.py
@@ -194,11 +194,11 @@ aes128_Wrap['algorithm'] = id_aes128_Wrap
 # aes128_Wrap['parameters'] are absent
 
 aes192_Wrap = AlgorithmIdentifier()
-aes192_Wrap['algorithm'] = id_aes128_Wrap
+aes192_Wrap['algorithm'] = id_aes192_Wrap
 # aes192_Wrap['parameters'] are absent
 
 aes256_Wrap = AlgorithmIdentifier()
-aes256_Wrap['algorithm'] = id_sha256
+aes256_Wrap['algorithm'] = id_aes256_Wrap
 # aes256_Wrap['parameters'] are absent
 
 tdes_Wrap = AlgorithmIdentifier()
-- 
2.43.0


From fe9d12841dd7936b51f66ef59bce3a69146a2714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 18/31] fix: rfc7292.BAG_TYPE open type was governed by a field
 it does not have

---
 pyasn1_modules/rfc7292.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc7292.py b/pyasn1_modules/rfc7292.py
index 1c9f319..3063d1b 100644
--- a/pyasn1_modules/rfc7292.py
+++ b/pyasn1_modules/rfc7292.py
@@ -142,7 +142,7 @@ class BAG_TYPE(univ.Sequence):
 BAG_TYPE.componentType = namedtype.NamedTypes(
     namedtype.NamedType('id', univ.ObjectIdentifier()),
     namedtype.NamedType('unnamed1', univ.Any(),
-        openType=opentype.OpenType('attrType', pkcs12BagTypeMap)
+        openType=opentype.OpenType('id', pkcs12BagTypeMap)
     )
 )
 
-- 
2.43.0


From d7bd20776be770a6e4aacdbdf11e71e6d6ab90e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 19/31] fix: rfc7292 safeContentsBag holds SafeContents, not a
 SafeBag

---
 pyasn1_modules/rfc7292.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc7292.py b/pyasn1_modules/rfc7292.py
index 3063d1b..5622ac3 100644
--- a/pyasn1_modules/rfc7292.py
+++ b/pyasn1_modules/rfc7292.py
@@ -312,7 +312,7 @@ _pkcs12BagTypeMap = {
     id_certBag: CertBag(),
     id_CRLBag: CRLBag(),
     id_secretBag: SecretBag(),
-    id_safeContentsBag: SafeBag(),
+    id_safeContentsBag: SafeContents(),
 }
 
 pkcs12BagTypeMap.update(_pkcs12BagTypeMap)
-- 
2.43.0


From 3f3b8009ff39fb9496c1de481e798cf2ce01b4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 20/31] fix: ocspclient could not encode the issuer key with
 current pyasn1

---
 tools/ocspclient.py | 25 ++-----------------------
 1 file changed, 2 insertions(+), 23 deletions(-)

diff --git a/tools/ocspclient.py b/tools/ocspclient.py
index 84f06fb..cb11a3c 100755
--- a/tools/ocspclient.py
+++ b/tools/ocspclient.py
@@ -25,28 +25,6 @@ from pyasn1_modules import pem
 sha1oid = univ.ObjectIdentifier((1, 3, 14, 3, 2, 26))
 
 
-# noinspection PyClassHasNoInit
-class ValueOnlyBitStringEncoder(encoder.encoder.BitStringEncoder):
-    # These methods just do not encode tag and length fields of TLV
-    def encodeTag(self, *args):
-        return ''
-
-    def encodeLength(self, *args):
-        return ''
-
-    def encodeValue(*args):
-        substrate, isConstructed = encoder.encoder.BitStringEncoder.encodeValue(*args)
-        # OCSP-specific hack follows: cut off the "unused bit count"
-        # encoded bit-string value.
-        return substrate[1:], isConstructed
-
-    def __call__(self, bitStringValue):
-        return self.encode(None, bitStringValue, defMode=True, maxChunkSize=0)
-
-
-valueOnlyBitStringEncoder = ValueOnlyBitStringEncoder()
-
-
 # noinspection PyShadowingNames
 def mkOcspRequest(issuerCert, userCert):
     issuerTbsCertificate = issuerCert.getComponentByName('tbsCertificate')
@@ -66,8 +44,9 @@ def mkOcspRequest(issuerCert, userCert):
     issuerSubjectPublicKey = issuerTbsCertificate.getComponentByName('subjectPublicKeyInfo').getComponentByName(
         'subjectPublicKey')
 
+    # OCSP hashes the public key less the tag, length and unused bit count
     issuerKeyHash = hashlib.sha1(
-        valueOnlyBitStringEncoder(issuerSubjectPublicKey)
+        issuerSubjectPublicKey.asOctets()
     ).digest()
 
     userSerialNumber = userTbsCertificate.getComponentByName('serialNumber')
-- 
2.43.0


From 14bf129837331af286c8a599ddb1530bc29dbe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:15 +0000
Subject: [PATCH 21/31] fix: rfc4334.SSID did not apply its size constraint

---
 pyasn1_modules/rfc4334.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc4334.py b/pyasn1_modules/rfc4334.py
index 44cd31b..8a7a1c7 100644
--- a/pyasn1_modules/rfc4334.py
+++ b/pyasn1_modules/rfc4334.py
@@ -42,7 +42,7 @@ id_kp_eapOverLAN = id_kp + (14, )
 id_pe_wlanSSID = id_pe + (13, )
 
 class SSID(univ.OctetString):
-    constraint.ValueSizeConstraint(1, 32)
+    subtypeSpec = constraint.ValueSizeConstraint(1, 32)
 
 
 class SSIDList(univ.SequenceOf):
-- 
2.43.0


From 887057d8764c1d25c1e31edffcb4b2c8cf0bd20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 22/31] fix: rfc3280, rfc5280 UnformattedPostalAddress lacked
 its line limit

---
 pyasn1_modules/rfc3280.py | 3 ++-
 pyasn1_modules/rfc5280.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc3280.py b/pyasn1_modules/rfc3280.py
index 5a54e13..fd84b01 100644
--- a/pyasn1_modules/rfc3280.py
+++ b/pyasn1_modules/rfc3280.py
@@ -984,7 +984,8 @@ class UnformattedPostalAddress(univ.Set):
 
 UnformattedPostalAddress.componentType = namedtype.NamedTypes(
     namedtype.OptionalNamedType('printable-address', univ.SequenceOf(componentType=char.PrintableString().subtype(
-        subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length)))),
+        subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length))).subtype(
+        subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_physical_address_lines))),
     namedtype.OptionalNamedType('teletex-string', char.TeletexString().subtype(
         subtypeSpec=constraint.ValueSizeConstraint(1, ub_unformatted_address_length)))
 )
diff --git a/pyasn1_modules/rfc5280.py b/pyasn1_modules/rfc5280.py
index ed5d28f..aabc7c4 100644
--- a/pyasn1_modules/rfc5280.py
+++ b/pyasn1_modules/rfc5280.py
@@ -92,7 +92,8 @@ class UnformattedPostalAddress(univ.Set):
 
 UnformattedPostalAddress.componentType = namedtype.NamedTypes(
     namedtype.OptionalNamedType('printable-address', univ.SequenceOf(componentType=char.PrintableString().subtype(
-        subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length)))),
+        subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_parameter_length))).subtype(
+        subtypeSpec=constraint.ValueSizeConstraint(1, ub_pds_physical_address_lines))),
     namedtype.OptionalNamedType('teletex-string', char.TeletexString().subtype(
         subtypeSpec=constraint.ValueSizeConstraint(1, ub_unformatted_address_length)))
 )
-- 
2.43.0


From 5b311a66067e83bc62c5a52f9bd8afe4a8d82eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 23/31] fix: rfc3280, rfc5280 policyQualifiers may not be empty

---
 pyasn1_modules/rfc3280.py | 3 ++-
 pyasn1_modules/rfc5280.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc3280.py b/pyasn1_modules/rfc3280.py
index fd84b01..3e28812 100644
--- a/pyasn1_modules/rfc3280.py
+++ b/pyasn1_modules/rfc3280.py
@@ -1190,7 +1190,8 @@ class PolicyInformation(univ.Sequence):
 
 PolicyInformation.componentType = namedtype.NamedTypes(
     namedtype.NamedType('policyIdentifier', CertPolicyId()),
-    namedtype.OptionalNamedType('policyQualifiers', univ.SequenceOf(componentType=PolicyQualifierInfo()))
+    namedtype.OptionalNamedType('policyQualifiers', univ.SequenceOf(componentType=PolicyQualifierInfo()).subtype(
+        subtypeSpec=constraint.ValueSizeConstraint(1, MAX)))
 )
 
 
diff --git a/pyasn1_modules/rfc5280.py b/pyasn1_modules/rfc5280.py
index aabc7c4..7c5cbc4 100644
--- a/pyasn1_modules/rfc5280.py
+++ b/pyasn1_modules/rfc5280.py
@@ -1357,7 +1357,8 @@ class PolicyInformation(univ.Sequence):
 
 PolicyInformation.componentType = namedtype.NamedTypes(
     namedtype.NamedType('policyIdentifier', CertPolicyId()),
-    namedtype.OptionalNamedType('policyQualifiers', univ.SequenceOf(componentType=PolicyQualifierInfo()))
+    namedtype.OptionalNamedType('policyQualifiers', univ.SequenceOf(componentType=PolicyQualifierInfo()).subtype(
+        subtypeSpec=constraint.ValueSizeConstraint(1, MAX)))
 )
 
 
-- 
2.43.0


From 2234cbc8ea3236919a3c9ddf0c557ef10c0ba1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 24/31] fix: rfc6402.CMCStatusInfoV2 otherInfo alternatives
 shared a tag and could not be decoded

---
 pyasn1_modules/rfc6402.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc6402.py b/pyasn1_modules/rfc6402.py
index 5490b05..d24e2ce 100644
--- a/pyasn1_modules/rfc6402.py
+++ b/pyasn1_modules/rfc6402.py
@@ -151,7 +151,7 @@ CMCStatusInfoV2.componentType = namedtype.NamedTypes(
                     componentType=namedtype.NamedTypes(
                         namedtype.NamedType('failInfoOID', univ.ObjectIdentifier()),
                         namedtype.NamedType('failInfoValue', AttributeValue()))
-                    )
+                    ).subtype(implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 1))
                 )
             )
         )
-- 
2.43.0


From eb218a8044e56f57cd834642b7288b172c6b54cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 25/31] fix: rfc4210.PKIHeader generalInfo size constraint was
 put on its elements

---
 pyasn1_modules/rfc4210.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyasn1_modules/rfc4210.py b/pyasn1_modules/rfc4210.py
index 0935e3e..4cdf63d 100644
--- a/pyasn1_modules/rfc4210.py
+++ b/pyasn1_modules/rfc4210.py
@@ -742,10 +742,9 @@ class PKIHeader(univ.Sequence):
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatConstructed, 7))),
         namedtype.OptionalNamedType('generalInfo',
                                     univ.SequenceOf(
-                                        componentType=InfoTypeAndValue().subtype(
-                                            sizeSpec=constraint.ValueSizeConstraint(1, MAX)
-                                        )
+                                        componentType=InfoTypeAndValue()
                                     ).subtype(
+            sizeSpec=constraint.ValueSizeConstraint(1, MAX),
             explicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 8))
         )
     )
-- 
2.43.0


From 6c4b9969831d571999d22faddd5914ed2009f0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 26/31] fix: rfc7191.siren_dn could not be used as a decoding
 schema

---
 pyasn1_modules/rfc7191.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc7191.py b/pyasn1_modules/rfc7191.py
index 7c2be11..7ccab09 100644
--- a/pyasn1_modules/rfc7191.py
+++ b/pyasn1_modules/rfc7191.py
@@ -82,8 +82,8 @@ id_dn = univ.ObjectIdentifier('2.16.840.1.101.2.1.16.0')
 
 
 class siren_dn(SIREntityName):
-    def __init__(self):
-        SIREntityName.__init__(self)
+    def __init__(self, **kwargs):
+        SIREntityName.__init__(self, **kwargs)
         self['sirenType'] = id_dn
 
 
-- 
2.43.0


From 7323da4236e621d382b66d043d113f1a8da35350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 27/31] fix: rfc2315.AttributeValueAssertion open type named a
 component that is not there

---
 pyasn1_modules/rfc2315.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyasn1_modules/rfc2315.py b/pyasn1_modules/rfc2315.py
index df393b0..734fea8 100644
--- a/pyasn1_modules/rfc2315.py
+++ b/pyasn1_modules/rfc2315.py
@@ -26,7 +26,7 @@ class AttributeValueAssertion(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('attributeType', AttributeType()),
         namedtype.NamedType('attributeValue', AttributeValue(),
-                            openType=opentype.OpenType('type', certificateAttributesMap))
+                            openType=opentype.OpenType('attributeType', certificateAttributesMap))
     )
 
 
-- 
2.43.0


From 347acb68cf75682b2d466aa68249d188292f1853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:57 +0000
Subject: [PATCH 28/31] fix: PEM reader did not know the end marker of a block
 when two marker pairs share it

---
 pyasn1_modules/pem.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyasn1_modules/pem.py b/pyasn1_modules/pem.py
index f7c80a9..0bd749f 100644
--- a/pyasn1_modules/pem.py
+++ b/pyasn1_modules/pem.py
@@ -15,8 +15,6 @@ stSpam, stHam, stDump = 0, 1, 2
 def readPemBlocksFromFile(fileObj, *markers):
     startMarkers = dict(map(lambda x: (x[1], x[0]),
                             enumerate(map(lambda y: y[0], markers))))
-    stopMarkers = dict(map(lambda x: (x[1], x[0]),
-                           enumerate(map(lambda y: y[1], markers))))
     idx = -1
     substrate = ''
     certLines = []
@@ -33,7 +31,7 @@ def readPemBlocksFromFile(fileObj, *markers):
                 state = stHam
                 continue
         if state == stHam:
-            if certLine in stopMarkers and stopMarkers[certLine] == idx:
+            if certLine == markers[idx][1]:
                 state = stDump
             else:
                 certLines.append(certLine)
-- 
2.43.0


From 8e9de20554b995437099d20386feee5a23251ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 29/31] fix: pkcs7dump failed on a ContentInfo that leaves its
 content out

---
 tools/pkcs7dump.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tools/pkcs7dump.py b/tools/pkcs7dump.py
index 7ac2eb9..6c2ed20 100755
--- a/tools/pkcs7dump.py
+++ b/tools/pkcs7dump.py
@@ -47,9 +47,13 @@ contentInfoMap = {
     (1, 2, 840, 113549, 1, 7, 6): rfc2315.EncryptedData()
 }
 
-content, _ = decoder.decode(
-    contentInfo.getComponentByName('content'),
-    asn1Spec=contentInfoMap[contentType]
-)
+content = contentInfo.getComponentByName('content')
+
+# the content may be left out
+if content.isValue:
+    content, _ = decoder.decode(
+        content,
+        asn1Spec=contentInfoMap[contentType]
+    )
 
-print(content.prettyPrint())
+    print(content.prettyPrint())
-- 
2.43.0


From 1b59d5fb6d730c0af711c96a569c72f56c3a60c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 30/31] fix: cmcdump never ended on a content type it does not
 know

---
 tools/cmcdump.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/cmcdump.py b/tools/cmcdump.py
index d16774d..e4d7a02 100755
--- a/tools/cmcdump.py
+++ b/tools/cmcdump.py
@@ -59,3 +59,6 @@ while next_layer:
 
         next_layer = None
         data = None
+
+    else:
+        raise ValueError('unexpected content type %s' % next_layer)
-- 
2.43.0


From 4e5eaa6fb141d08150e157d4974c88c97c9cd6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 31/31] fix: rfc5275, rfc5697: encoding the exported default
 value spoiled the default

---
 pyasn1_modules/rfc5275.py | 3 ++-
 pyasn1_modules/rfc5697.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyasn1_modules/rfc5275.py b/pyasn1_modules/rfc5275.py
index 1be9598..c1e5529 100644
--- a/pyasn1_modules/rfc5275.py
+++ b/pyasn1_modules/rfc5275.py
@@ -134,7 +134,8 @@ class GLKeyAttributes(univ.Sequence):
         namedtype.DefaultedNamedType('generationCounter',
             univ.Integer().subtype(value=2,
                 implicitTag=tag.Tag(tag.tagClassContext, tag.tagFormatSimple, 3))),
-        namedtype.DefaultedNamedType('requestedAlgorithm', requested_algorithm)
+        namedtype.DefaultedNamedType('requestedAlgorithm',
+            requested_algorithm.clone(cloneValueFlag=True))
     )
 
 
diff --git a/pyasn1_modules/rfc5697.py b/pyasn1_modules/rfc5697.py
index 8c5a9d3..56d259b 100644
--- a/pyasn1_modules/rfc5697.py
+++ b/pyasn1_modules/rfc5697.py
@@ -49,7 +49,8 @@ class SCVPCertID(univ.Sequence):
     componentType = namedtype.NamedTypes(
         namedtype.NamedType('certHash', univ.OctetString()),
         namedtype.NamedType('issuerSerial', SCVPIssuerSerial()),
-        namedtype.DefaultedNamedType('hashAlgorithm', sha1_alg_id)
+        namedtype.DefaultedNamedType('hashAlgorithm',
+            sha1_alg_id.clone(cloneValueFlag=True))
     )
 
 
-- 
2.43.0

