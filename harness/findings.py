"""The known findings: does the tree still show them?"""
import os, re

from asn import module, der_decode, der_encode, univ, PyAsn1Error

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.txt')


def listed():
    out = []
    for l in open(FILE):
        m = re.match(r'finding: property=(\S+) id=(\S+) where=(\S+) what=(.*)$', l)
        if m:
            out.append(dict(props=m.group(1).split(','), id=m.group(2), where=m.group(3), what=m.group(4).strip()))
    return out


def _seccat(m):
    o = module(m).SecurityCategory()
    o['type'] = (1, 3, 6)
    o['value'] = univ.OctetString(b'x')
    return der_encode(o).find(b'\xa1\x03\x04\x01x') > 0


def _defaulted(m, t, names):
    c = getattr(module(m), t)().componentType
    return all(c[n].isDefaulted for n in names)


def _ess():
    d = module('rfc5035').ESSCertIDv2().componentType['hashAlgorithm'].asn1Object
    return len(der_encode(d)) == 13


def _skid():
    der = bytes.fromhex('300c0603551d0e040504030b1219')
    v, rest = der_decode(der, asn1Spec=module('rfc2459').Extension(), decodeOpenTypes=True)
    return der_encode(v) == der


def _filter():
    der = bytes.fromhex('8701 61'.replace(' ', ''))
    for _ in range(3):
        der = bytes([0xa2, len(der)]) + der
    try:
        v, rest = der_decode(der, asn1Spec=module('rfc2251').Filter())
        return not rest and der_encode(v) == der
    except PyAsn1Error:
        return False


def _twice():
    c = module('rfc6211').CMSAlgorithmProtection()
    c['digestAlgorithm']['algorithm'] = c['signatureAlgorithm']['algorithm'] = (1, 2, 3)
    return der_encode(c) == der_encode(c)


def _encoded():
    a = module('rfc5280').AlgorithmIdentifier()
    a['algorithm'] = module('rfc5697').id_sha1
    der_encode(a)
    c = module('rfc5697').SCVPCertID()
    c['certHash'] = b'x'
    n = module('rfc5280').GeneralName()
    n['dNSName'] = 'a'
    c['issuerSerial']['issuer'].append(n)
    c['issuerSerial']['serialNumber'] = 1
    c['hashAlgorithm'] = a
    return len(der_encode(c)) > 0


def _gost():
    module('rfc4357'), module('rfc4491')
    der = bytes.fromhex('301c06062a850302021330120607 2a85030202240006072a850302021e01'.replace(' ', ''))
    der_decode(der, asn1Spec=module('rfc5280').AlgorithmIdentifier(), decodeOpenTypes=True)
    return True


def _null():
    m = module('rfc8018')
    o = m.PBKDF2_params()
    o['salt']['specified'] = b'x'
    o['iterationCount'] = 3
    o['prf']['algorithm'] = m.id_hmacWithSHA1
    o['prf']['parameters'] = b'\x05\x00'
    return len(der_encode(o)) == 8


# id -> does the tree show what the RFC says instead
REPAIRED = {
    'KF-securitycategory-2634': lambda: _seccat('rfc2634'),
    'KF-securitycategory-3281': lambda: _seccat('rfc3281'),
    'KF-securitycategory-5755': lambda: _seccat('rfc5755'),
    'KF-oaep-defaults-4055': lambda: _defaulted('rfc4055', 'RSAES_OAEP_params', ('hashFunc', 'maskGenFunc', 'pSourceFunc')),
    'KF-pss-defaults-4055': lambda: _defaulted('rfc4055', 'RSASSA_PSS_params', ('hashAlgorithm', 'maskGenAlgorithm')),
    'KF-esscertidv2-default-5035': _ess,
    'KF-default-identifiers-4055': lambda: all(der_encode(getattr(module('rfc4055'), n)).endswith(b'\x30\x00')
                                               for n in ('rSAES_OAEP_Default_Identifier', 'rSASSA_PSS_Default_Identifier')),
    'KF-filter-depth-2251': _filter,
    'KF-encode-twice-6211': _twice,
    'KF-encoded-default-5275-5697': _encoded,
    'KF-default-null-8018': _null,
    'KF-skid-rewrap-2459': _skid,
    'KF-gost-parameters-4357': _gost,
}


def present():
    """Ids of the listed findings the tree shows.  Anything but the repaired
    behaviour counts: the specification then says exactly what is tolerated."""
    out = []
    for f in listed():
        try:
            ok = REPAIRED[f['id']]()
        except Exception:
            ok = False
        if not ok:
            out.append(f['id'])
    return out


SPEC_IDS = [i for i in REPAIRED if i not in ('KF-filter-depth-2251', 'KF-encode-twice-6211', 'KF-encoded-default-5275-5697',
                                                 'KF-gost-parameters-4357')]
