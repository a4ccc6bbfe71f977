"""The implementation side: abstract values of the specification as pyasn1 objects."""
import importlib, os, signal, sys

os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import pyasn1_modules
assert os.path.realpath(pyasn1_modules.__file__).startswith(os.path.realpath(REPO) + '/'), pyasn1_modules.__file__
from pyasn1.type import base, char, univ, useful
from pyasn1.codec.der.decoder import decode as der_decode
from pyasn1.codec.der.encoder import encode as der_encode
from pyasn1.error import PyAsn1Error

CHARRUN = 1 << 21


def octets(elems):
    out = bytearray()
    for e in elems:
        if e < 256:
            out.append(e)
        else:
            out += bytes([e % 256]) * (e // 256)
    return bytes(out)


def text(elems):
    return ''.join(chr(e) if e < CHARRUN else chr(e % CHARRUN) * (e // CHARRUN) for e in elems)


def short(x, n=160):
    s = x if isinstance(x, str) else repr(x)
    s = s.replace('\n', ' ')
    return s if len(s) <= n else s[:n] + '...'


def errtext(e):
    try:
        return type(e).__name__ + ': ' + short(str(e.args[0]) if e.args else '', 200)
    except Exception:
        return type(e).__name__


def kind(o):
    """Specification kind of an implementation object."""
    if isinstance(o, univ.Choice):
        return 'CHOICE'
    if isinstance(o, univ.Set):
        return 'SET'
    if isinstance(o, univ.Sequence):
        return 'SEQ'
    if isinstance(o, univ.SetOf):
        return 'SETOF'
    if isinstance(o, univ.SequenceOf):
        return 'SEQOF'
    if isinstance(o, univ.Any):
        return 'ANY'
    for c, k in ((useful.GeneralizedTime, 'GENT'), (useful.UTCTime, 'UTCT')):
        if isinstance(o, c):
            return k
    for c, k in ((char.UTF8String, 'UTF8'), (char.NumericString, 'NUMERIC'), (char.PrintableString, 'PRINTABLE'),
                 (char.TeletexString, 'TELETEX'), (char.IA5String, 'IA5'), (char.UniversalString, 'UNIVERSAL'),
                 (char.BMPString, 'BMP'), (char.VisibleString, 'VISIBLE'), (univ.Null, 'NULL'), (univ.OctetString, 'OCT'),
                 (univ.BitString, 'BITS'), (univ.Boolean, 'BOOL'), (univ.Enumerated, 'ENUM'), (univ.Integer, 'INT'),
                 (univ.ObjectIdentifier, 'OID')):
        if isinstance(o, c):
            return k
    return type(o).__name__


class Mismatch(Exception):
    pass


def bits(v):
    b = octets(v['bs'])
    s = ''.join(format(x, '08b') for x in b)
    return s[:len(s) - v['u']] if v['u'] else s


def pyscalar(o, v):
    """Python initialiser for scalar value v."""
    if 'i' in v:
        return int.from_bytes(bytes(v['i']), 'big', signed=True)
    if 'b' in v:
        return v['b']
    if 'u' in v:
        return tuple(int(c) for c in bits(v))
    if 's' in v:
        if isinstance(o, (char.AbstractCharacterString, useful.TimeMixIn)):
            return text(v['s'])
        return octets(v['s'])
    if 'o' in v:
        return tuple(v['o'])
    if 'a' in v:
        return octets(v['a'])
    return ''


def build(o, v):
    """A new object of the type of schema object o carrying value v."""
    if 'f' in v or 'ch' in v or 'l' in v:
        r = o.clone()
        fill(r, v)
        return r
    return o.clone(pyscalar(o, v))


def fill(r, v):
    """Give the fresh constructed object r the value v, the way its users do."""
    if 'f' in v:
        r.clear()
        for f in v['f']:
            t = r.componentType[f['n']].asn1Object
            if isinstance(t, base.ConstructedAsn1Type):
                r.setComponentByName(f['n'])
                fill(r.getComponentByName(f['n']), f['v'])
            else:
                r.setComponentByName(f['n'], pyscalar(t, f['v']))
    elif 'ch' in v:
        t = r.componentType[v['ch']].asn1Object
        if isinstance(t, base.ConstructedAsn1Type):
            r.setComponentByName(v['ch'])
            fill(r.getComponentByName(v['ch']), v['v'])
        else:
            r.setComponentByName(v['ch'], pyscalar(t, v['v']))
    else:
        r.clear()
        t = r.componentType
        for i, x in enumerate(v['l']):
            if isinstance(t, base.ConstructedAsn1Type):
                r.setComponentByPosition(i)
                fill(r.getComponentByPosition(i), x)
            else:
                r.setComponentByPosition(i, pyscalar(t, x))


def match(o, v, where=''):
    """Does object o carry value v (in full form: defaults present)?  Raises Mismatch."""
    if 'f' in v:
        if not isinstance(o, univ.SequenceAndSetBase) or isinstance(o, univ.Choice):
            raise Mismatch('%s is a %s' % (where or 'value', kind(o)))
        want = {f['n']: f['v'] for f in v['f']}
        for n in want:
            if n not in o.componentType:
                raise Mismatch('%s has no component %s' % (where or 'value', n))
        for n in o.componentType:
            try:
                c = o.getComponentByName(n, default=None, instantiate=False)
            except PyAsn1Error:
                c = None
            present = c is not None and c is not base.noValue and c.isValue
            if not present and n in want and o.componentType[n].isDefaulted:
                c = o.getComponentByName(n)      # absent on the wire: the default is what a reader sees
                present = c.isValue
            if present and n not in want and o.componentType[n].isOptional and \
                    isinstance(c, base.ConstructedAsn1Type) and not isinstance(c, univ.Choice) and empty(c):
                present = False      # DER writers of pyasn1 leave an empty optional structure out
            if n in want:
                if not present:
                    raise Mismatch('%s.%s is absent' % (where, n))
                match(c, want[n], where + '.' + n)
            elif present:
                raise Mismatch('%s.%s is present' % (where, n))
        return
    if 'ch' in v:
        if not isinstance(o, univ.Choice):
            raise Mismatch('%s is a %s' % (where or 'value', kind(o)))
        if o.getName() != v['ch']:
            raise Mismatch('%s is alternative %s, not %s' % (where, o.getName(), v['ch']))
        return match(o.getComponent(), v['v'], where + '.' + v['ch'])
    if 'l' in v:
        if not isinstance(o, univ.SequenceOfAndSetOfBase):
            raise Mismatch('%s is a %s' % (where or 'value', kind(o)))
        if len(o) != len(v['l']):
            raise Mismatch('%s has %d elements, not %d' % (where, len(o), len(v['l'])))
        for i, x in enumerate(v['l']):
            match(o[i], x, '%s[%d]' % (where, i))
        return
    if 'a' in v and not isinstance(o, univ.Any):     # a typed object where the specification has an open type
        got = der_encode(o)
        if got != octets(v['a']):
            raise Mismatch('%s encodes to %s, not %s' % (where or 'value', short(got.hex(), 60), short(octets(v['a']).hex(), 60)))
        return
    got = scalar(o)
    want = pyscalar(o, v)
    if 'u' in v:
        want = bits(v)
    if 'z' in v and kind(o) == 'NULL':
        return
    if 's' in v and not isinstance(got, str):
        want = octets(v['s'])
    if got != want or isinstance(got, bool) != isinstance(want, bool):
        raise Mismatch('%s is %s, not %s' % (where or 'value', short(got, 60), short(want, 60)))


def empty(c):
    try:
        if len(der_encode(c.clone(tagSet=type(c).tagSet, cloneValueFlag=True))) <= 2:
            return True
    except Exception:
        pass
    return hollow(c)


def hollow(c):
    """A structure in which only empty structures have been touched."""
    if isinstance(c, univ.Choice) or not isinstance(c, base.ConstructedAsn1Type):
        return False
    if isinstance(c, univ.SequenceOfAndSetOfBase):
        return len(c) == 0
    for n in c.componentType:
        try:
            x = c.getComponentByName(n, default=None, instantiate=False)
        except PyAsn1Error:
            x = None
        if x is not None and x is not base.noValue and x.isValue and not (c.componentType[n].isOptional and hollow(x)):
            return False
    return True


def scalar(o):
    k = kind(o)
    if k in ('INT', 'ENUM'):
        return int(o)
    if k == 'BOOL':
        return bool(o)
    if k == 'BITS':
        return o.asBinary().zfill(len(o)) if len(o) else ''
    if k in ('OCT', 'ANY'):
        return bytes(o)
    if k == 'NULL':
        return ''
    if k == 'OID':
        return tuple(o)
    if isinstance(o, (char.AbstractCharacterString, useful.TimeMixIn)):
        return str(o)
    raise Mismatch('unexpected %s' % k)


class Hang(BaseException):
    """Raised in code that does not end."""


def _hang(*a):
    raise Hang('never ends')


def within(seconds, f, *a):
    """f(*a), or Hang after so many seconds at work (a busy machine takes longer)."""
    signal.signal(signal.SIGALRM, _hang)
    signal.signal(signal.SIGPROF, _hang)
    signal.setitimer(signal.ITIMER_REAL, 6 * seconds)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        return f(*a)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def module(name):
    return importlib.import_module('pyasn1_modules.' + name)
