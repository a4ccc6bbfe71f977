"""Conformance of exported values (Values.tla)."""
import json
from asn import *


def one(d):
    """None, or what is wrong with the exported value."""
    try:
        mod = module(d['m'])
    except Exception as e:
        return 'module does not import: ' + errtext(e)
    o = getattr(mod, d['n'], None)
    if o is None:
        return 'is not exported'
    if isinstance(o, (int, float)) and not isinstance(o, bool):
        want = int.from_bytes(bytes(d['v']['i']), 'big', signed=True) if d['k'] == 'INT' else None
        return None if o == want else 'is %s, not %s' % (o, want)
    if kind(o) != d['k']:
        return 'is of kind %s, not %s' % (kind(o), d['k'])
    if not d['set']:
        return None
    try:
        match(o, d['v'])
    except Mismatch as e:
        return 'differs: %s' % e
    if d['part']:
        return None
    try:
        got = der_encode(o)
    except Exception as e:
        return 'is not encoded: ' + errtext(e)
    if got != octets(d['der']):
        return 'encodes to %s, not %s' % (short(got.hex()), short(octets(d['der']).hex()))
    return None


def fresh(d):
    """None, or what is wrong with what a fresh object of the type holds."""
    try:
        match(getattr(module(d['m']), d['n'])()[d['c']], d['v'])
    except Mismatch as e:
        return '%s of a fresh object: %s' % (d['c'], e)
    except Exception as e:
        return '%s of a fresh object cannot be read (%s)' % (d['c'], errtext(e))


def by_module(lines):
    out = {}
    for l in lines:
        if l.startswith('VALUE '):
            d = json.loads(l[6:])
            out.setdefault(d['m'], []).append(d)
    return out


def replay(lines, res):
    n = 0
    kinds = {}
    samples = []
    for l in lines:
        if l.startswith('PRESET '):
            d = json.loads(l[7:])
            n += 1
            bad = fresh(d)
            if bad:
                res.failures.append(dict(site='%s.%s' % (d['m'], d['n']), what=bad, value=d))
        if not l.startswith('VALUE '):
            continue
        d = json.loads(l[6:])
        n += 1
        kinds[d['k']] = kinds.get(d['k'], 0) + 1
        if n % 250 == 1:
            samples.append(d)
        bad = one(d)
        if bad:
            res.failures.append(dict(site='%s.%s' % (d['m'], d['n']), what=bad, value=d))
    res.coverage.update(traces_validated_against_impl=n, values_by_kind=kinds, samples=samples)
    return n
