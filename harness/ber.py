"""Conformance of messages written with the freedom of BER (Ber.tla), and of what the BER
writer makes of the schema objects."""
import json, multiprocessing
from collections import defaultdict

import codec
from asn import *
from pyasn1.codec.ber.decoder import decode as ber_decode
from pyasn1.codec.ber.encoder import encode as ber_encode

_J = {}


def read(o, d):
    """None, or what is wrong with reading message d as an o."""
    try:
        v, rest = ber_decode(octets(d['octs']), asn1Spec=o)
    except Exception as e:
        return 'a legal message is not decoded (%s)' % errtext(e)
    if rest:
        return 'decoding leaves %s' % short(rest.hex())
    try:
        match(v, d['full'])
    except Mismatch as e:
        return 'decoded value differs: %s' % e
    if not d['der2']:
        return None
    try:
        back = der_encode(v)
    except Exception as e:
        return 'a decoded message is not encoded again (%s)' % errtext(e)
    if back != octets(d['der']) and not codec.redundant(d['v'], back):
        return 'decoded message encodes to %s instead of %s' % (short(back.hex()), short(octets(d['der']).hex()))


def write(o, d):
    """None, or what is wrong with what the BER writer makes of value d of o."""
    try:
        octs = ber_encode(build(o, d['v']))
    except Exception as e:
        return 'a legal value is not encoded (%s)' % errtext(e)
    try:
        v, rest = ber_decode(octs, asn1Spec=o)
        if rest:
            return 'written as %s, is read back but for %s' % (short(octs.hex()), short(rest.hex()))
        back = der_encode(v)     # (which puts the elements of sets in order)
    except Exception as e:
        return 'written as %s, is not read back (%s)' % (short(octs.hex()), errtext(e))
    if back != octets(d['der']) and not codec.redundant(d['v'], back):
        return 'written as %s, encodes to %s instead of %s when read back' % (short(octs.hex()), short(back.hex()), short(octets(d['der']).hex()))


def _work(i):
    fails, n = [], 0
    for j in range(i, len(_J['todo']), _J['n']):
        k, d, o, how = _J['todo'][j]
        n += 1
        bad = (read if k == 'read' else write)(o, d)
        if bad:
            fails.append(dict(site=codec.key(d), how=how, why='style %d' % d['q'] if k == 'read' else 'written', what=bad, case=d))
    return fails, n


def replay(lines, pairs, rep, procs=8):
    objs = defaultdict(list)
    for sk, o, how in pairs:
        objs[sk].append((o, how))
    todo, written = [], set()
    for l in lines:
        if not l.startswith('BER '):
            continue
        d = json.loads(l[4:])
        w = json.dumps((codec.key(d), d['v']))
        for o, how in objs[codec.key(d)]:
            todo.append(('read', d, o, how))
            if w not in written and d['der2']:
                todo.append(('write', d, o, how))
        written.add(w)
    _J.update(todo=todo, n=procs * 4)
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(procs) as pool:
        for fails, n in pool.imap_unordered(_work, range(procs * 4)):
            rep.failures += fails
            rep.count += n
    return todo
