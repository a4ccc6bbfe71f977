"""Conformance of open types (OpenTypes.tla)."""
import json, multiprocessing
from collections import defaultdict

import codec
from asn import *


def ident(k):
    return json.dumps(k, sort_keys=True)


def load(lines):
    sites, cases, entries = {}, defaultdict(lambda: defaultdict(list)), defaultdict(list)
    for l in lines:
        if l.startswith('OPENSITE '):
            d = json.loads(l[9:])
            sites[codec.key(d)] = d
        elif l.startswith('OPEN '):
            d = json.loads(l[5:])
            cases[codec.key(d)][(d['comp'], d['why'], ident(d['key']))].append(d)
        elif l.startswith('ENTRY '):
            d = json.loads(l[6:])
            entries[(d['m'], d['tb'], ident(d['key']))].append(d)
    return sites, cases, entries


def lookups(entries, rep):
    """What a user finds in the tables: the type assigned to the identifier."""
    for (m, tb, k), ds in sorted(entries.items()):
        o = getattr(module(m), tb).get(codec.pykey(ds[0]['key']))
        bad = None
        for d in ds if o is not None else []:      # several registered types: any of them may have won (C08)
            bad = None
            for c in d['cases']:
                rep.count += 1
                der = octets(c['der'])
                try:
                    v, rest = der_decode(der, asn1Spec=o)
                    if rest:
                        bad = 'decoding leaves %s' % short(rest.hex())
                    match(v, c['full'])
                    if der_encode(v) != der:
                        bad = 'a value encodes differently'
                except Mismatch as e:
                    bad = 'decoded value differs: %s' % e
                except Exception as e:
                    bad = 'a value is not decoded (%s)' % errtext(e)
                if bad:
                    break
            if not bad:
                break
        if o is None:
            bad = 'open type table lacks the entry'
        if bad:
            rep.fail(site='%s.%s[%s]' % (m, tb, codec.showkey(k)), how=ds[0]['from'], what=bad, case=ds[0])


def one(o, d):
    """Put message d to schema object o; None, or what is wrong."""
    if d['why'] != 'own':
        return read(o, d, {'decodeOpenTypes': True})
    bad = read(o, d, {'openTypes': {codec.pykey(d['key']): univ.Integer()}})
    if bad:
        return 'with a type given to the decoder: %s' % bad
    table = getattr(module(d['table']['m']), d['table']['tb'])
    k = codec.pykey(d['key'])
    assert k not in table
    table[k] = univ.Integer()
    try:
        bad = read(o, d, {'decodeOpenTypes': True})
    finally:
        del table[k]
    return bad and 'with a type added to %s: %s' % (d['table']['tb'], bad)


def read(o, d, options):
    der = octets(d['der'])
    try:
        v, rest = der_decode(der, asn1Spec=o, **options)
    except Exception as e:
        return 'a message is not decoded with open types on (%s)' % errtext(e)
    if rest:
        return 'decoding leaves %s' % short(rest.hex())
    try:
        c = v[d['comp']]
        got = list(c) if d['list'] else [c]
        if d['why'] in ('registered', 'own'):
            want = d['pay']
            if len(got) != len(want):
                return '%d open values instead of %d' % (len(got), len(want))
            for g, w in zip(got, want):
                if type(g) is univ.Any and not ('a' in w):
                    return '%s is not resolved' % d['comp']
                match(g, w, d['comp'])
        else:
            for g, e in zip(got, d['enc']):
                if kind(g) not in ('ANY', 'OCT') or bytes(g) != octets(e):
                    return '%s of an unregistered type is not left as it came' % d['comp']
    except Mismatch as e:
        return 'decoded value differs: %s' % e
    except Exception as e:
        return 'decoded value cannot be read (%s)' % errtext(e)
    try:
        back = der_encode(v)
    except Exception as e:
        return 'the decoded message is not encoded again (%s)' % errtext(e)
    if back != octets(d['back']):
        return 'the decoded message encodes to %s instead of %s' % (short(back.hex()), short(octets(d['back']).hex()))
    # the same message without open type decoding: left as it came
    try:
        v, rest = der_decode(der, asn1Spec=o)
        match(v, d['full'])
        if der_encode(v) != der:
            return 'without open types on, the message encodes differently'
    except Mismatch as e:
        return 'without open types on, the decoded value differs: %s' % e
    except Exception as e:
        return 'without open types on, the message fails (%s)' % errtext(e)
    return None


_J = {}


def _work(i):
    fails, n = [], 0
    for j in range(i, len(_J['todo']), _J['n']):
        o, how, ds = _J['todo'][j]
        bad = None
        # one identifier with several registered types: any of them may have won (C08)
        for d in ds:
            n += 1
            bad = one(o, d)
            if bad is None:
                break
        if bad:
            d = ds[0]
            fails.append(dict(site=codec.key(d), how=how, why='%s %s %s=%s' % (d['why'], d['comp'], d['field'], codec.showkey(d['key'])),
                              what=bad, case=d))
    return fails, n


def replay(sites, cases, pairs, rep, procs=8):
    todo = []
    reached = set()
    for sk, o, how in pairs:
        if sk not in sites:
            continue
        reached.add(sk)
        for (comp, why, key), ds in sorted(cases[sk].items()):
            salted = defaultdict(list)
            per = defaultdict(list)
            for d in ds:
                per[d['from']].append(d)
            if len(per) == 1:
                for d in ds:
                    todo.append((o, how, [d]))
            else:
                todo.append((o, how, ds))
    _J.update(todo=todo, n=procs * 4)
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(procs) as pool:
        for fails, n in pool.imap_unordered(_work, range(procs * 4)):
            rep.failures += fails
            rep.count += n
    return reached, todo
