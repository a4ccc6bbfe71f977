"""Conformance of sharing between modules (Share.tla)."""
import json, multiprocessing
from collections import defaultdict

import codec
from asn import *

_J = {}


def make(cls, v):
    o = cls()
    if 'f' in v or 'ch' in v or 'l' in v:
        fill(o, v)
        return o
    return o.clone(pyscalar(o, v))


def put(o, d, cls):
    """None, or what is wrong: an object of class cls put where d says in a fresh object like o."""
    try:
        part = make(cls, d['v'])
    except Exception as e:
        return 'its value cannot be built (%s)' % errtext(e)
    try:
        r = o.clone()
        if 'f' in d['msg']:
            fill(r, {'f': [f for f in d['msg']['f'] if f['n'] != d['comp']]})
            r.setComponentByName(d['comp'], part)
        elif 'ch' in d['msg']:
            r.setComponentByName(d['comp'], part)
        else:
            r.clear()
            r.extend([part] * len(d['msg']['l']))
        got = der_encode(r)
    except Exception as e:
        return 'is not taken (%s)' % errtext(e)
    if got != octets(d['der']) and not codec.redundant(d['v'], got):
        return 'the whole encodes to %s instead of %s' % (short(got.hex()), short(octets(d['der']).hex()))
    return None


def swap(d):
    der = octets(d['der'])
    try:
        o = getattr(module(d['with']), d['n'])()
        v, rest = der_decode(der, asn1Spec=o)
        if rest:
            return 'decoding leaves octets'
        match(v, d['full'])
        if der_encode(v) != der:
            return 'encodes differently'
    except Mismatch as e:
        return 'decoded value differs: %s' % e
    except Exception as e:
        return 'a message of the other module is not read (%s)' % errtext(e)
    return None


def protocol(o, bare, which):
    """A user's own type with components of the exported type o."""
    from pyasn1.type import namedtype, tag, univ
    ctx, priv = tag.tagClassContext, tag.tagClassPrivate

    def anew(x, cls, n, explicit=False):
        if explicit:
            return x.subtype(explicitTag=tag.Tag(cls, tag.tagFormatConstructed, n))
        return x.subtype(implicitTag=tag.Tag(cls, tag.tagFormatSimple, n))
    either = univ.Choice(componentType=namedtype.NamedTypes(
        namedtype.NamedType('number', univ.Integer()),
        namedtype.NamedType('object', anew(o, ctx, 2, True))))

    class Listed(univ.SequenceOf):
        componentType = o

    parts = (namedtype.NamedType('first', anew(o, ctx, 0, True)),
             namedtype.NamedType('listed', anew(Listed(), ctx, 1)),
             namedtype.NamedType('anew', anew(o, priv, 40, bare)),
             namedtype.NamedType('either', either))

    class Own(univ.Sequence):
        componentType = namedtype.NamedTypes(*(parts if which == 4 else (parts[which - 1],)))
    return Own()


def own(d, c):
    try:
        o = protocol(c() if isinstance(c, type) else c, d['bare'], d['which'])
    except Exception as e:
        return 'no type can be made with it (%s)' % errtext(e)
    return codec.probe(o, dict(k='val', v=d['v'], full=d['full'], der=d['der']), ('enc', 'dec'))


def _work(i):
    fails, n = [], 0
    for j in range(i, len(_J['todo']), _J['n']):
        k, d, x = _J['todo'][j]
        n += 1
        if k == 'put':
            o, how, names, cls = x
            bad = put(o, d, cls)
            if bad:
                fails.append(dict(site=codec.key(d), how=how, why='%s put in %s' % (names[0], d['comp'] or 'the list'), what=bad, case=d))
        elif k == 'own':
            c, names = x
            bad = own(d, c)
            if bad:
                fails.append(dict(site=codec.key(d), how=names[0], why="%s in a type of the user's own" % names[0], what=bad, case=d))
        else:
            bad = swap(d)
            if bad:
                fails.append(dict(site='%s.%s' % (d['with'], d['n']), why='message of %s.%s' % (d['m'], d['n']), what=bad, case=d))
    return fails, n


def replay(lines, index, pairs, rep, procs=8):
    exporters = defaultdict(list)
    for m in sorted(index.modules):
        for t in index.modules[m]['types']:
            exporters[codec.key(t['s'])].append((m, t['n']))
    objs = defaultdict(list)
    for sk, o, how in pairs:
        objs[sk].append((o, how))
    todo, owned, swaps = [], 0, 0
    for l in lines:
        if l.startswith('PUT '):
            d = json.loads(l[4:])
            byid = {}
            for m, n in exporters[codec.key(d['of'])]:
                c = getattr(module(m), n, None)
                if isinstance(c, type):
                    byid.setdefault(id(c), (c, []))[1].append('%s.%s' % (m, n))
            for c, names in byid.values():
                for o, how in objs[codec.key(d)]:
                    todo.append(('put', d, (o, how, names, c)))
        elif l.startswith('OWN '):
            d = json.loads(l[4:])
            byid = {}
            for m, n in exporters[codec.key(d)]:
                c = getattr(module(m), n, None)
                byid.setdefault(id(c), (c, []))[1].append('%s.%s' % (m, n))
            for c, names in byid.values():
                todo.append(('own', d, (c, names)))
                owned += 1
        elif l.startswith('SWAP '):
            todo.append(('swap', json.loads(l[5:]), None))
            swaps += 1
    _J.update(todo=todo, n=procs * 4)
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(procs) as pool:
        for fails, n in pool.imap_unordered(_work, range(procs * 4)):
            rep.failures += fails
            rep.count += n
    return todo, owned, swaps
