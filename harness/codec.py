"""Conformance of the schema objects: the sites and probes Codec.tla writes out are
walked and replayed on the objects of the implementation."""
import json, multiprocessing, os, sys

import tlc
from asn import *

INVARIANTS = 'RoundTrip Canonical Sound Distinct'


def salts(tier, seed):
    if tier == 'quick':
        return {1}
    return {1} | {2 + (seed * 17 + i * 29) % 89 for i in range(15)}


def cfg(groups, deviations=(), start=None, inv=INVARIANTS, extra='', tier='quick', seed=1):
    return '\n'.join(['SPECIFICATION Spec', 'CONSTANTS',
                      '  Deviations = ' + tlc.tla(set(deviations)),
                      '  Groups = ' + tlc.tla(set(groups)), '  Salts = ' + tlc.tla(salts(tier, seed)),
                      ('  StartModules <- Modules' if start is None else '  StartModules = ' + tlc.tla(set(start))),
                      'INVARIANTS ' + inv, 'CHECK_DEADLOCK FALSE', extra])


def key(s):
    return '%s.%s%s' % (s['m'], s['n'], ''.join('/%d' % i for i in s['p']))


class Index(object):
    """What the specification says: sites with probes, and the modules' exports."""

    def __init__(self, lines):
        self.sites, self.modules = {}, {}
        for l in lines:
            if l.startswith('SITE '):
                d = json.loads(l[5:])
                d['kids'] = [key(k) for k in d['kids']]
                self.sites[key(d)] = d
            elif l.startswith('MODULE '):
                d = json.loads(l[7:])
                self.modules[d['m']] = d

    def winners(self):
        """(table module, table) -> key -> list of site keys of all contributions."""
        tabs = {}
        for m in self.modules.values():
            for e in m['entries']:
                tabs.setdefault((e['m'], e['tb']), {}).setdefault(json.dumps(e['key'], sort_keys=True), []).append((m['m'], key(e['s'])))
        return tabs


def pykey(k):
    k = json.loads(k) if isinstance(k, str) else k
    return univ.ObjectIdentifier(tuple(k['o'])) if 'o' in k else univ.Integer(int.from_bytes(bytes(k['i']), 'big', signed=True))


def showkey(k):
    k = json.loads(k) if isinstance(k, str) else k
    return '.'.join(map(str, k['o'])) if 'o' in k else str(int.from_bytes(bytes(k['i']), 'big', signed=True))


def implkey(o):
    ro = o.readOnly
    out = [type(o)]
    for n in sorted(ro):
        v = ro[n]
        if n in ('componentType',):
            out.append(id(v))
        elif n == 'tagSet':
            out.append(tuple((t.tagClass, t.tagFormat, t.tagId) for t in v.superTags))
        elif n == 'encoding':
            out.append(v)
        else:
            out.append(repr(v))
    return tuple(out)


class Report(object):
    def __init__(self):
        self.failures, self.count, self.samples, self.extra = [], 0, [], []

    def fail(self, **kw):
        self.failures.append(kw)


def pairs(index, rep, start=None):
    """All (site, implementation object, way to reach it) pairs, each once."""
    todo, seen, out = [], set(), []
    for m in sorted(index.modules):
        if start is not None and m not in start:
            continue
        try:
            mod = module(m)
        except Exception as e:
            rep.fail(site=m, what='module does not import: ' + errtext(e))
            continue
        for t in sorted(index.modules[m]['types'], key=lambda t: t['n']):
            c = getattr(mod, t['n'], None)
            if c is None:
                rep.fail(site='%s.%s' % (m, t['n']), what='type is not exported')
                continue
            try:
                o = c()
            except Exception as e:
                rep.fail(site='%s.%s' % (m, t['n']), what='type cannot be instantiated: ' + errtext(e))
                continue
            todo.append((key(t['s']), o, '%s.%s' % (m, t['n'])))
    for (tm, tb), keys in sorted(index.winners().items()) if start is None else ():
        table = getattr(module(tm), tb, None)
        if table is None:
            rep.fail(site='%s.%s' % (tm, tb), what='open type table is not exported')
            continue
        for k, cands in sorted(keys.items()):
            if len(set(s for _, s in cands)) != 1:
                continue   # which entry wins is for the registry model to say
            o = table.get(pykey(k))
            if o is None:
                rep.fail(site='%s.%s[%s]' % (tm, tb, showkey(k)), what='open type table lacks the entry')
                continue
            todo.append((cands[0][1], o, '%s.%s[%s]' % (tm, tb, showkey(k))))
    todo.reverse()
    while todo:
        sk, o, how = todo.pop()
        try:
            ik = (sk, implkey(o))
        except Exception as e:
            rep.fail(site=sk, how=how, what='not a schema object: ' + errtext(e))
            continue
        if ik in seen:
            continue
        seen.add(ik)
        site = index.sites.get(sk)
        if site is None:
            raise tlc.SpecError('site %s was not visited by the model' % sk)
        out.append((sk, o, how))
        k = site['k']
        if kind(o) != k:
            rep.fail(site=sk, how=how, what='%s is of kind %s, not %s' % (how, kind(o), k))
            continue
        if k in ('SEQ', 'SET', 'CHOICE'):
            for n, kid in zip(site['comps'], site['kids']):
                try:
                    c = o.componentType[n].asn1Object
                except Exception:
                    rep.fail(site=sk, how=how, what='%s has no component %s' % (how, n))
                    continue
                todo.append((kid, c, how + '.' + n))
            for n in o.componentType:
                if n not in site['comps']:
                    rep.extra.append(dict(site=sk, how=how, what='%s has a component %s, which the RFC does not give it' % (how, n)))
        elif k in ('SEQOF', 'SETOF'):
            if o.componentType is None:
                rep.fail(site=sk, how=how, what='%s has no element type' % how)
            else:
                todo.append((site['kids'][0], o.componentType, how + '[]'))
    return out


def encode_one(o, p):
    """Build and encode; returns bytes."""
    return der_encode(build(o, p['v']))


def redundant(v, got):
    """pyasn1 0.5.1 writes -128, -32768, -2^31... with one octet too many: not this repository's doing."""
    if 'i' not in v:
        return False
    n = int.from_bytes(bytes(v['i']), 'big', signed=True)
    return n < -1 and bytes(v['i'])[0] == 128 and not any(bytes(v['i'])[1:]) and got.endswith(b'\xff' + bytes(v['i']))


def probe(o, p, modes):
    """None, or what is wrong.  modes: which halves of the use to judge."""
    k = p['k']
    if k in ('val', 'enc'):
        der = octets(p['der'])
        if 'enc' in modes:
            try:
                got = encode_one(o, p)
            except Exception as e:
                return 'a legal value cannot be built and encoded (%s)' % errtext(e)
            if got != der and not redundant(p['v'], got):
                return 'encodes to %s instead of %s' % (short(got.hex()), short(der.hex()))
        if 'dec' in modes and k == 'val':
            try:
                v, rest = der_decode(der, asn1Spec=o)
            except Exception as e:
                return 'a legal message is not decoded (%s)' % errtext(e)
            if rest:
                return 'decoding leaves %s' % short(rest.hex())
            try:
                match(v, p['full'])
            except Mismatch as e:
                return 'decoded value differs: %s' % e
            try:
                back = der_encode(v)
            except Exception as e:
                return 'a decoded message is not encoded again (%s)' % errtext(e)
            if back != der and not redundant(p['v'], back):
                return 'decoded message encodes to %s instead of %s' % (short(back.hex()), short(der.hex()))
    elif k == 'many':
        der = octets(p['pre']) + octets(p['der']) * p['n']
        if 'enc' in modes:
            try:
                got = der_encode(build(o, {'l': [p['v']] * p['n']}))
            except Exception as e:
                return 'a legal value is not built and encoded (%s)' % errtext(e)
            if got != der:
                return 'encodes to %s instead of %s' % (short(got.hex()), short(der.hex()))
        if 'dec' in modes:
            try:
                v, rest = der_decode(der, asn1Spec=o)
            except Exception as e:
                return 'a legal message is not decoded (%s)' % errtext(e)
            if rest or len(v) != p['n']:
                return 'decoding gives %d elements instead of %d' % (len(v), p['n'])
            try:
                match(v[p['n'] - 1], p['full'])
            except Mismatch as e:
                return 'decoded value differs: %s' % e
    elif k == 'dec':
        der = octets(p['der'])
        try:
            v, rest = der_decode(der, asn1Spec=o)
        except PyAsn1Error as e:
            return 'a legal message is not decoded (%s)' % errtext(e) if p['ok'] else None
        except Exception as e:
            return 'decoding fails with %s' % errtext(e)
        if not p['ok']:
            return None if rest else 'an illegal message is decoded'
        if rest:
            return 'decoding leaves %s' % short(rest.hex())
        try:
            match(v, p['full'])
        except Mismatch as e:
            return 'decoded value differs: %s' % e
    elif k == 'own':
        try:
            r = build(o, p['v'])
            r.setComponentByName(p['comp'], o.componentType[p['comp']].asn1Object)
            got = der_encode(r)
        except Exception as e:
            return 'is not encoded (%s)' % errtext(e)
        if got != octets(p['der']):
            return 'encodes to %s instead of %s' % (short(got.hex()), short(octets(p['der']).hex()))
    elif k == 'bad':
        try:
            got = encode_one(o, p)
        except Exception:      # pyasn1 0.5.1 reports some of these with a TypeError of its own
            return None
        return 'an illegal value is encoded, to %s' % short(got.hex())
    elif k == 'names':
        want = {x['n']: x['v'] for x in p['names']}
        got = {n: int(o.namedValues[n]) for n in o.namedValues}
        if set(got) - set(want):
            return 'the RFC has no name %s' % ', '.join(sorted(set(got) - set(want)))
        if set(want) - set(got):
            return 'there is no name %s' % ', '.join(sorted(set(want) - set(got)))
    elif k == 'bits':
        try:
            got = der_encode(o.clone(', '.join(p['names'])))
            if got != octets(p['der']):
                return '%s together encode to %s instead of %s' % (' and '.join(p['names']), got.hex(), octets(p['der']).hex())
            v, rest = der_decode(octets(p['der']), asn1Spec=o)
            for n in o.namedValues:
                b = int(o.namedValues[n])
                if (b < len(v) and v[b] == 1) != (n in p['names']):
                    return 'bit %s reads wrong in the value of %s' % (n, ', '.join(p['names']))
        except PyAsn1Error as e:
            return '%s cannot be used together (%s)' % (' and '.join(p['names']), errtext(e))
    elif k == 'nam':
        try:
            nv = o.namedValues
            if p['name'] not in nv:
                return 'name %s is unknown' % p['name']
            if int(nv[p['name']]) != p['num']:
                return 'name %s is %s, not %d' % (p['name'], nv[p['name']], p['num'])
            if nv.getName(p['num']) != p['name']:
                return 'number %d is %s, not %s' % (p['num'], nv.getName(p['num']), p['name'])
            if not p['legal']:
                return None
            v = o.clone(p['name'])
            got = der_encode(v)
            if got != octets(p['der']):
                return 'name %s encodes to %s instead of %s' % (p['name'], got.hex(), octets(p['der']).hex())
            v, rest = der_decode(octets(p['der']), asn1Spec=o)
            if kind(o) != 'BITS' and v.prettyPrint() != p['name']:
                return 'value %d prints as %s, not %s' % (p['num'], v.prettyPrint(), p['name'])
        except PyAsn1Error as e:
            return 'name %s cannot be used (%s)' % (p['name'], errtext(e))
    return None


_JOB = {}


def _work(i):
    index, ps, modes, want = _JOB['index'], _JOB['pairs'], _JOB['modes'], _JOB['want']
    fails, n, sites = [], 0, 0
    for j in range(i, len(ps), _JOB['n']):
        sk, o, how = ps[j]
        sites += 1
        for gp in index.sites[sk]['probes']:
            if want is not None and gp['g'] not in want:
                continue
            n += 1
            bad = probe(o, gp['p'], modes)
            if bad:
                fails.append(dict(site=sk, how=how, group=gp['g'], why=gp['p']['why'], what=bad, probe=gp['p']))
    return fails, n, sites


def replay(index, ps, modes, rep, want=None, procs=8):
    _JOB.update(index=index, pairs=ps, modes=modes, n=procs * 4, want=want)
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(procs) as pool:
        for fails, n, sites in pool.imap_unordered(_work, range(procs * 4)):
            rep.failures += fails
            rep.count += n
    return rep
