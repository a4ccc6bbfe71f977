"""Conformance of sessions (Session.tla): each is run on the types themselves; after every
step every slot must be what the specification says, and in the end all the types must be
what they were."""
import importlib, io, json, multiprocessing, os, sys, threading

from asn import *
from pyasn1_modules import pem
import tools

_J = {}


# ---- what the types are

def named(nt, memo):
    out = []
    for n in nt.namedTypes:
        o = n.openType
        out.append((n.name, n.isOptional, n.isDefaulted,
                    (o.name, tuple(sorted((str(k), show(v, memo)) for k, v in o.items()))) if o is not None else None,
                    show(n.asn1Object, memo)))
    return tuple(out)


def show(o, memo):
    """Everything a user can see of a type, as a value; types are followed once."""
    cls = o if isinstance(o, type) else type(o)
    key = id(o)
    if key in memo:
        return ('again', memo[key][1])
    memo[key] = (o, len(memo))
    out = [cls.__name__, isinstance(o, type), str(o.tagSet), str(o.subtypeSpec)]
    if issubclass(cls, (univ.SequenceAndSetBase, univ.Choice)):
        out.append(named(o.componentType, memo))
    elif issubclass(cls, univ.SequenceOfAndSetOfBase):
        out.append(show(o.componentType, memo) if o.componentType is not None else None)
    else:
        nv = getattr(o, 'namedValues', None)
        out.append(tuple(sorted((str(k), str(v)) for k, v in nv.items())) if nv else None)
    if not isinstance(o, type):
        if isinstance(o, base.ConstructedAsn1Type):
            out.append(content(o))
        else:
            out.append(str(o.isValue and o.prettyPrint()))
    return tuple(out)


def content(o):
    """Components a structure carries, without touching it."""
    if isinstance(o, univ.SequenceOfAndSetOfBase):
        try:
            n = len(o)
        except PyAsn1Error:
            return None
        return tuple(value(o.getComponentByPosition(i, default=None, instantiate=False)) for i in range(n))
    out = []
    for i in range(len(o.componentType)):
        try:
            c = o.getComponentByPosition(i, default=None, instantiate=False)
        except (PyAsn1Error, IndexError):
            c = None
        n = o.componentType[i]
        # a default that stands for itself is as good as absent
        out.append(None if n.isDefaulted and value(c) == value(n.asn1Object) else value(c))
    return tuple(out)


def value(c):
    if c is None or c is base.noValue:
        return None
    if isinstance(c, base.ConstructedAsn1Type):
        return content(c)
    return c.prettyPrint() if c.isValue else None


def surface(mod, memo):
    out = {}
    for n, o in sorted(vars(mod).items()):
        if n.startswith('_'):
            continue
        if isinstance(o, type) and issubclass(o, base.Asn1Type) or isinstance(o, base.Asn1Type):
            out[n] = show(o, memo)
        elif isinstance(o, dict):
            out[n] = tuple(sorted((str(k), show(v, memo) if isinstance(v, base.Asn1Type) else repr(v)) for k, v in o.items()))
        elif isinstance(o, (int, str, bytes, tuple, float)):
            out[n] = repr(o)
    return out


def surfaces():
    memo = {}
    return {n: {k: hash(v) for k, v in surface(m, memo).items()} for n, m in _J['mods'].items()}


def changed(before):
    now = surfaces()
    return ['%s.%s' % (n, k) for n in before for k in sorted(set(before[n]) | set(now[n])) if before[n].get(k) != now[n].get(k)]


# ---- a session

def get(x):
    return getattr(module(x[0]), x[1])()


def make(o, v):
    """Give the fresh object o the value v, component by component."""
    if 'f' in v:
        for f in v['f']:
            put(o, f['n'], f['v'])
        return o
    return build(o, v)


def twins(runs):
    """Sessions are the same for every class a type goes by."""
    for d in runs:
        seen = [getattr(module(d['a'][0]), d['a'][1], None)]
        for m, n in d.pop('aka'):
            c = getattr(module(m), n, None)
            if isinstance(c, type) and c not in seen:
                seen.append(c)
                yield dict(d, a=[m, n], b=[m, n] if d['b'] == d['a'] else d['b'])


def put(o, n, v):
    t = o.componentType[n].asn1Object
    if isinstance(t, base.ConstructedAsn1Type):
        o.setComponentByName(n)
        fill(o.getComponentByName(n), v)
    else:
        o[n] = pyscalar(t, v)


class Session(object):
    def __init__(self, d):
        self.d, self.slots = d, {}

    def step(self, st):
        op, d = st['op'], self.d
        pair = {1: d['a'], 2: d['b']}
        if op == 'put':
            self.slots[st['s']] = [build(get(pair[st['k']]), st['v']), st]
        elif op == 'make':
            self.slots[st['s']] = [make(get(pair[st['k']]), st['v']), st]
        elif op == 'dec':
            o, rest = der_decode(octets(st['der']), asn1Spec=get(pair[st['k']]))
            if rest:
                raise Mismatch('%d octets left over' % len(rest))
            match(o, st['full'])
            self.slots[st['s']] = [o, st]
        elif op == 'bad':
            try:
                der_decode(octets(st['octs']), asn1Spec=get(pair[st['k']]))
            except Exception:
                return
            raise Mismatch('truncated octets are decoded')
        elif op == 'try':
            o = get(pair[st['k']])
            for f in (lambda: der_encode(o), lambda: o.prettyPrint(), lambda: [o[n] for n in o.componentType], lambda: der_encode(o), lambda: o.clone(),
                      lambda: o.subtype(), lambda: o.clear()):
                try:
                    f()
                except Exception:
                    pass
        elif op == 'peek':
            try:
                o, rest = der_decode(octets(st['octs']), asn1Spec=get(pair[st['k']]), decodeOpenTypes=True)
                der_encode(o)
                o.prettyPrint()
            except Exception:
                pass
        elif op == 'copy':
            o = self.slots[st['s']][0]
            try:
                c = o.clone(cloneValueFlag=True)
            except PyAsn1Error:      # pyasn1 clones lists with a size and unset alternatives badly
                c, _ = der_decode(der_encode(o), asn1Spec=o.clone())
            self.slots[st['d']] = [c, st]
        elif op == 'set':
            o = self.slots[st['s']][0]
            put(o, st['i'], st['v'])
            self.slots[st['s']][1] = st
        elif op == 'append':
            o = self.slots[st['s']][0]
            t = o.componentType
            if isinstance(t, base.ConstructedAsn1Type):
                n = len(o)
                o.setComponentByPosition(n)
                fill(o.getComponentByPosition(n), st['v'])
            else:
                o.append(pyscalar(t, st['v']))
            self.slots[st['s']][1] = st
        elif op == 'inner':
            o = self.slots[st['s']][0]
            put(o[st['i']], st['j'], st['v'])
            self.slots[st['s']][1] = st
        elif op == 'read':
            o = self.slots[st['s']][0]
            if st['has']:
                c = o[st['i']]
                if not st['deep'] or self.has(o, st['i']):
                    match(c, st['full'], st['i'])
            else:
                c = o.getComponentByName(st['i'], default=None, instantiate=False)
                if c is not None and c.isValue and not st['deep']:
                    raise Mismatch('%s is present' % st['i'])
        elif op == 'pem':
            o = self.slots[st['s']][0]
            b = der_encode(o)
            text = 'x\n-----BEGIN X-----\n%s\n-----END X-----\nx\n' % tools.wrap(b, 64, '\n')
            marks = [('-----BEGIN %s-----' % k, '-----END %s-----' % k) for k in st['marks']]
            if st['torn']:
                ix, got = pem.readPemBlocksFromFile(io.StringIO(text[:-16]), *marks)
                if ix != st['ix'] or got:
                    raise Mismatch('a block cut short is read as %r, %r' % (ix, got))
                try:
                    pem.readPemBlocksFromFile(io.StringIO(text.replace('-----END X', 'A\n-----END X')), *marks)
                except Exception:
                    pass
            ix, got = pem.readPemBlocksFromFile(io.StringIO(text), *marks)
            if ix != st['ix'] or got != octets(st['der']):
                raise Mismatch('armoured and read back as %r, %s instead of %s' % (ix, short(got.hex()), short(octets(st['der']).hex())))
            if pem.readBase64fromText(tools.wrap(b, 1 << 20, '')) != b:
                raise Mismatch('read back from base64 otherwise')
        elif op == 'use':
            for c in st['all']:
                o = getattr(module(st['m']), c['n'])
                match(o, c['v'], c['n'])
                for i in range(2):
                    if der_encode(o) != octets(c['der']):
                        raise Mismatch('%s.%s is written otherwise' % (st['m'], c['n']))
                    o.prettyPrint()
        elif op == 'wipe':
            self.slots.pop(st['s'], None)
        elif op == 'show':
            if st['s'] in self.slots:
                self.slots[st['s']][0].prettyPrint()
                repr(self.slots[st['s']][0])

    def has(self, o, n):
        c = o.getComponentByName(n, default=None, instantiate=False)
        return c is not None and c.isValue

    def look(self):
        for s, (o, st) in sorted(self.slots.items()):
            got = der_encode(o)
            if got != octets(st['der']):
                raise Mismatch('slot %d is %s, not %s' % (s, short(got.hex()), short(octets(st['der']).hex())))

    def run(self):
        """None, or what is wrong and at which step."""
        d = self.d
        for i, st in enumerate(d['steps'] + [dict(x, s=x['s'] + 3) for x in d['again']]):
            try:
                self.step(st)
                self.look()
            except Mismatch as e:
                return 'step %d (%s): %s' % (i + 1, st['op'], e)
            except Exception as e:
                return 'step %d (%s) fails with %s' % (i + 1, st['op'], errtext(e))
        return None


TWICE = ('rfc6211', 'CMSAlgorithmProtection')


def known(d, bad):
    """The listed finding: a value of this type does not encode twice."""
    return _J['twice'] and 'Error encoding <CMSAlgorithmProtection' in bad and TWICE in (tuple(d['a']), tuple(d['b']))


def failure(d, bad, how=''):
    return dict(site='.'.join(d['a']), how=how, why=' '.join(s['op'] for s in d['steps']), what=bad, case=d)


def _work(i):
    fails, n, before, hangs = [], 0, _J['before'], 0
    mine = _J['runs'][i::_J['n']]
    cut = len(mine) - len(mine) // 4
    for d in mine[:cut]:
        n += 1
        if hangs > 2:
            break
        try:
            bad = within(60, Session(d).run)
        except Hang:
            bad, hangs = 'never ends', hangs + 1
        if bad and not known(d, bad):
            fails.append(failure(d, bad, 'with %s.%s' % tuple(d['b'])))
    if hangs:
        return fails, n
    # the rest four at a time
    old = sys.getswitchinterval()
    sys.setswitchinterval(2e-6)
    try:
        got = []

        def some(ds):
            for d in ds:
                got.append((d, Session(d).run()))
        ts = [threading.Thread(target=some, args=(mine[cut + k::4],), daemon=True) for k in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(400)
        if any(t.is_alive() for t in ts):
            fails.append(dict(site='', how='', why='sessions side by side', what='never end', case={}))
            return fails, n
    finally:
        sys.setswitchinterval(old)
    n += len(got)
    for d, bad in got:
        if bad and not known(d, bad):
            # alone?
            alone = Session(d).run()
            fails.append(failure(d, bad, 'with %s.%s%s' % (d['b'][0], d['b'][1], '' if alone else ', others running')))
    what = changed(before)
    if what:
        fails.append(dict(site=what[0], how='after %d sessions' % n, why='', what='%s %s been changed by using values' % (
            ', '.join(what[:6]), 'has' if len(what) == 1 else 'have'), case=dict(sessions=mine[:3])))
    return fails, n


def replay(lines, twice, procs=8):
    runs = [json.loads(l[8:]) for l in lines if l.startswith('SESSION ')]
    runs += list(twins(runs))
    mods = {}
    for f in sorted(os.listdir(os.path.join(REPO, 'pyasn1_modules'))):
        if f.endswith('.py') and f != '__init__.py':
            mods[f[:-3]] = module(f[:-3])
    _J.update(twice=twice, runs=runs, n=procs, mods=mods)
    _J['before'] = surfaces()
    fails, n = [], 0
    with multiprocessing.get_context('fork').Pool(procs) as pool:
        for f, k in pool.imap_unordered(_work, range(procs)):
            fails += f
            n += k
    return fails, n, runs
