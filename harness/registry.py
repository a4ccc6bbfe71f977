"""Conformance of import histories (Registry.tla, RegistryTrace.tla)."""
import json, multiprocessing, os, subprocess, sys, tempfile, threading

import tlc
from asn import *
import codec, values


def histories(lines):
    return [json.loads(l[8:]) for l in lines if l.startswith('HISTORY ')]


def keyform(k):
    if isinstance(k, univ.ObjectIdentifier):
        return {'o': [int(x) for x in k]}
    n = int(k)
    w = max(1, (n.bit_length() + 8) // 8)
    return {'i': list(n.to_bytes(w, 'big', signed=True))}


def _probes(job, site, few):
    ps = [p for p in job['probes'].get(site, ()) if p['k'] == 'val']
    return ps[:2] if few else ps


def shaped(job, o, site, depth=3):
    """Does the object consist of what the specification has at the site?"""
    d = job['sites'][site]
    if kind(o) != d['k']:
        return False
    try:
        if d['k'] in ('SEQ', 'SET', 'CHOICE'):
            if sorted(o.componentType) != sorted(d['comps']):
                return False
            kids = [o.componentType[n].asn1Object for n in d['comps']]
        elif d['k'] in ('SEQOF', 'SETOF'):
            kids = [o.componentType]
        else:
            return True
    except Exception:
        return False
    return depth == 0 or all(shaped(job, k, s, depth - 1) for k, s in zip(kids, d['kids']))


def fits(job, tm, tb, k, o):
    """Contributions [module, index] whose type the object behaves like."""
    cands = job['cands'].get('%s.%s %s' % (tm, tb, json.dumps(k, sort_keys=True)), [])
    out, seen = [], {}
    for m, i, site, kd in cands:
        if site not in seen:
            ok = kind(o) == kd and (len(cands) == 1 or shaped(job, o, site))
            if ok:
                for p in _probes(job, site, len(cands) == 1):
                    try:
                        if codec.probe(o, p, {'enc', 'dec'}):
                            ok = False
                            break
                    except Exception:
                        ok = False
                        break
            seen[site] = ok
        if seen[site]:
            out.append([m, i])
    return out


JOB = {}


def at_once(hist, parts=4):
    """Import the modules on several threads, each its share in the order given."""
    bad = []

    def work(ms):
        try:
            for m in ms:
                module(m)
        except BaseException as e:
            bad.append(e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(hist[i::parts],), daemon=True) for i in range(parts)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(200)
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in ts):
        raise RuntimeError('imports on several threads wait for each other')
    if bad:
        raise bad[0]


def follow(hist, deep):
    """Follow one history in this (fresh) process; the events, and what else went wrong."""
    job = JOB
    events, known = [], {}
    before = set()
    for a in hist[:1] if deep == 'threads' else hist:
        ev = dict(asked=a, ran=[], err='', added=[], changed=[], removed=[])
        try:
            if deep == 'threads':
                at_once(hist)
            else:
                module(a)
        except Exception as e:
            ev['err'] = errtext(e)
        names = [n[len('pyasn1_modules.'):] for n in sys.modules if n.startswith('pyasn1_modules.rfc')]
        ev['ran'] = [n for n in names if n not in before]
        before.update(names)
        now = {}
        for m, ts in job['tables'].items():
            if m not in before:
                continue
            for tb in ts:
                t = getattr(module(m), tb, None)
                if t is None:
                    continue
                for k in t:
                    now[(m, tb, tuple(k) if isinstance(k, univ.ObjectIdentifier) else int(k))] = (keyform(k), t[k])
        for kk, (k, o) in now.items():
            if kk not in known or known[kk][1] is not o:
                e = dict(m=kk[0], tb=kk[1], key=k, fits=fits(job, kk[0], kk[1], k, o))
                ev['added' if kk not in known else 'changed'].append(e)
        for kk, (k, o) in known.items():
            if kk not in now:
                ev['removed'].append(dict(m=kk[0], tb=kk[1], key=k))
        known = now
        events.append(ev)
        if ev['err']:
            break
    fails, n = [], 0
    if deep in ('own', 'all'):      # every schema and every value still mean what they should
        class Ix(object):
            pass
        ix = codec.Index([])
        ix.sites, ix.modules = job['sites'], job['modules']
        rep = codec.Report()
        for sk, o, how in codec.pairs(ix, rep, start=set(hist) if deep == 'own' else None):
            for gp in ix.sites[sk]['probes']:
                if gp['p']['k'] == 'many' or len(gp['p'].get('der', ())) > 500 or (deep == 'all' and gp['g'] != 'val'):
                    continue
                n += 1
                bad = codec.probe(o, gp['p'], {'enc', 'dec'})
                if bad:
                    fails.append(dict(site=sk, how=how, why=gp['p']['why'], what='after these imports, ' + bad, probe=gp['p']))
        for m in hist:
            for d in job['values'].get(m, ()):
                n += 1
                bad = values.one(d)
                if bad:
                    fails.append(dict(site='%s.%s' % (m, d['n']), what='after these imports, ' + bad, value=d))
        fails += rep.failures
    return events, fails[:20], n, deep


def child(jobfile, outfile):
    JOB.update(json.load(open(jobfile)))
    import gc
    gc.freeze()
    ctx = multiprocessing.get_context('fork')
    assert not [n for n in sys.modules if n.startswith('pyasn1_modules.rfc')]
    with ctx.Pool(8, maxtasksperchild=1) as pool:
        rs = [pool.apply_async(follow, (h, d)) for h, d in JOB['histories']]
        out = [r.get() for r in rs]
    with open(outfile, 'w') as f:
        json.dump(out, f)


def record(index, hists, vals):
    """hists: [(history, deep)]; runs them in fresh processes.  deep: look at the 'tables' only,
    import on several 'threads' and look at the tables,
    at the modules' 'own' types and values too, or at 'all' types and values."""
    cands, kinds = {}, {}
    for m in sorted(index.modules):
        for i, e in enumerate(index.modules[m]['entries'], 1):
            s = codec.key(e['s'])
            cands.setdefault('%s.%s %s' % (e['m'], e['tb'], json.dumps(e['key'], sort_keys=True)), []).append(
                [m, i, s, index.sites[s]['k']])
    job = dict(tables={m: [t[0] for t in d['tables'] if t[1] == m] for m, d in index.modules.items()}, cands=cands,
               probes={s: [gp['p'] for gp in d['probes'] if gp['g'] == 'val'] for s, d in index.sites.items()},
               sites=index.sites, modules=index.modules, histories=hists, values=vals)
    with tempfile.TemporaryDirectory(prefix='vreg-') as d:
        with open(d + '/job', 'w') as f:
            json.dump(job, f)
        subprocess.run([sys.executable, '-B', os.path.abspath(__file__), 'child', d + '/job', d + '/out'], check=True, timeout=800)
        return json.load(open(d + '/out'))


def validate(recorded):
    with tempfile.TemporaryDirectory(prefix='vreg-') as d:
        with open(d + '/trace.json', 'w') as f:
            json.dump([r[0] for r in recorded], f)
        return tlc.run('RegistryTrace', '\n'.join([
            'SPECIFICATION TSpec', 'CONSTANTS', '  Deviations = {}', '  Mode = "trace"', '  MaxSteps = 0', '  Seconds = ""',
            'INVARIANTS TContents', 'CHECK_DEADLOCK FALSE']), env={'TRACE': d + '/trace.json'})


if __name__ == '__main__':
    child(sys.argv[2], sys.argv[3])
