"""Messages the repository's own tests carry: recorded from the tests as they run."""
import io, json, os, subprocess, sys, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')


def record():
    """[(module, type, octets)] of the DER messages decoded as exported types."""
    try:
        p = run_tests()
    except subprocess.TimeoutExpired:
        return []
    out = p.stdout.decode()
    i = out.rfind('\nCORPUS ')
    return [tuple(x) for x in json.loads(out[i + 8:])] if i >= 0 else []


def run_tests():
    return subprocess.run([sys.executable, '-B', os.path.abspath(__file__)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       cwd=REPO, env=dict(os.environ, VERIF_REPO=REPO), timeout=300)


def study(ids, tier):
    """The specification's reading of the recorded messages: [(module, type, octets, reading)], TLC statistics."""
    import tlc
    limit = 4000 if tier == 'quick' else 8000
    c = [x for x in record() if len(x[2]) < 2 * limit]
    if not c:
        return [], {}
    with tempfile.NamedTemporaryFile('w', suffix='.json') as f:
        json.dump([dict(m=m, n=n, octs=list(bytes.fromhex(h))) for m, n, h in c], f)
        f.flush()
        try:
            lines, st = tlc.run('Corpus', '\n'.join([
                'SPECIFICATION Spec', 'CONSTANTS', '  Deviations = ' + tlc.tla(set(ids)), '  Salts = {1}',
                'INVARIANTS Same', 'CHECK_DEADLOCK FALSE']), env=dict(CORPUS=f.name), workers=4, timeout=400)
        except subprocess.TimeoutExpired:
            return [], {}
    out = []
    for l in lines:
        d = json.loads(l[7:])
        out.append(c[d['i'] - 1] + (d,))
    return sorted(out, key=lambda x: x[:3]), st


def judge(found, modes, rep):
    """Messages read and values written as the specification says."""
    import codec
    from asn import module
    for m, t, h, d in found:
        if not d['ok'] or d['rest'] or not d['legal']:
            continue
        p = dict(k='val', v=d['v'], full=d['v'], der=d['der'], why='recorded message')
        try:
            bad = codec.probe(getattr(module(m), t)(), p, modes)
        except Exception as e:
            bad = 'fails with %s' % type(e).__name__
        rep.count += 1
        if bad:
            rep.fail(site='%s.%s' % (m, t), how='%s.%s' % (m, t), why='recorded message', what=bad, message=h)
    return rep


def judge_open(found, rep):
    from asn import module, der_decode, der_encode, errtext, short, octets
    for f in sorted(os.listdir(os.path.join(REPO, 'pyasn1_modules'))):
        if f.startswith('rfc') and f.endswith('.py'):
            try:
                module(f[:-3])
            except Exception:
                pass
    for m, t, h, d in found:
        if not d['ok'] or not d['legal'] or d['open'] == 'no':
            continue
        rep.count += 1
        bad = None
        try:
            v, rest = der_decode(bytes.fromhex(h), asn1Spec=getattr(module(m), t)(), decodeOpenTypes=True)
            back = der_encode(v)
            if rest:
                bad = 'decoding leaves %s' % short(rest.hex())
            elif d['open'] == 'yes' and back != octets(d['der']):
                bad = 'encodes to %s instead of %s' % (short(back.hex()), short(octets(d['der']).hex()))
        except Exception as e:
            bad = 'is not decoded and encoded again (%s)' % errtext(e)
        if bad:
            rep.fail(site='%s.%s' % (m, t), how='%s.%s' % (m, t), why='recorded message with open types on', what=bad, message=h)
    return rep


def main():
    import unittest
    sys.path.insert(0, REPO)
    from pyasn1.codec.der import decoder
    real, seen = decoder.decode, {}

    def decode(substrate, *a, **k):
        spec = k.get('asn1Spec', a[0] if a else None)
        try:
            t = type(spec)
            octs = substrate if isinstance(substrate, bytes) else substrate.asOctets()
            if t.__module__.startswith('pyasn1_modules.') and spec.tagSet == t().tagSet and len(octs) < 20000:
                seen[(t.__module__[15:], t.__name__, octs.hex())] = 1
        except Exception:
            pass
        return real(substrate, *a, **k)

    decoder.decode = decode
    os.chdir(REPO)
    suite = unittest.defaultTestLoader.discover(os.path.join(REPO, 'tests'), pattern='test_*.py', top_level_dir=REPO)
    unittest.TextTestRunner(stream=io.StringIO(), verbosity=0).run(suite)
    print('\nCORPUS ' + json.dumps(sorted(seen)))


if __name__ == '__main__':
    main()
