#!/opt/venv/bin/python
"""check.py PROPERTY [quick|thorough] | check.py replay FILE"""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True
EVID = os.path.join(VERIF, 'evidence')


def main():
    if sys.argv[1] == 'replay':
        import props
        return props.replay_file(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    path = os.path.join(EVID, prop + '.json')
    if os.path.exists(path):
        os.remove(path)
    try:
        import props
        res = props.CHECKS[prop](tier, seed)
    except Exception as e:
        import tlc
        if isinstance(e, tlc.SpecError):
            print('ERROR: ' + str(e))
            return 2
        traceback.print_exc()
        if not from_repo(e):
            return 2
        # the code under test fell over where the specification says it works
        res = props.Result()
        res.failures.append(dict(what='the implementation fails with %s: %s' % (type(e).__name__, str(e)[:300]),
                                 trace=traceback.format_exc()[-3000:]))
        res.coverage = dict(states=1, transitions=1, traces_validated_against_impl=1, samples=['the run ended early'])
    for f in res.findings:
        print('KNOWN-FINDING: property=%s %s: %s (%s)' % (prop, f['where'], f['what'], f['id']))
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for i, f in enumerate(res.failures):
        if i >= 20:
            print('... and %d more' % (len(res.failures) - i))
            break
        rp = os.path.join(rdir, '%s-%d.json' % (prop, i))
        with open(rp, 'w') as h:
            json.dump(dict(f, property=prop, tier=tier, seed=seed), h, indent=1, default=repr)
        print('%s: %s: %s' % (prop, ' '.join(str(f[k])[:200] for k in ('how', 'site', 'why') if k in f), str(f['what'])[:400]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    ev = dict(property=prop, tier=tier, seed=seed, level=res.level, coverage=res.coverage,
              assumptions=res.assumptions, wall_s=round(time.time() - t0, 2), violations=len(res.failures))
    with open(path, 'w') as h:
        json.dump(ev, h, indent=1, default=repr)
    print('%s %s: %s in %.1f s' % (prop, tier, 'FAILED' if res.failures else 'ok', ev['wall_s']),
          json.dumps({k: v for k, v in res.coverage.items() if isinstance(v, (int, float))}))
    return 1 if res.failures else 0


def from_repo(e):
    """Was the exception raised while code of /repo (or pyasn1 on its behalf) was running?"""
    from asn import REPO
    tb, seen = e.__traceback__, False
    while tb:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.realpath(REPO) + '/'):
            seen = True
        tb = tb.tb_next
    return seen


if __name__ == '__main__':
    sys.exit(main())
