"""One function per property: runs the specification, replays it on the implementation."""
import json, os, sys
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

import ber, codec, corpus, findings, opentypes, pemio, registry, share, tlc, clients, session, tools, values
from asn import *

class Result(object):
    """What a check found: failures (dicts with 'what'), coverage, samples, findings seen."""

    def __init__(self, level='model_checking'):
        self.failures, self.coverage, self.assumptions, self.level = [], {}, [], level
        self.findings = []

    def stats(self, st):
        for k in ('states', 'transitions'):
            self.coverage[k] = self.coverage.get(k, 0) + st.get(k, 0)


def seen_findings(res, prop):
    ids = set(findings.present())
    for f in findings.listed():
        if f['id'] in ids and prop in f['props']:
            res.findings.append(f)
    return ids


def codec_check(prop, groups, modes, text, salts=None):
    """groups: probe groups of Probes.tla; modes: 'enc' and/or 'dec' halves to judge."""
    def run(tier, seed):
        res = Result()
        ids = seen_findings(res, prop)
        dev = [i for i in ids if i in findings.SPEC_IDS]
        with ThreadPoolExecutor(2) as ex:
            met = ex.submit(corpus.study, dev, tier) if 'val' in groups else None
            lines, st = tlc.run('Codec', codec.cfg(groups, dev, tier=tier, seed=seed))
        res.stats(st)
        index = codec.Index(lines)
        rep = codec.Report()
        ps = codec.pairs(index, rep)
        walk = list(rep.failures)
        if 'rej' in groups:
            rep.failures += rep.extra
        codec.replay(index, ps, modes, rep)
        if met:
            found, st = met.result()
            res.stats(st)
            corpus.judge(found, modes, rep)
            res.coverage.update(recorded_messages=len(found))
        res.failures = rep.failures
        gc = Counter()
        for sk, o, how in ps:
            for gp in index.sites[sk]['probes']:
                gc[gp['g'] + ':' + gp['p']['k']] += 1
        samples = []
        for sk, o, how in ps[::max(1, len(ps) // 5)][:6]:
            for gp in index.sites[sk]['probes'][:1]:
                samples.append(dict(site=sk, object=how, probe=gp['p']))
        res.coverage.update(sites=len(index.sites), objects=len(ps), traces_validated_against_impl=rep.count,
                            probes_by_kind=dict(gc), samples=samples or ['none'], walk_failures=len(walk))
        res.assumptions = ['the transcription of the RFCs in spec/schema', 'pyasn1 0.5.1', text]
        if rep.count < 100 and not res.failures:
            raise tlc.SpecError('only %d probes were replayed' % rep.count)
        return res
    return run


def values_lines(ids):
    return tlc.run('Values', '\n'.join([
        'SPECIFICATION Spec', 'CONSTANTS', '  Deviations = ' + tlc.tla(set(i for i in ids if i in findings.SPEC_IDS)),
        '  Salts = {1}', '  StartModules <- Modules', 'INVARIANTS Typed RoundTrip Agree RootsOk', 'CHECK_DEADLOCK FALSE']), workers=4)


def values_check(tier, seed):
    res = Result()
    ids = seen_findings(res, 'C06')
    lines, st = values_lines(ids)
    res.stats(st)
    if values.replay(lines, res) < 1500:
        raise tlc.SpecError('too few values')
    res.assumptions = ['the transcription of the RFCs in spec/schema']
    return res


def opentypes_check(tier, seed):
    res = Result()
    ids = set(seen_findings(res, 'C07')) & set(findings.SPEC_IDS)
    with ThreadPoolExecutor(3) as ex:
        met = ex.submit(corpus.study, ids, tier)
        walk = ex.submit(tlc.run, 'Codec', codec.cfg([], ids, tier='quick', seed=seed), workers=2)
        cases = ex.submit(tlc.run, 'OpenTypes', '\n'.join([
            'SPECIFICATION Spec', 'CONSTANTS', '  Deviations = ' + tlc.tla(ids),
            '  Salts = ' + tlc.tla(codec.salts(tier, seed)), 'INVARIANTS RoundTrip Payload Governed Entries', 'CHECK_DEADLOCK FALSE']))
        index = codec.Index(walk.result()[0])
        res.stats(walk.result()[1])
        res.stats(cases.result()[1])
        sites, cs, entries = opentypes.load(cases.result()[0])
    rep = codec.Report()
    ps = codec.pairs(index, rep)
    rep.failures = [f for f in rep.failures if 'open type table' in f['what'] or 'import' in f['what']]
    opentypes.lookups(entries, rep)
    reached, todo = opentypes.replay(sites, cs, ps, rep)
    found, st = met.result()
    res.stats(st)
    corpus.judge_open(found, rep)
    res.coverage.update(recorded_messages=len(found))
    res.failures = rep.failures
    res.coverage.update(open_sites=len(sites), table_entries=len(entries), reached=len(reached), traces_validated_against_impl=rep.count,
                        samples=[dict(how=h, case=ds[0]) for o, h, ds in todo[::max(1, len(todo) // 5)][:5]])
    res.assumptions = ['the transcription of the RFCs in spec/schema', 'pyasn1 0.5.1']
    if rep.count < 100 and not res.failures:
        raise tlc.SpecError('only %d messages were replayed' % rep.count)
    return res


def registry_check(tier, seed):
    res = Result()
    quick = tier == 'quick'
    base = ['SPECIFICATION Spec', 'CONSTANTS', '  Deviations = {}',
            'INVARIANTS Contents Winner Closed StaticOk', 'PROPERTIES Grows', 'CHECK_DEADLOCK FALSE']
    n = 6 if quick else 60
    with ThreadPoolExecutor(3) as ex:
        ids = findings.SPEC_IDS
        present = ex.submit(in_child, 'findings.present()')
        rnd = ex.submit(tlc.run, 'Registry', '\n'.join(base + ['CONSTANTS Mode = "random" MaxSteps = 200 Seconds = ""']),
                        workers=1, extra=['-simulate', 'num=%d' % n, '-depth', '200', '-seed', str(seed)])
        bfs = ex.submit(tlc.run, 'Registry', '\n'.join(base + ['CONSTANTS Mode = "all" MaxSteps = 2 Seconds = ' + ('"contested"' if quick else '"all"')]), workers=4)
        dev = [i for i in present.result() if i in ids]
        vals = ex.submit(values_lines, dev)
        lines, st = tlc.run('Codec', codec.cfg(['val', 'bnd', 'def', 'nam'], dev, tier='quick', seed=seed), workers=4)
        res.stats(st)
        index = codec.Index(lines)
        full = registry.histories(rnd.result()[0])
        short = registry.histories(bfs.result()[0])
        res.stats(rnd.result()[1])
        res.stats(bfs.result()[1])
    full += [sorted(index.modules), sorted(index.modules, reverse=True)]
    if not quick and len(short) > 3000:
        short = short[::len(short) // 3000]
    alone = [[m] for m in sorted(index.modules)]
    recorded = registry.record(index, [(h, 'all') for h in full] + [(h, 'threads') for h in full * 3] + [(h, 'own') for h in alone] + [(h, 'tables') for h in short],
                               values.by_module(vals.result()[0]))
    lines, st = registry.validate(recorded)
    res.stats(st)
    hs = full + full * 3 + alone + short
    for l in lines:
        if l.startswith('REJECT '):
            d = json.loads(l[7:])
            hist = hs[d['h'] - 1]
            hist = hist if recorded[d['h'] - 1][3] == 'threads' else hist[:d['pos']]
            k = d['key']
            res.failures.append(dict(site=('%s.%s[%s]' % (k['m'], k['tb'], codec.showkey(k['key']))) if k else hist[-1],
                                     why='after importing ' + short_list(hist) + (' on four threads' if recorded[d['h'] - 1][3] == 'threads' else ''), what=d['what'], history=hist))
    res.failures.sort(key=lambda f: len(f['history']))
    for h, (ev, fails, _, _) in zip(hs, recorded):
        res.failures += [dict(f, why=short_list(h) + ' ' + f.get('why', ''), history=h) for f in fails]
    res.coverage.update(histories=len(hs), full_histories=len(full), on_threads=3 * len(full), traces_validated_against_impl=len(hs),
                        events=sum(len(r[0]) for r in recorded), entries_judged=sum(len(e['added']) + len(e['changed']) for r in recorded for e in r[0]),
                        probes_after_histories=sum(r[2] for r in recorded), samples=[h[:6] for h in hs[::max(1, len(hs) // 6)]][:6])
    res.assumptions = ['histories of up to two imports, and sampled ones of all modules']
    return res


def short_list(h):
    return ', '.join(h) if len(h) < 6 else '%s, ... %s (%d imports)' % (', '.join(h[:3]), h[-1], len(h))


def in_child(expr):
    import subprocess
    out = subprocess.run([sys.executable, '-B', '-c', 'import findings, json; print(json.dumps(%s))' % expr],
                         cwd=os.path.dirname(os.path.abspath(__file__)), stdout=subprocess.PIPE, check=True).stdout
    return json.loads(out.decode().splitlines()[-1])


def share_check(tier, seed):
    res = Result()
    ids = set(seen_findings(res, 'C12')) & set(findings.SPEC_IDS)
    with ThreadPoolExecutor(2) as ex:
        walk = ex.submit(tlc.run, 'Codec', codec.cfg([], ids, tier='quick', seed=seed), workers=2)
        cases = ex.submit(tlc.run, 'Share', '\n'.join([
            'SPECIFICATION Spec', 'CONSTANTS', '  Deviations = ' + tlc.tla(ids),
            '  Salts = ' + tlc.tla(codec.salts(tier, seed)), 'INVARIANTS PutSound PutLocal SwapSound OwnSound', 'CHECK_DEADLOCK FALSE']))
        index = codec.Index(walk.result()[0])
        res.stats(walk.result()[1])
        res.stats(cases.result()[1])
        lines = cases.result()[0]
    ps = codec.pairs(index, codec.Report())
    rep = codec.Report()
    todo, owned, swaps = share.replay(lines, index, ps, rep)
    res.failures = rep.failures
    res.coverage.update(puts=len(todo) - swaps - owned, swaps=swaps, own_types=owned, traces_validated_against_impl=rep.count,
                        samples=[d for k, d, x in todo[::max(1, len(todo) // 5)][:5]])
    res.assumptions = ['the transcription of the RFCs in spec/schema', 'components declared with the plain type, without a tag of their own']
    if rep.count < 1000 and not res.failures:
        raise tlc.SpecError('only %d cases were replayed' % rep.count)
    return res


def ber_check(tier, seed):
    res = Result()
    ids = set(seen_findings(res, 'C17')) & set(findings.SPEC_IDS)
    quick = tier == 'quick'
    salts = {1} if quick else {1, 2 + seed % 80, 4 + (seed * 37) % 80}
    with ThreadPoolExecutor(2) as ex:
        walk = ex.submit(tlc.run, 'Codec', codec.cfg([], ids, tier='quick', seed=seed), workers=2)
        cases = ex.submit(tlc.run, 'Ber', '\n'.join([
            'SPECIFICATION Spec', 'CONSTANTS', '  Deviations = ' + tlc.tla(ids), '  Salts = ' + tlc.tla(salts),
            '  Uniform = ' + tlc.tla({1, 2, 67} if quick else {1, 2, 17, 30, 44, 67, 95}), '  Mixed = %d' % (2 if quick else 6),
            'INVARIANTS SameValue DerToo', 'CHECK_DEADLOCK FALSE']), heap='6g' if quick else '14g')
        index = codec.Index(walk.result()[0])
        res.stats(walk.result()[1])
        res.stats(cases.result()[1])
        lines = cases.result()[0]
    ps = codec.pairs(index, codec.Report())
    rep = codec.Report()
    todo = ber.replay(lines, ps, rep)
    res.failures = rep.failures
    res.coverage.update(messages=len(lines), objects=len(ps), traces_validated_against_impl=rep.count,
                        samples=[dict(site=codec.key(d), style=d['q'], octets=octets(d['octs']).hex()[:200]) for k, d, o, how in todo[::max(1, len(todo) // 6)]][:6])
    res.assumptions = ['the transcription of the RFCs in spec/schema', 'pyasn1 0.5.1: tagged ANYs of definite length, strings of characters in one piece']
    if rep.count < 20000 and not res.failures:
        raise tlc.SpecError('only %d messages were replayed' % rep.count)
    return res


def pem_check(tier, seed):
    res = Result()
    quick = tier == 'quick'
    lines, st = tlc.run('Pem', '\n'.join([
        'SPECIFICATION Spec', 'CONSTANTS', '  MaxLen = %d' % (5 if quick else 6),
        '  Setups = {"one", "two", "three", "shared", "same", "turns", "swap", "default"}',
        'INVARIANTS Correct Doubled Spam Held Forward LastSaysNone Blocks', 'CHECK_DEADLOCK FALSE']), heap='6g' if quick else '16g')
    res.stats(st)
    res.failures, n, calls = pemio.replay(lines, [0, 1, 2 + 2 * (seed % 13)] if quick else [0, 1, 2, 3, 6, 12, 28])
    if len(lines) < 10000 or (n < 30000 and not res.failures):
        raise tlc.SpecError('only %d texts' % n)
    # two readers at once: every order for the short texts, drawn ones for all
    base = ['SPECIFICATION Spec', 'INVARIANTS Alone', 'CHECK_DEADLOCK FALSE']
    with ThreadPoolExecutor(2) as ex:
        short = ex.submit(tlc.run, 'PemPair', '\n'.join(base + ['CONSTANTS Texts = {%s} MaxCalls = 3' % ('1, 2, 4, 5, 6' if quick else '1, 2, 4, 5, 6, 7')]), workers=4,
                          heap='3g' if quick else '12g')
        drawn = ex.submit(tlc.run, 'PemPair', '\n'.join(base + ['CONSTANTS Texts = {1, 2, 3, 4, 5, 6, 7, 8} MaxCalls = 4']), workers=1,
                          extra=['-simulate', 'num=%d' % (3000 if quick else 60000), '-depth', '40', '-seed', str(seed)])
        both = short.result()[0] + drawn.result()[0]
        res.stats(short.result()[1])
        res.stats(drawn.result()[1])
    fails, k = pemio.pairs(both)
    res.failures += fails
    if k < 10000 and not res.failures:
        raise tlc.SpecError('only %d pairs of readers' % k)
    res.coverage.update(texts=len(lines), reader_pairs=k, traces_validated_against_impl=n + k, calls=calls,
                        samples=[json.loads(l[4:]) for l in lines[::len(lines) // 5]][:5])
    res.assumptions = ['lines between markers each hold whole groups of four characters']
    return res


def armor_check(tier, seed):
    res = Result()
    quick = tier == 'quick'
    lines, st = tlc.run('Armor', '\n'.join([
        'SPECIFICATION Spec', 'CONSTANTS', '  Long = %d' % (100 if quick else 300), '  Free = %d' % (5 if quick else 8),
        'INVARIANTS RoundTrip Canonical Padding Pieces Repeated', 'CHECK_DEADLOCK FALSE']), heap='6g' if quick else '16g')
    res.stats(st)
    res.failures, n = pemio.armor(lines)
    if n < 20000 and not res.failures:
        raise tlc.SpecError('only %d readings' % n)
    res.coverage.update(texts=len(lines), traces_validated_against_impl=n,
                        samples=[l[4:200] for l in lines[::len(lines) // 5]][:5])
    res.assumptions = ['octet strings up to 1000 octets in all layouts, up to 170000 octets in regular ones']
    return res


def tools_check(prop, verdicts):
    def run(tier, seed):
        res = Result()
        ids = set(seen_findings(res, prop)) & set(findings.SPEC_IDS)
        quick = tier == 'quick'
        lines, st = tlc.run('Tools', '\n'.join([
            'SPECIFICATION Spec', 'CONSTANTS', '  Deviations = ' + tlc.tla(ids), '  Salts = {1}',
            '  MaxItems = %d' % (2 if quick else 3), '  Furnished = %d' % (24 if quick else 90), '  Many = %d' % (12 if quick else 60),
            'INVARIANTS AllTaken Sound Whole1 Stops', 'CHECK_DEADLOCK FALSE']), heap='6g' if quick else '12g')
        res.stats(st)
        res.failures, n, todo = tools.replay(lines, verdicts)
        if n < 100 and not res.failures:
            raise tlc.SpecError('only %d runs' % n)
        res.coverage.update(tools=len(set(d['tool'] for _, d, _ in todo)), traces_validated_against_impl=n,
                            processes=sum(1 for x in todo if x[2]),
                            samples=[dict(tool=d['tool'], args=d['args'], lines=[l['k'] + ' ' + l['why'] for l in d['lines']], verdict=d['verdict'])
                                     for _, d, _ in todo[::max(1, len(todo) // 8)]][:8])
        res.assumptions = ['the transcription of the RFCs in spec/schema', 'pyasn1 0.5.1', 'texts of up to %d blocks' % (2 if quick else 3)]
        return res
    return run


def clients_check(tier, seed):
    res = Result()
    ids = set(seen_findings(res, 'C16')) & set(findings.SPEC_IDS)
    many = 6 if tier == 'quick' else 150
    lines, st = tlc.run('Clients', '\n'.join([
        'SPECIFICATION Spec', 'CONSTANTS', '  Deviations = ' + tlc.tla(ids), '  Salts = {1}', '  Many = %d' % many,
        'INVARIANTS SentOnce SaysAsked Faithful Failing', 'CHECK_DEADLOCK FALSE']))
    res.stats(st)
    res.failures, n, runs = clients.replay(lines)
    if n < 100 and not res.failures:
        raise tlc.SpecError('only %d runs' % n)
    res.coverage.update(traces_validated_against_impl=n, samples=[
        dict(client=d['who'], asked=d['ask']['why'], answer=d['answer']['why'], verdict=d['verdict']) for d in runs[::max(1, len(runs) // 8)]][:8])
    res.assumptions = ['the transcription of RFC 1155, 1157, 2459 and 2560 in spec/schema', 'pyasn1 0.5.1', 'public keys of whole octets']
    return res


def session_check(tier, seed):
    res = Result()
    ids = set(seen_findings(res, 'C13')) & set(findings.SPEC_IDS)
    quick = tier == 'quick'
    free = [] if quick else FREE
    lines, st = tlc.run('Session', '\n'.join([
        'SPECIFICATION Spec', 'CONSTANTS', '  Deviations = ' + tlc.tla(ids), '  Salts = {1}',
        '  Seeds = %d' % (2 if quick else 12), '  Depth = 12', '  Free = {%s}' % ', '.join(sorted(tlc.tla('.'.join(x)) for x in free)),
        'INVARIANTS Writable', 'PROPERTIES Alone SameTypes', 'CHECK_DEADLOCK FALSE']), heap='8g' if quick else '14g')
    res.stats(st)
    res.failures, n, runs = session.replay(lines, any(f['id'] == 'KF-encode-twice-6211' for f in res.findings))
    if n < 100 and not res.failures:
        raise tlc.SpecError('only %d sessions' % n)
    res.coverage.update(traces_validated_against_impl=n, types=len(set(map(tuple, (d['a'] for d in runs)))), samples=[
        dict(types=[d['a'], d['b']], steps=[s['op'] for s in d['steps']]) for d in runs[::max(1, len(runs) // 5)]][:5])
    res.assumptions = ['the transcription of the RFCs in spec/schema', 'pyasn1 0.5.1', 'sessions of 12 steps on 3 values of 2 types']
    return res


FREE = [('rfc5275', 'GLKeyAttributes'), ('rfc2459', 'Extension'), ('rfc5280', 'AlgorithmIdentifier'), ('rfc5652', 'SignerInfo'), ('rfc4211', 'CertTemplate'),
        ('rfc2560', 'TBSRequest'), ('rfc1157', 'Message'), ('rfc2251', 'SearchRequest'), ('rfc5480', 'ECParameters'), ('rfc8018', 'PBKDF2_params'),
        ('rfc3281', 'Holder'), ('rfc5934', 'TAMPMsgRef'), ('rfc5697', 'SCVPCertID')]
CHECKS = {
    'C13': session_check,
    'C16': clients_check,
    'C14': tools_check('C14', {'ok', 'nothing', 'either'}),
    'C15': tools_check('C15', {'error', 'usage', 'nothing', 'either'}),
    'C10': pem_check,
    'C11': armor_check,
    'C12': share_check,
    'C17': ber_check,
    'C08': registry_check,
    'C06': values_check,
    'C07': opentypes_check,
    'C01': codec_check('C01', ['val', 'deep'], {'enc'}, 'values sampled per type, structure covered completely'),
    'C02': codec_check('C02', ['val', 'deep'], {'dec'}, 'values sampled per type, structure covered completely'),
    'C03': codec_check('C03', ['rej'], {'enc', 'dec'}, 'one structural fault at a time'),
    'C04': codec_check('C04', ['bnd'], {'enc', 'dec'}, 'bounds up to 70000 octets or characters'),
    'C05': codec_check('C05', ['def'], {'enc', 'dec'}, ''),
    'C09': codec_check('C09', ['nam'], {'enc', 'dec'}, ''),
}


def replay_file(path):
    f = json.load(open(path))
    print(json.dumps({k: v for k, v in f.items() if k != 'probe'}, indent=1)[:3000])
    if 'probe' in f and 'how' in f:
        # walk to the object again: module.Type.component[]...
        res = CHECKS[f['property']](f['tier'], f['seed'])
        again = [x for x in res.failures if x.get('how') == f['how'] and x.get('probe') == f['probe']]
        print('reproduced' if again else 'not reproduced', again[:1])
        return 1 if again else 0
    res = CHECKS[f['property']](f['tier'], f['seed'])
    again = [x for x in res.failures if x['what'] == f['what']]
    print('reproduced' if again else 'not reproduced')
    return 1 if again else 0
