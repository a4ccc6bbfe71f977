"""Running TLC on a module of /verif/spec and reading what it prints."""
import json, os, re, shutil, subprocess, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
TLA = '/opt/veriftools/tla'
CP = TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar'


class SpecError(Exception):
    """TLC did not accept the specification: the machinery is broken, not the code."""


def run(module, cfg, workers=8, env=None, extra=(), heap='6g', timeout=800, expect_ok=True):
    """Model check `module` with configuration text `cfg`.

    Returns (lines printed by the specification, statistics)."""
    work = tempfile.mkdtemp(prefix='vtlc-')
    try:
        with open(os.path.join(work, 'MC.cfg'), 'w') as f:
            f.write(cfg)
        cmd = ['java', '-Xmx' + heap, '-Xss128m', '-XX:+UseParallelGC',
               '-DTLA-Library=' + SPEC + ':' + os.path.join(SPEC, 'schema'),
               '-cp', CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', work + '/md',
               '-noGenerateSpecTE', '-config', os.path.join(work, 'MC.cfg')] + list(extra) + \
              [os.path.join(SPEC, module + '.tla')]
        t0 = time.time()
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=work, env=e, timeout=timeout)
        out = p.stdout.decode('utf-8', 'replace')
        stats = {'wall_s': round(time.time() - t0, 2), 'rc': p.returncode}
        # (not the "Progress" lines, which say it with thousands separators)
        m = re.findall(r'^(\d+) states generated, (\d+) distinct states found', out, re.M)
        if m:
            stats['transitions'], stats['states'] = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r'The number of states generated: (\d+)', out)
        if m and 'states' not in stats:
            stats['transitions'] = stats['states'] = int(m[-1])
        lines = []
        noise = []
        for l in out.splitlines():
            if l.startswith('"') and l.endswith('"'):
                try:
                    lines.append(json.loads(l))
                    continue
                except ValueError:
                    pass
            noise.append(l)
        stats['ok'] = p.returncode == 0
        if expect_ok and p.returncode != 0:
            raise SpecError('TLC exit %d on %s:\n%s' % (
                p.returncode, module, '\n'.join(x[:400] for x in noise if not x.startswith(('Parsing', 'Semantic', 'Linting')))[-6000:]))
        stats['text'] = '\n'.join(noise)
        return lines, stats
    finally:
        shutil.rmtree(work, ignore_errors=True)


def tla(v):
    """A Python value as a TLA+ expression."""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"')
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(sorted(tla(x) for x in v)) + '}'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, dict):
        return '[' + ', '.join('%s |-> %s' % (k, tla(x)) for k, x in v.items()) + ']'
    raise TypeError(v)
