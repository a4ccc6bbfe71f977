"""Conformance of the dump tools (Tools.tla): every run of the specification is given
to the tool itself, its standard input and output replaced by memory."""
import base64, contextlib, io, json, multiprocessing, os, re, runpy, signal, subprocess, sys, time
from collections import Counter

from asn import *
import logging

for _h in list(logging.getLogger('pyasn1').handlers):   # cmpdump -d: to nowhere
    logging.getLogger('pyasn1').removeHandler(_h)
logging.getLogger('pyasn1').addHandler(logging.NullHandler())

TOOLS = os.path.join(REPO, 'tools')
_J = {}


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def run_inside(path, args, data, limit=40):
    """Run a script in this process; (status, output, traceback tail)."""
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr, list(sys.path)
    out, err = io.BytesIO(), io.BytesIO()
    sys.argv = [path] + list(args)
    sys.stdin = io.TextIOWrapper(io.BytesIO(data), encoding='utf-8')
    sys.stdout = io.TextIOWrapper(out, encoding='utf-8', write_through=True)
    sys.stderr = io.TextIOWrapper(err, encoding='utf-8', write_through=True)
    sys.path.insert(0, os.path.dirname(path))
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)     # (seconds at work: the machine may be busy)
    signal.alarm(6 * limit)
    why = ''
    try:
        try:
            runpy.run_path(path, run_name='__main__')
            status = 0
        except SystemExit as e:
            status = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            why = '' if e.code is None or isinstance(e.code, int) else str(e.code)
        except Hang:
            status, why = 'hang', 'still running after %d s' % limit
        except BaseException as e:
            status, why = 1, errtext(e)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.alarm(0)
        sys.stdout.flush()
        text = out.getvalue().decode('utf-8', 'replace')
        why += err.getvalue().decode('utf-8', 'replace')[-2000:] if not why else ''
        return status, text, why
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr, sys.path[:] = old
        from pyasn1 import debug
        debug.setLogger(0)


def run_outside(path, args, data, limit=300):
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8')
    try:
        p = subprocess.run([sys.executable, '-B', path] + list(args), input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=env, timeout=limit, cwd=os.path.dirname(os.path.abspath(__file__)))
    except subprocess.TimeoutExpired:
        return 'hang', '', 'still running after %d s' % limit
    return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')[-2000:]


def wrap(b, width, eol):
    t = base64.b64encode(b).decode()
    return eol.join(t[i:i + width] for i in range(0, len(t), width))


# lines outside blocks: what people and programs write around them
JUNK = (['subject: CN = someone, 2 May', ''], ['Bag Attributes', '    localKeyID: 01 00 2D', 'Key Attributes: <No Attributes>'],
        ['MAoGCCqGSM49BAMC'], ['-----', '--', '-----BEGIN', 'BEGIN -----'], ['', '  ', '\t'],
        ['Certificate:', '    Data:', '        Version: 3 (0x2)', '        Issuer: O=Caf\u00e9, CN=\u4e2d'],
        ['# ' + 'x' * 5000], ['=', '====', 'AAA', '-----END-----'], ['1. ' + '-' * 64])
OTHERS = ('SOMETHING ELSE', 'OLD %s', '%s (OLD)', 'PUBLIC KEY', '', '%s-----', '-----BEGIN %s')


def render(d, variant):
    width, eol = ((64, '\n'), (76, '\r\n'), (4, '\n'), (1 << 20, '\n'))[variant % 4]
    out = []
    for i, l in enumerate(d['lines']):
        b, e = '-----BEGIN %s-----' % l['name'], '-----END %s-----' % l['name']
        o = octets(l['octs'])
        if l['k'] == 'object':
            body = wrap(o, width, eol)
            out += [b] + ([body] if body else []) + [e] if d['pem'] else [body]
        elif l['k'] == 'spam':
            out += JUNK[(variant // 4 + i) % len(JUNK)]
        elif l['k'] == 'foreign':
            other = OTHERS[(variant // 4 + i) % len(OTHERS)].replace('%s', l['name'])
            out += ['-----BEGIN %s-----' % other, wrap(b'0\x03\x02\x01\x05', width, eol), '-----END %s-----' % other]
        elif l['k'] == 'opened':
            out += [b, wrap(b'0\x03\x02\x01\x05', width, eol)]
        else:
            out += [b, e]
    return (eol.join(out) + eol if out else '').encode()


def pretty(p):
    """The text of an object, as decoded and, defaults filled in, as encoded."""
    v, rest = der_decode(octets(p['der']), asn1Spec=getattr(module(p['m']), p['n'])())
    t = [v.prettyPrint()]
    der_encode(v)
    return t + [v.prettyPrint()]


def report(text):
    """The number of objects a tool says it handled; None if it does not say."""
    m = re.findall(r'^\*\*\*\D*(\d+)\D.*$', text, re.M)
    return int(m[-1]) if m else None


SILENT = ('pkcs7dump', 'cmcdump', 'ocspreqdump', 'ocsprspdump', 'cmpdump', 'crmfdump')    # do not count


def judge(d, outside, status, text, why):
    if status == 'hang':
        return 'never ends'
    v = d['verdict']
    if v == 'ok':
        if status != 0:
            return 'fails with status %s on legal input (%s)' % (status, short(why))
        at = 0
        for i, p in enumerate(d['printed']):
            ts = pretty(p)
            at1 = [j + len(t) for t in ts for j in (text.find(t, at),) if j >= 0]
            if not at1:
                return 'does not print object %d, a %s.%s' % (i + 1, p['m'], p['n'])
            at = min(at1)
        n = report(text)
        if n is not None and n != d['count']:
            return 'reports %d objects instead of %d' % (n, d['count'])
        if n is None and d['tool'] not in SILENT:
            return 'does not say how many objects it handled'
        if outside and '-d' in d['args'] and not why.strip():
            return 'prints nothing of what decoding does when asked to'
    elif v == 'error':
        if status == 0:
            return 'ends with success on %s' % ', '.join(l['why'] or l['k'] for l in d['lines'])
        if report(text) is not None:
            return 'reports objects handled on %s' % ', '.join(l['why'] or l['k'] for l in d['lines'])
    elif v == 'usage':
        if status == 0:
            return 'wrong usage ends with success'
        if 'usage' not in text.lower() and 'usage' not in why.lower():
            return 'wrong usage does not print the usage'
        if d['tool'] not in text + why or '%s' in text:
            return 'the usage does not name the tool'
    elif v == 'nothing':
        n = report(text)
        if n:
            return 'reports objects where there are none'
        if n is None and d['tool'] not in SILENT:
            return 'does not say that there were no objects'
        if status != 0 and d['tool'] != 'pkcs7dump':
            return 'fails with status %s where there are no objects (%s)' % (status, short(why))
    return None


class Confirm:
    """What is wrong with a tool run inside this process counts when a process of
    the tool's own shows it too."""

    def __init__(self, seconds=240):
        self.left, self.sure, self.unsure = seconds, Counter(), Counter()

    def __call__(self, tool, bad, again):
        """bad, when it is so; again() tells what is wrong with the tool outside."""
        if self.sure[tool] > 2 and not self.unsure[tool]:
            return bad
        if self.left <= 0:
            return None if self.unsure[tool] else bad
        t = time.time()
        really = again()
        self.left -= time.time() - t
        (self.sure if really else self.unsure)[tool] += 1
        return really


def _work(i):
    fails, n, hangs = [], 0, []
    confirm = Confirm()
    for j in range(i, len(_J['todo']), _J['n']):
        k, d, outside = _J['todo'][j]
        path = os.path.join(TOOLS, d['tool'] + '.py')
        data = render(d, k)
        run = run_outside if outside else run_inside
        n += 1
        if hangs.count(d['tool']) > 1:
            continue
        try:
            bad = judge(d, outside, *run(path, d['args'], data))
            if bad and bad != 'never ends' and not outside:
                bad = confirm(d['tool'], bad, lambda: judge(d, False, *run_outside(path, d['args'], data)))
        except Mismatch as e:
            bad = str(e)
        if bad == 'never ends':
            hangs.append(d['tool'])
        if bad:
            fails.append(dict(site='tools/%s.py' % d['tool'], how=' '.join(d['args']),
                              why='given ' + (', '.join((l['k'] + ' ' + l['why']).strip() for l in d['lines']) or 'nothing'),
                              what=bad, case=dict(d, input=data.decode()[:4000])))
    return fails, n


def replay(lines, verdicts, procs=8):
    runs = [json.loads(l[4:]) for l in lines if l.startswith('RUN ')]
    todo, seen = [], set()
    for k, d in enumerate(runs):
        if d['verdict'] not in verdicts:
            continue
        tag = (d['tool'], '-d' in d['args'], d['verdict'], tuple(l['why'] for l in d['lines']) if len(d['lines']) == 1 else len(d['lines']))
        fresh = tag not in seen and (len(d['lines']) != 1 or d['lines'][0]['why'] in ('whole', 'cut'))
        seen.add(tag)
        todo.append((k, d, False))
        if fresh:
            todo.append((k + 1, d, True))
    for t in sorted(set(d['tool'] for d in runs)):
        if not os.path.exists(os.path.join(TOOLS, t + '.py')):
            return [dict(site='tools/%s.py' % t, what='the tool is gone')], 1, todo
    _J.update(todo=todo, n=procs * 3)
    fails, n = [], 0
    for m in ('rfc2459', 'rfc5280', 'rfc2314', 'rfc2437', 'rfc5208', 'rfc2560', 'rfc4210', 'rfc2511', 'rfc2315', 'rfc5652', 'rfc6402'):
        module(m)
    with multiprocessing.get_context('fork').Pool(procs) as pool:
        for f, k in pool.imap_unordered(_work, range(procs * 3)):
            fails += f
            n += k
    fails.sort(key=lambda f: len(f['case']['lines']))
    return fails, n, todo
