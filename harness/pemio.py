"""Conformance of pyasn1_modules.pem (Pem.tla, Armor.tla)."""
import base64, io, json, multiprocessing, os, tempfile, threading

from asn import Hang, REPO, errtext, within
from pyasn1_modules import pem

_J = {}
REAL = {'A': 'CERTIFICATE REQUEST', 'B': 'PRIVATE KEY', 'C': 'X509 CRL', 'CERT': 'CERTIFICATE'}


def marker(l, real):
    """BA -> a start marker, EA -> its end marker."""
    k = l[1:]
    if real or k == 'CERT':
        return '-----%s %s-----' % ('BEGIN' if l[0] == 'B' else 'END', REAL[k])
    # no base64 character in it: a line inside another block carries nothing
    return '-----(%s%s)-----' % ({'B': '>', 'E': '<'}[l[0]], {'A': '#', 'B': '.', 'C': '!'}[k])


def called(d, n=None):
    """The markers of each call."""
    return [d['marks'][i % len(d['marks'])] for i in range(len(d['calls']) if n is None else n)]


def real_marks(d, variant):
    return [[tuple(marker(l, variant & 1) for l in m) for m in ms] for ms in d['marks']]


def inside(d):
    """Lines of the text that lie inside a block, complete or not, and are not data."""
    ins = set()
    for c in d['calls']:
        if c['ix'] >= 0:
            ins.update(range(c['from'] + 1, c['pos'] + 1))
    return ins


def alike(m, nth):
    """Lines that are nearly markers; some hold what other readers take for line ends."""
    return ['-----BEGIN-----', 'BEGIN CERTIFICATE', '----BEGIN CERTIFICATE----', '-----BEGIN CERTIFICATE----- x',
            '# -----BEGIN CERTIFICATE-----', '-----begin certificate-----', '-----BEGIN  CERTIFICATE-----',
            'subject=/CN=x', '-----END CERTIFICATES-----', 'page 2\x0c' + m, 'x\x0b%s\x1ex' % m, m + m, m[:-1]][nth % 13]


def render(d, variant):
    """The text, as a list of lines with their line ends; None if the variant does not suit."""
    ins = inside(d)
    stop = {c['pos'] for c, ms in zip(d['calls'], called(d)) if c['ix'] >= 0 and d['text'][c['pos'] - 1] in [m[1] for m in ms]}
    real = variant & 1
    eol = ['\n', '\r\n'][(variant >> 1) & 1]
    out = []
    for i, l in enumerate(d['text'], 1):
        if l[0] in 'BE':
            if (real or l[1:] == 'CERT') and i in ins and i not in stop:
                return None                         # its letters would be read as base64
            t = marker(l, real)
        elif l[0] == 'd':
            t = base64.b64encode(bytes({'d1': (1, 2, 3), 'd2': (254, 0, 255, 17), 'd3': (90, 91, 92, 93, 94, 0)}[l])).decode()
        elif l == 'blank':
            t = ''
        else:
            t = '!*!' if i in ins else alike(marker(d['marks'][0][0][0], real), i + variant)
        if variant & 4:
            t = ['  ', '\t', '', ' \t'][i % 4] + t + [' ', '', '\t', '  '][i % 4]
        out.append(t + eol)
    if out and variant & 8:
        out[-1] = out[-1][:-len(eol)]
        if not out[-1]:
            return None
    return out


def place(f):
    """Where the stream is; None for a file that has been read by iterating over it."""
    try:
        return f.tell()
    except OSError:
        return None


def back(f, here, rest):
    """The stream as it was before the rest of it was read."""
    if here is None:
        name = f.name
        f.close()
        f = open(name, 'w+', newline='')
        f.write(rest)
        here = 0
    f.seek(here)
    return f


def judge(d, variant, real_file):
    lines = render(d, variant)
    if lines is None:
        return None, 0
    text = ''.join(lines)
    turns = real_marks(d, variant)
    marks = turns[0]
    if real_file:
        f = open(real_file, 'w+', newline='')
        f.write(text)
        f.seek(0)
    else:
        f = io.StringIO(text, newline='')
    try:
        for n, c in enumerate(d['calls'], 1):
            try:
                ix, got = pem.readPemBlocksFromFile(f, *turns[(n - 1) % len(turns)])
            except Exception as e:
                return 'call %d fails: %s' % (n, errtext(e)), n
            want = bytes(c['octs'])
            if ix != c['ix'] or len(got) != len(want) or (want and bytes(got) != want):
                return 'call %d returns %r, %r instead of %d, %r' % (n, ix, got, c['ix'], want), n
            here = place(f)
            rest = f.read()
            f = back(f, here, rest)
            if rest != ''.join(lines[c['pos']:]):
                return 'call %d leaves %r to be read instead of %r' % (n, rest[:80], ''.join(lines[c['pos']:])[:80]), n
        if len(turns) == 1 and len(marks) == 1:
            # the single-certificate reader: the first call of them
            if real_file:
                f = back(f, None, text)
            f.seek(0)
            got = pem.readPemFromFile(f) if d['setup'] == 'default' and not variant & 16 else pem.readPemFromFile(f, *marks[0])
            want = bytes(d['calls'][0]['octs'])
            if len(got) != len(want) or (want and bytes(got) != want):
                return 'readPemFromFile returns %r instead of %r' % (got, want), 0
    except Exception as e:
        return 'fails: ' + errtext(e), 0
    finally:
        f.close()
    return None, len(d['calls'])


def often(d, variant, times=800):
    """The text written many times over."""
    lines = render(d, variant & ~8)
    if lines is None or not d['whole'] or len(d['calls']) < 2:
        return None
    f = io.StringIO('subject: CN = someone\n' * 5000 + ''.join(lines) * times, newline='')
    turns = real_marks(d, variant)
    n = 0
    for t in range(times):
        for c in d['calls'][:-1]:
            n += 1
            try:
                ix, got = pem.readPemBlocksFromFile(f, *turns[(n - 1) % len(turns)])
            except Exception as e:
                return 'of the text %d times, call %d fails: %s' % (times, n, errtext(e))
            if ix != c['ix'] or bytes(got or b'') != bytes(c['octs']):
                return 'of the text %d times, call %d returns %r, %r instead of %d, %r' % (times, n, ix, got, c['ix'], bytes(c['octs']))
    try:
        ix, got = pem.readPemBlocksFromFile(f, *turns[n % len(turns)])
    except Exception as e:
        return 'of the text %d times, the last call fails: %s' % (times, errtext(e))
    if ix != -1 or got:
        return 'of the text %d times, the last call returns %r, %r' % (times, ix, got)


DATA = {'d1': bytes((1, 2, 3)), 'd2': bytes((254, 0, 255, 17)), 'd3': bytes((90, 91, 92, 93, 94, 0))}
WIDTHS = (1, 63, 64, 72, 76, 78, 79, 80, 100, 127, 128, 255, 256, 511, 512, 998, 1000, 1022, 1023, 1024, 1500, 2000, 2047, 2048,
          4000, 4095, 4096, 8191, 8192, 10000, 16384, 32768, 65535, 65536, 100000, 131072)


def wide(d, variant, times=9001):
    """The text with much on a line: lines of data many times as long, and
    lines that are no markers though they end like one."""
    variant &= ~8
    lines = render(d, variant)
    if lines is None:
        return None
    ins = inside(d)
    eol = ['\n', '\r\n'][(variant >> 1) & 1]
    turns = real_marks(d, variant)
    marks = [m for ms in turns for m in ms]
    out = ['x' * w + s + eol for w in WIDTHS for s in (marks[0][0],)]
    for i, l in enumerate(d['text'], 1):
        if l in ('d1', 'd3') and i in ins:
            out.append(' ' * (i + variant) + base64.b64encode(DATA[l] * times).decode() + eol)
            if not variant & 1 and d['setup'] != 'default':
                out += ['!' * w + m[1] + eol for w in WIDTHS for m in marks]
        else:
            out.append(lines[i - 1])
    f = io.StringIO(''.join(out), newline='')
    for n, c in enumerate(d['calls'], 1):
        want = b''.join(DATA[l] if l == 'd2' else DATA[l] * times for l in d['holds'][n - 1])
        try:
            ix, got = pem.readPemBlocksFromFile(f, *turns[(n - 1) % len(turns)])
        except Exception as e:
            return 'with long lines, call %d fails: %s' % (n, errtext(e))
        if ix != c['ix'] or bytes(got or b'') != want:
            return 'with long lines, call %d returns %r, %d octets instead of %d, %d octets' % (n, ix, len(got), c['ix'], len(want))


def _work(i):
    fails, n, calls, hangs = [], 0, 0, 0
    scratch = tempfile.mkdtemp(prefix='vpem-')
    path = os.path.join(scratch, 'text')
    try:
        for j in range(i, len(_J['lines']), _J['n']):
            d = json.loads(_J['lines'][j][4:])
            for v in _J['variants']:
                if hangs > 2:
                    break
                try:
                    bad, k = within(20, judge, d, (v + j * 2) & 31 if v > 1 else v, path if j % 50 == 0 else None)
                except Hang:
                    bad, k = 'never ends', 0
                    hangs += 1
                if not bad and j % 300 == 7:
                    try:
                        bad = within(60, often, d, (v + j * 2) & 31 if v > 1 else v)
                    except Hang:
                        bad = 'never ends'
                if not bad and j % 300 == 13:
                    try:
                        bad = within(60, wide, d, (v + j * 2) & 31 if v > 1 else v)
                    except Hang:
                        bad = 'never ends'
                n += 1
                calls += k
                if bad:
                    fails.append(dict(site='readPemBlocksFromFile', why='%s: %s (variant %d)' % (d['setup'], ' '.join(d['text']), v), what=bad, case=d))
        return fails, n, calls
    finally:
        if os.path.exists(path):
            os.unlink(path)
        os.rmdir(scratch)


def replay(lines, variants, procs=8):
    lines = [l for l in lines if l.startswith('PEM ')]
    _J.update(lines=lines, n=procs * 4, variants=variants)
    fails, n, calls = [], 0, 0
    with multiprocessing.get_context('fork').Pool(procs) as pool:
        for f, k, c in pool.imap_unordered(_work, range(procs * 4)):
            fails += f
            n += k
            calls += c
    fails.sort(key=lambda f: len(f['case']['text']))
    return fails, n, calls


def enlarged(d):
    """The text, and large ones made of a line of it."""
    yield ''.join(map(chr, d['text'])), bytes(d['octs']), ''
    for m in d['more']:
        line, sep, last = (''.join(map(chr, m[k])) for k in ('line', 'sep', 'last'))
        for n in (20, 1100, 3000):
            want = bytes(m['unit']) * n + bytes(m['tail'])
            yield (line + sep) * n + last, want, ' %d lines' % n
            yield line * n + last, want, ' %d lines in one' % n


def armor(lines):
    fails, n, hangs = [], 0, 0
    scratch = tempfile.mkdtemp(prefix='vpem-')
    path = os.path.join(scratch, 'text')
    try:
        for j, l in enumerate(lines):
            if not l.startswith('B64 '):
                continue
            d = json.loads(l[4:])
            for text, want, big in enlarged(d):
                runs = [('readBase64fromText', lambda: pem.readBase64fromText(text)),
                        ('readBase64FromFile', lambda: pem.readBase64FromFile(io.StringIO(text, newline=''))),
                        ('readBase64fromText of text with a line end', lambda: pem.readBase64fromText(text + '\n'))]
                if j % 40 == 0 or len(want) > 200:
                    with open(path, 'w', newline='') as f:
                        f.write(text + '\n')

                    def from_file():
                        with open(path, newline='') as f:
                            return pem.readBase64FromFile(f)
                    runs.append(('readBase64FromFile of a file', from_file))
                if d['lines']:
                    eol = '\r\n' if '\r' in text else '\n'
                    for b, e, args in (('-----BEGIN CERTIFICATE-----', '-----END CERTIFICATE-----', ()),
                                       ('-----BEGIN X-----', '-----END X-----', ('-----BEGIN X-----', '-----END X-----'))):
                        body = eol.join(['junk', '', b] + ([text] if text else []) + [e, b, 'AAAA', e, 'trailer', ''])
                        runs.append(('readPemFromFile%r' % (args,), lambda body=body, args=args: pem.readPemFromFile(io.StringIO(body, newline=''), *args)))
                for name, run in runs:
                    n += 1
                    if hangs > 2:
                        break
                    try:
                        got = within(20, run)
                    except Hang:
                        got = 'nothing: it never ends'
                        hangs += 1
                    except Exception as e:
                        got = errtext(e)
                    if len(got) != len(want) or (want and got != want):
                        fails.append(dict(site=name, why='of %r%s' % (text[:120], big), what='returns %r instead of %r' % (got[:120], want[:120]), case=d))
        return fails, n
    finally:
        if os.path.exists(path):
            os.unlink(path)
        os.rmdir(scratch)


class Lines(object):
    """A text that is read a line at a time, each when it is this reader's turn."""

    def __init__(self, lines):
        self.lines, self.pos = lines, 0
        self.turn, self.waiting = threading.Semaphore(0), threading.Semaphore(0)

    def readline(self, *size):
        self.waiting.release()
        self.turn.acquire()
        if self.pos == len(self.lines):
            return ''
        self.pos += 1
        return self.lines[self.pos - 1]

    def __iter__(self):
        return self

    def __next__(self):
        l = self.readline()
        if not l:
            raise StopIteration
        return l


def together(d):
    """Two readers taking lines in the given order; None, or what is wrong."""
    texts = [[marker(l, 0) + '\n' if l[0] in 'BE' else
              base64.b64encode(bytes({'d1': (1, 2, 3), 'd2': (254, 0, 255, 17), 'd3': (90, 91, 92, 93, 94, 0)}[l])).decode() + '\n' if l[0] == 'd'
              else '!*!\n' for l in t] for t in d['texts']]
    files = [Lines(t) for t in texts]
    outs = [[], []]
    done = [False, False]

    def reader(w):
        ms = [tuple(marker(l, 0) for l in m) for m in d['marks'][w]]
        try:
            for c in d['outs'][w]:
                ix, got = pem.readPemBlocksFromFile(files[w], *ms)
                outs[w].append((ix, list(bytes(got or b'')), files[w].pos))
        except Exception as e:
            outs[w].append(errtext(e))
        finally:
            done[w] = True          # (the thread itself lives on for a moment)
            files[w].waiting.release()

    ts = [threading.Thread(target=reader, args=(w,), daemon=True) for w in (0, 1)]
    for w in (0, 1):
        ts[w].start()
        files[w].waiting.acquire()
    for w in d['sched'] + [1, 2] * 40:       # (more lines than expected may be asked for)
        if all(done):
            break
        f = files[w - 1]
        if not done[w - 1]:
            f.turn.release()
            if not f.waiting.acquire(timeout=60):
                return 'reader %d hangs' % w
    for t in ts:
        t.join(20)
    for w in (0, 1):
        want = [(c['ix'], c['octs'], c['pos']) for c in d['outs'][w]]
        if outs[w] != want:
            return 'reader %d finds %s instead of %s' % (w + 1, outs[w], want)


def _pairs(i):
    fails, n = [], 0
    for l in _J['pairs'][i::_J['n']]:
        d = json.loads(l[5:])
        n += 1
        bad = together(d)
        if bad:
            fails.append(dict(site='readPemBlocksFromFile', why='%s / %s in the order %s' % (' '.join(d['texts'][0]), ' '.join(d['texts'][1]), d['sched']),
                              what=bad, case=d))
            if len(fails) > 3:
                break
    return fails, n


def pairs(lines, procs=8):
    _J.update(pairs=[l for l in lines if l.startswith('PAIR ')], n=procs * 4)
    fails, n = [], 0
    with multiprocessing.get_context('fork').Pool(procs) as pool:
        for f, k in pool.imap_unordered(_pairs, range(procs * 4)):
            fails += f
            n += k
    fails.sort(key=lambda f: len(f['case']['sched']))
    return fails, n
