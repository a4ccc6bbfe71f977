"""Conformance of the two clients (Clients.tla): each is run against a peer that answers
what the specification says, and must send what the specification says."""
import http.server, json, multiprocessing, os, re, socket, threading

from asn import *
import tools

_J = {}


class Peer:
    """Stands for socket.socket in the SNMP client: takes what is sent and answers."""
    sent = None
    octets = b''
    silent = False

    def __init__(self, *a, **k):
        self.to = None

    def sendto(self, data, *a):
        type(self).sent.append((bytes(data), a[-1]))
        return len(data)

    def connect(self, to):
        self.to = to

    def send(self, data, *a):
        type(self).sent.append((bytes(data), self.to))
        return len(data)

    sendall = send

    def recvfrom(self, n, *a):
        if self.silent or not self.sent:
            raise socket.timeout('timed out')
        return self.octets[:n], (self.sent[-1][1] or ('127.0.0.1', 161))

    def recv(self, n, *a):
        return self.recvfrom(n)[0]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return lambda *a, **k: None


class Responder(http.server.BaseHTTPRequestHandler):
    protocol_version = 'HTTP/1.0'

    def do_POST(self):
        s = self.server
        n = int(self.headers.get('Content-Length') or 0)
        s.got.append(('POST', self.path, self.headers.get('Content-Type'), self.rfile.read(n)))
        if s.answer is None:
            self.close_connection = True
            return
        status, body = s.answer
        self.send_response(status)
        self.send_header('Content-Type', 'application/ocsp-response')
        self.send_header('Content-Length', str(len(body)))
        self.end_headers()
        self.wfile.write(body)

    def do_GET(self):
        self.server.got.append(('GET', self.path, None, b''))
        self.send_error(405)

    def log_message(self, *a):
        pass


def start():
    s = http.server.ThreadingHTTPServer(('127.0.0.1', 0), Responder)
    s.daemon_threads = True
    s.got, s.answer = [], None
    threading.Thread(target=s.serve_forever, daemon=True).start()
    return s


def tlv(b, i=0):
    """(tag octet, content, end) of the element at i; short, plain BER."""
    n, j = b[i + 1], i + 2
    if n >= 128:
        k = n - 128
        n, j = int.from_bytes(b[j:j + k], 'big'), j + k
    if j + n > len(b):
        raise IndexError
    return b[i], b[j:j + n], j + n


def unnumbered(b):
    """An SNMP message with its request number replaced by nothing."""
    try:
        t, c, e = tlv(b)
        if e != len(b):
            return None
        _, _, i = tlv(c)
        _, _, j = tlv(c, i)
        pt, p, pe = tlv(c, j)
        nt, num, k = tlv(p)
        if pe != len(c) or nt != 2 or not num:
            return None
        return t, c[:j], pt, p[k:]
    except IndexError:
        return None


def snmp(d):
    q = d['ask']
    args = q['args'] if q['why'] != 'plain' else [octets(q['community']).decode('ascii'), q['host'], '.'.join(map(str, q['oid']))]
    Peer.sent, Peer.octets, Peer.silent = [], octets(d['answer']['octs']), d['answer']['why'] == 'silence'
    real = socket.socket, socket.getaddrinfo, socket.gethostbyname
    socket.socket = Peer
    # (every name there is stands for itself)
    socket.getaddrinfo = lambda host, port, *a, **k: [(socket.AF_INET, socket.SOCK_DGRAM, 17, '', (host, int(port or 0)))]
    socket.gethostbyname = lambda host: host
    try:
        status, text, why = tools.run_inside(os.path.join(tools.TOOLS, 'snmpget.py'), args, b'')
    finally:
        socket.socket, socket.getaddrinfo, socket.gethostbyname = real
    bad = common(d, status, text, why, len(Peer.sent))
    if bad:
        return bad
    if d['sent']:
        data, to = Peer.sent[0]
        if tuple(to or ())[:2] != (q['host'], 161):
            return 'sends to %s instead of %s, port 161' % (short(to), q['host'])
        want = octets(d['request'][0])
        if unnumbered(data) is None or unnumbered(data) != unnumbered(want):
            return 'sends %s instead of %s (but for the number of the request)' % (short(data.hex()), short(want.hex()))
    if d['verdict'] == 'reported':
        t = tools.pretty(dict(m='rfc1157', n='Message', der=d['said']['der']))
        if not any(x in text for x in t):
            return 'does not print the answer (%s): %s' % (d['answer']['why'], short(text[-300:]))
    elif d['sent'] and 'received' in text.lower():
        return 'prints an answer to %s' % d['answer']['why']
    return None


def common(d, status, text, why, sent):
    if status == 'hang':
        return 'never ends'
    v = d['verdict']
    if sent != d['sent']:
        return 'sends %d requests instead of %d (%s)' % (sent, d['sent'], short(why))
    if v == 'reported' and status != 0:
        return 'fails on a legal answer (%s): %s' % (d['answer']['why'], short(why))
    if v in ('error', 'usage') and status == 0:
        return 'ends with success on %s' % (d['answer']['why'] if d['sent'] else d['ask']['why'])
    if v == 'usage' and 'usage' not in (text + why).lower():
        return 'wrong usage does not print the usage'
    if v == 'usage' and ({'snmp': 'snmpget', 'ocsp': 'ocspclient'}[d['who']] not in text + why or '%s' in text):
        return 'the usage does not name the client'
    return None


def ocsp(d, server, run=tools.run_inside):
    q = d['ask']
    url = 'http://127.0.0.1:%d/ocsp/here' % server.server_port
    args = [url if a == 'URL' else a for a in q['args']]
    lines = ['subject=/CN=someone', '']
    for i, b in enumerate(q['blocks']):
        lines += ['-----BEGIN CERTIFICATE-----', tools.wrap(octets(b), (64, 76)[i % 2], '\n'), '-----END CERTIFICATE-----']
        lines += ['and another', ''] if i == 0 else []
    del server.got[:]
    w = d['answer']['why']
    server.answer = None if w == 'silence' else (500, b'') if w == 'server error' else (200, octets(d['answer']['octs']))
    status, text, why = run(os.path.join(tools.TOOLS, 'ocspclient.py'), args, '\n'.join(lines).encode())
    got = list(server.got)
    bad = common(d, status, text, why, len(got))
    if bad:
        return bad
    if d['sent']:
        how, path, kind, data = got[0]
        if (how, path, kind) != ('POST', '/ocsp/here', 'application/ocsp-request'):
            return 'request is %s %s %s' % (how, short(path), kind)
        if data not in [octets(r) for r in d['request']]:
            return 'sends %s instead of %s' % (short(data.hex(), 700), short(octets(d['request'][0]).hex(), 700))
    words = set(re.findall(r'\b(good|revoked|unknown)\b', text))
    if d['verdict'] == 'reported':
        s = d['said']
        want = [str(int.from_bytes(bytes(s['serial']), 'big', signed=True)), globals()['text'](s['produced']), globals()['text'](s['this'])]
        if words != {s['status']}:
            return 'reports %s instead of %s' % (', '.join(sorted(words)) or 'no status', s['status'])
        for x in want:
            if not re.search(r'(?<!\d)%s(?!\d)' % re.escape(x), text):
                return 'does not report %s: %s' % (x, short(text))
        said = r'(?<!\d)%s(?!\d).*\b%s\b.*(?<!\d)%s(?!\d).*(?<!\d)%s(?!\d)' % (want[0], s['status'], re.escape(want[1]), re.escape(want[2]))
        if not re.search(said, text, re.S):
            return 'does not report serial number, status, time of production and time of the status in this order: %s' % short(text)
    elif words:
        return 'reports %s on %s' % (', '.join(words), w if d['sent'] else q['why'])
    return None


def _work(i):
    for k in [k for k in os.environ if k.lower().endswith('_proxy')]:
        del os.environ[k]
    os.environ['no_proxy'] = '*'
    server = start()
    fails, n, hangs = [], 0, 0
    confirm = tools.Confirm()
    for d in _J['runs'][i::_J['n']]:
        n += 1
        if hangs > 2:
            break
        try:
            bad = snmp(d) if d['who'] == 'snmp' else ocsp(d, server)
            if bad and bad != 'never ends' and d['who'] == 'ocsp':
                bad = confirm('ocspclient', bad, lambda: ocsp(d, server, tools.run_outside))
        except Mismatch as e:
            bad = str(e)
        if bad == 'never ends':
            hangs += 1
        if bad:
            fails.append(dict(site='tools/%s.py' % ('snmpget' if d['who'] == 'snmp' else 'ocspclient'), how=d['ask']['why'],
                              why='answered by ' + d['answer']['why'], what=bad, case=d))
    server.shutdown()
    return fails, n


def replay(lines, procs=8):
    runs = [json.loads(l[7:]) for l in lines if l.startswith('CLIENT ')]
    for t in ('snmpget', 'ocspclient'):
        if not os.path.exists(os.path.join(tools.TOOLS, t + '.py')):
            return [dict(site='tools/%s.py' % t, what='the client is gone')], 1, runs
    _J.update(runs=runs, n=procs)
    fails, n = [], 0
    for m in ('rfc1157', 'rfc2560', 'rfc2459'):
        module(m)
    with multiprocessing.get_context('fork').Pool(procs) as pool:
        for f, k in pool.imap_unordered(_work, range(procs)):
            fails += f
            n += k
    return fails, n, runs
