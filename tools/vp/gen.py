"""Scripts for the VARA harness: behaviours of spec/GenVara.tla made concrete."""
import json, re
from .common import *

CR = 13


def b(s):
    return list(s.encode('latin1')) if isinstance(s, str) else list(s)


def gen_cfg(ops, lines, pieces='NoPieces', maxops=6, calls=0, sessions=0, data=0, lag=0, opened=False, all_lengths=True):
    q = lambda xs: '{' + ', '.join('"%s"' % x for x in xs) + '}'
    return f"""SPECIFICATION GSpec
CONSTANTS
  CR <- GCR
  Meaning <- GMeaning
  Ops = {q(ops)}
  Lines = {q(lines)}
  Pieces <- {pieces}
  MaxOps = {maxops}
  MaxCalls = {calls}
  MaxSessions = {sessions}
  MaxData = {data}
  MaxLag = {lag}
  Open = {'TRUE' if opened else 'FALSE'}
  AllLengths = {'TRUE' if all_lengths else 'FALSE'}
INVARIANT PrintScript
{'VIEW View' if all_lengths else ''}
CHECK_DEADLOCK FALSE
"""


def scripts_of(text):
    seen = set()
    for l in text.splitlines():
        if l.startswith('"SCRIPT '):
            s = json.loads(l)[7:]
            seen.add(s)
    return [json.loads(s) for s in sorted(seen)]


def drop_prefixes(scripts):
    """A script whose every action also occurs at the start of another adds nothing."""
    keys = {json.dumps(s, sort_keys=True): s for s in scripts}
    pref = set()
    for s in scripts:
        for i in range(1, len(s)):
            pref.add(json.dumps(s[:i], sort_keys=True))
    return [s for k, s in sorted(keys.items()) if k not in pref]


def cover(report, name, cap, **kw):
    """One script per transition of the generator's state graph (a sample of `cap` of them)."""
    r = tlc('GenVara', gen_cfg(**kw), workers=1, timeout=800)
    report.tlc(r, 'GenVara ' + name)
    ss = drop_prefixes(scripts_of(r.text))
    report.add('scripts_generated', len(ss))
    if len(ss) > cap:
        ss = rng('cover', name).sample(ss, cap)
    return ss


def simulate(report, name, num, depth=None, **kw):
    """Long random behaviours."""
    kw['all_lengths'] = False
    r = tlc('GenVara', gen_cfg(**kw), workers=1, timeout=800,
            args=('-simulate', 'num=%d' % (num * 3), '-depth', str(depth or kw['maxops'] * 8), '-seed', str(SEED * 1000 + len(name))))
    report.tlc(r, 'GenVara -simulate ' + name)
    ss = scripts_of(r.text)
    report.add('scripts_generated', len(ss))
    if len(ss) > num:
        ss = rng('sim', name).sample(ss, num)
    return ss


# ------------------------------------------------------------ making them concrete

STATIONS = ['W1AW', 'K2XYZ', 'KC1GSL', '9A1AA', 'N0C', 'VE7ABCD', 'W1AW-1', 'K2XYZ-10', 'G4A-T', '2E0ABC', 'AA1A-R', 'PA0000A']
CALLS = ['W1AW', 'K2XYZ', 'KC1GSL', 'N0CALL-5']


def number(r):
    return r.choice(['0', '1', '9', '10', '42', '255', '256', '65535', '65536', '4294967295', '4294967296',
                     '18446744073709551615', '007', '00', '0' * r.randrange(10, 60) + '5', str(r.randrange(10 ** 6))])


def report_line(r, kind=None):
    kind = kind or r.choice(['busy', 'ptt', 'buf', 'reg', 'hb', 'busy', 'ptt', 'buf'])
    if kind == 'busy':
        return 'BUSY ' + r.choice(['ON', 'OFF'])
    if kind == 'ptt':
        return 'PTT ' + r.choice(['ON', 'OFF'])
    if kind == 'buf':
        return 'BUFFER ' + number(r)
    if kind == 'reg':
        return 'REGISTERED ' + r.choice(STATIONS)
    return 'IAMALIVE'


VALID = ['OK', 'WRONG', 'IAMALIVE', 'DISCONNECTED', 'PENDING', 'CANCELPENDING', 'BUFFER 12', 'BUSY ON', 'BUSY OFF',
         'PTT ON', 'PTT OFF', 'REGISTERED W1AW', 'REGISTERED W1AW-10', 'CONNECTED W1AW K2XYZ', 'CONNECTED W1AW-1 K2XYZ-T']
BADS = ['', 'FOO', 'ok', 'Ok', 'OK ', ' OK', 'OKOK', 'OK\n', '\nOK', 'OK\x00', 'WRONGS', 'WRON', 'wrong', 'WRONG ', 'IAMALIVE ', 'IAMALIV',
        'DISCONNECTED W1AW', 'DISCONNECTE', 'disconnected', 'PENDING ', 'CANCELPENDIN', 'CANCEL', 'BUFFER', 'BUFFER ', 'BUFFER  1',
        'BUFFER -1', 'BUFFER +1', 'BUFFER 1 ', 'BUFFER 1x', 'BUFFER x', 'BUFFER 18446744073709551616', 'BUFFER 99999999999999999999',
        'BUFFER 100000000000000000000000', 'BUSY', 'BUSY ', 'BUSY on', 'BUSY ONN', 'BUSY OF', 'BUSY ON ', 'PTT', 'PTT ', 'PTT 1', 'PTT OFFF',
        'PTT  ON', 'CONNECTED', 'CONNECTED ', 'CONNECTED W1AW', 'CONNECTED W1AW ', 'CONNECTED W1AW  K2XYZ', 'CONNECTED W1AW K2XYZ ',
        'CONNECTED W1AW K2XYZ 2300', 'CONNECTED w1aw K2XYZ', 'CONNECTED W1 K2XYZ', 'CONNECTED W1AWABCD K2XYZ', 'CONNECTED W1AW,K2XYZ',
        'CONNECTED W1AW-123 K2XYZ', 'CONNECTED W1AW- K2XYZ', 'CONNECTED W1AW K2XYZ-', 'REGISTERED', 'REGISTERED ', 'REGISTERED W1',
        'REGISTERED W1AW K2XYZ', 'REGISTERED W1AWXXXX', 'REGISTERED w1aw', 'REGISTERED W1AW-1-2', 'UNREGISTERED', 'LINK REGISTERED', 'VERSION 4',
        '\xff', 'OK\xff', '\xffOK', 'BUFFER \xb2', '\xc3(', 'BUSY \xffON', '\x00', '\n', ' ', 'REGISTERED \xff\xff\xff', 'CQFRAME W1AW 500', 'MISSING SOUNDCARD']


def mutate(r, line):
    """One byte deleted, inserted or changed."""
    x = bytearray(line.encode('latin1'))
    i = r.randrange(len(x) + 1)
    k = r.randrange(4)
    c = r.choice([r.randrange(256), r.choice(b' 0ON9AZ-\n\x00az')])
    if c == CR:
        c = 10
    if k == 0 and x:
        del x[min(i, len(x) - 1)]
    elif k == 1:
        x.insert(i, c)
    elif k == 2 and x:
        x[min(i, len(x) - 1)] = c
    else:
        x = x + bytearray(r.choice(VALID).encode())
    return bytes(x)


def bad_line(r):
    x = r.random()
    if x < 0.5:
        return b(r.choice(BADS))
    if x < 0.9:
        return list(mutate(r, r.choice(VALID)))
    return [c for c in (r.randrange(256) for _ in range(r.randrange(1, 40))) if c != CR]


def api_call(r):
    k = r.choice(['bw', 'compression', 'mycall', 'disconnect', 'abort', 'bw', 'compression'])
    if k == 'bw':
        return {'k': k, 'm': r.choice(['500', '2300', '2750'])}
    if k == 'compression':
        return {'k': k, 'm': r.choice(['OFF', 'TEXT', 'FILES'])}
    if k == 'mycall':
        return {'k': k, 'ids': [b(x) for x in r.sample(STATIONS, r.randrange(1, 6))]}
    return {'k': k}


class Concrete:
    """Replaces the generator's symbols by real lines, calls and data."""

    def __init__(self, r, closing=('half',), reports=None, big=False, bad=None):
        self.r, self.closing, self.reports, self.big = r, closing, reports, big
        self.bad = bad
        self.n = 0

    def sym(self, x):
        r = self.r
        if x == 'CR':
            return [CR]
        if x == 'OK':
            return b('OK')
        if x == 'NO':
            return b('WRONG')
        if x == 'DISC':
            return b('DISCONNECTED')
        if x == 'CONN':
            return b('CONNECTED %s %s' % (r.choice(STATIONS), r.choice(STATIONS)))
        if x == 'PEND':
            return b(r.choice(['PENDING', 'CANCELPENDING']))
        if x == 'REP':
            return b(report_line(r, r.choice(self.reports) if self.reports else None))
        if x == 'BAD':
            return self.bad if self.bad is not None else bad_line(r)
        raise KeyError(x)

    def payload(self, n=None):
        r = self.r
        if n is None:
            n = r.choice([1, 2, 3, 7, 20, 40]) if not self.big or r.random() < 0.7 else r.choice([100, 300, 600])
        self.n += 1
        return [(self.n * 37 + i * 11 + r.randrange(4)) % 256 for i in range(n)]

    def runs(self, total):
        """Long data: runs of different bytes."""
        out, left, v = [], total, self.r.randrange(256)
        while left:
            k = min(left, self.r.choice([1, 2, 1000, total // 7 + 1, total // 3 + 1]))
            v = (v + self.r.randrange(1, 256)) % 256
            out.append([v, k])
            left -= k
        return out

    def op(self, o):
        r = self.r
        o = dict(o)
        k = o['op']
        if k == 'call':
            o['cmd'] = api_call(r)
        elif k == 'connect':
            a, c = r.sample(STATIONS, 2)
            o['from'], o['to'] = b(a), b(c)
        elif k == 'tx':
            o['b'] = [c for x in o.pop('p') for c in self.sym(x)]
        elif k == 'close':
            o['how'] = r.choice(self.closing)
        elif k == 'dtx':
            if self.big and r.random() < 0.1:
                o['runs'] = self.runs(r.choice([5000, 20000, 60000]))
            else:
                o['b'] = self.payload()
        elif k == 'read':
            o['n'] = r.choice([1, 2, 5, 64, 64, 4096, 100000] if self.big else [1, 2, 5, 64])
            o['pre'] = r.choice([0, 0, 3])
        elif k == 'write':
            o['op'] = r.choice(['write', 'write', 'writev'])
            # more than the connection takes at once, now and then
            if self.big and r.random() < 0.1:
                o['runs'] = self.runs(r.choice([100000, 3000000, 8000000]))
            else:
                o['b'] = self.payload()
                if o['op'] == 'writev' and len(o['b']) < 2:
                    o['op'] = 'write'
        elif k == 'end':
            o['how'] = r.choice(['disconnect', 'abort'])
        return o

    def script(self, ops, tail=()):
        return [self.op(o) for o in ops] + [dict(o) for o in tail]


def probes():
    return [b(x) for x in STATIONS]


def fix_tail(ops):
    """The last action settles, so that everything before it is observed."""
    if ops and not ops[-1].get('s', True):
        ops[-1]['s'] = True
    return ops
