"""C02, C16 to C22: the functional parts."""
import itertools, json
from .common import *
from .gen import STATIONS, b
from . import func, vara, gen, lz
from .props_vara import T, BIG, X, mc as mcv, probes

UP, LO, DIG = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ', 'abcdefghijklmnopqrstuvwxyz', '0123456789'


def mc(report, module, cfg=None, **kw):
    r = tlc(module, (cfg or module) + T + '.cfg', workers=JOBS, heap='8g', timeout=850, **kw)
    report.tlc(r, (cfg or module) + T)
    say('model %s: %d states' % (module, r.distinct))


def station(r, maxcall=10, lower=0.3):
    pre = r.choice(['', r.choice(DIG)]) + ''.join(r.choice(UP) for _ in range(r.choice([1, 1, 2, 2, 3])))
    s = pre + ''.join(r.choice(DIG) for _ in range(r.choice([1, 1, 1, 2, 3]))) + r.choice(UP)
    s += ''.join(r.choice(UP + DIG) for _ in range(r.choice([0, 1, 2, 3])))
    s = s[:maxcall] if s[:maxcall][-1:].isalpha() or len(s) <= maxcall else s
    if r.random() < 0.5:
        s += '-' + ''.join(r.choice(UP + DIG) for _ in range(r.choice([1, 2])))
    if r.random() < lower:
        s = ''.join(c.lower() if r.random() < 0.5 else c for c in s)
    return s


def command(r, ids):
    k = r.choice(['listen', 'compression', 'bw', 'disconnect', 'abort', 'mycall', 'mycall', 'connect', 'connect', 'connect'])
    if k == 'listen':
        return {'k': k, 'm': r.choice(['OFF', 'CQ', 'ON'])}
    if k == 'compression':
        return {'k': k, 'm': r.choice(['OFF', 'TEXT', 'FILES'])}
    if k == 'bw':
        return {'k': k, 'm': r.choice(['500', '2300', '2750'])}
    if k == 'mycall':
        return {'k': k, 'ids': [b(r.choice(ids)) for _ in range(r.choice([1, 1, 2, 3, 5, 9]))], 'from': r.random() < 0.5}
    if k == 'connect':
        return {'k': k, 'ids': [b(r.choice(ids)) for _ in range(2)], 'path': [b(r.choice(ids)) for _ in range(r.choice([0, 1, 2]))]}
    return {'k': k}


def c02(report):
    d = build('func', 'vara')
    say('harness built')
    mc(report, 'MCWire')
    r = rng('C02')
    ids = STATIONS + [station(r, lower=0) for _ in range(60)]
    cs = [{'k': k, 'm': m} for k, ms in (('listen', ['OFF', 'CQ', 'ON']), ('compression', ['OFF', 'TEXT', 'FILES']), ('bw', ['500', '2300', '2750'])) for m in ms]
    cs += [{'k': 'disconnect'}, {'k': 'abort'}]
    few = ['W1AW', 'K2XYZ-10', '9A1AA']
    cs += [{'k': 'mycall', 'ids': [b(x) for x in l], 'from': f} for n in (1, 2, 3) for l in itertools.product(few, repeat=n) for f in (True, False)]
    cs += [{'k': 'connect', 'ids': [b(x) for x in e], 'path': [b(x) for x in p]} for e in itertools.product(few, repeat=2) for n in (0, 1, 2) for p in itertools.product(few, repeat=n)]
    cs += [command(r, ids) for _ in range(1500 * BIG)]
    uniq = {json.dumps(c, sort_keys=True): c for c in cs}
    reqs = [{'id': 'cmd-%d' % i, 'f': 'command', 'c': c} for i, c in enumerate(uniq.values())]
    report.sample({'command': func.show(reqs[40])})

    def corrupt(c, r):
        t = c['r']['text']
        t[r.randrange(len(t))] ^= 1
        return c
    func.check(report, d, reqs, 'JudgeWire', trace_modes=(False,), corrupt=corrupt, need=('listen', 'connect', 'mycall', 'bw'))
    # On the wire: every call of the API, with its terminator, and connects of all kinds of stations.
    sc = []
    for i in range(150 * BIG):
        ops = []
        for _ in range(r.randrange(2, 7)):
            k = r.random()
            if k < 0.25:
                a, c = r.choice(ids), r.choice(ids)
                ops += [{'op': 'connect', 'from': b(a), 'to': b(c)}, {'op': 'tx', 'b': b('WRONG\r')}]
            else:
                c = command(r, ids)
                while c['k'] in ('listen', 'connect'):
                    c = command(r, ids)
                c.pop('from', 0)
                ops += [{'op': 'call', 'cmd': c}, {'op': 'tx', 'b': b(r.choice(['OK\r', 'WRONG\r']))}]
        sc.append({'id': 'C02-wire-%d' % i, 'probes': probes(), 'ops': ops})
    found = vara.check(report, d, sc, ['lines'])
    vara.report_all(report, found, ['lines'])
    return report.finish()


def c21(report):
    d = build('func', 'vara')
    say('harness built')
    mc(report, 'MCStation')
    r = rng('C21')
    strs = set()
    for n in range(0, 6 + X):
        strs |= {''.join(x) for x in itertools.product('Aa1-', repeat=n)}
    for n in range(0, 5):
        strs |= {''.join(x) for x in itertools.product('Z0- \n', repeat=n)}
    valid = [station(r) for _ in range(1500 * BIG)] + STATIONS + ['A1A', '1A1A', '11A1A', 'A1A1', 'AB12CD', 'A11', 'A1', 'A1-1', 'A1A-', 'A1A-1', 'A1A-12', 'A1A-123']
    strs |= set(valid)
    other = [' ', '\n', '\r', '\t', '\0', '-', '/', '_', '.', ',', '\x7f', '\u00e9', '\u0130', '\u017f', '\u212a', '\u0660', '\u0966', '\uff11', '\uff21', '\U0001d7d8', 'K', '\u2028']
    for s in valid[:600 * BIG] + STATIONS:
        for _ in range(3):
            k, i, c = r.randrange(4), r.randrange(len(s) + 1), r.choice(other)
            strs.add([s[:i] + c + s[i:], s[:i] + c + s[i + 1:], c + s, s + c][k])
        strs.add(s + ' ' + r.choice(valid))
        strs.add(s + '\n' + r.choice(valid))
        strs.add(s + s)
        strs.add(s + '-1-2')
    for c in other:
        for s in ('W1AW', 'W1AW-1'):
            for i in range(len(s) + 1):
                strs.add(s[:i] + c + s[i:])
    strs |= {'A' * n + '1' + 'B' * m for n in (1, 5, 30) for m in (1, 6, 60)}
    reqs = [{'id': 'st-%d' % i, 'f': 'station', 'b': list(s.encode())} for i, s in enumerate(sorted(strs))]
    report.sample({'station': func.show(reqs[-5])})

    def corrupt(c, r):
        if c['r']['k'] == 'ok':
            c['r'] = {'k': 'no'} if r.random() < 0.5 else dict(c['r'], id=c['r']['id'] + [65])
        else:
            c['r'] = {'k': 'ok', 'id': [x for x in c['q']['b']], 'again': True}
        return c
    func.check(report, d, reqs, 'JudgeStation', trace_modes=(False,), corrupt=corrupt, need=('call sign', 'with SSID', 'not a station'))
    # What is accepted here is recognised in the TNC's reports, and used on the wire as it is.
    good = []
    while len(good) < 500 * BIG:
        s = station(r)
        if len(s.split('-')[0]) <= 7:
            good.append(s.upper())
    good += STATIONS + ['A1A', 'Z9Z-9', 'AAA111A-ZZ', '1AAA11A-00']
    sc = []
    for i in range(0, len(good), 8):
        part = good[i:i + 8]
        ops = [{'op': 'call', 'cmd': {'k': 'mycall', 'ids': [b(x) for x in part[:3]]}}, {'op': 'tx', 'b': b('OK\r')}]
        ops += [{'op': 'tx', 'b': b('REGISTERED %s\r' % x)} for x in part]
        ops += [{'op': 'tx', 'b': b('CONNECTED %s %s\r' % (part[0], part[-1]))}, {'op': 'tx', 'b': b('BUSY ON\r')}]
        sc.append({'id': 'C21-reg-%d' % i, 'probes': [b(x) for x in part], 'ops': ops})
    chk = ['lines', 'calls', 'st', 'ctleof']
    found = vara.check(report, d, sc, chk)
    vara.report_all(report, found, chk)
    return report.finish()


# ---------------------------------------------------------------- proposals

def field(r, n, wild=0.15):
    n = r.choice([1, n, n, r.randrange(1, n + 1)])
    if r.random() < wild:
        x = bytes(r.choice([1, 9, 10, 33, 47, 46, 64, 126, 127, 65]) for _ in range(n))
        return list(x)
    if r.random() < wild and n > 1:
        x = ('é' * n).encode()[:n // 2 * 2]
        return list(x + b'Z' * (n - len(x)))
    return [ord(r.choice(UP + DIG + LO + '.@')) for _ in range(n)]


def size(r):
    return r.choice([b(x) for x in ('0', '9', '255', '65535', '65536', '99999', '100000', '999999', '000000', '007', '131072')] + [b(str(r.randrange(10 ** 6)))])


def fbb_line(r):
    f = [b(r.choice(['FA', 'FB'])), b(r.choice('PBT')), field(r, 6), field(r, 40), field(r, 6), field(r, 12), size(r)]
    return [c for i, x in enumerate(f) for c in ([32] if i else []) + x] + [13]


def b2_line(r):
    f = [b('FC'), b('EM'), field(r, 12), size(r), size(r)]
    if r.random() < 0.5:
        f += [field(r, 6), field(r, 40), field(r, 6)]
    return [c for i, x in enumerate(f) for c in ([32] if i else []) + x] + [13]


def sel_line(r, p):
    out = b('FS ')
    for _ in range(p):
        c = r.choice('+YH=L-NRE!A!A')
        out += b(c) + (size(r) if c in '!A' else [])
    return out + [13]


def near(r, l):
    """A near miss."""
    l = list(l)
    k = r.randrange(9)
    i = r.randrange(len(l))
    if k == 0:
        del l[i]
    elif k == 1:
        l.insert(i, r.choice([32, 32, 13, 0, 65, 48, 255, 0xc3, 10]))
    elif k == 2:
        l[i] = r.choice([32, 13, 48, 70, 0, 128, 255, r.randrange(256)])
    elif k == 3:
        sp = [j for j, c in enumerate(l) if c == 32]
        if sp:
            del l[r.choice(sp)]
    elif k == 4:      # one more digit or letter in some field
        sp = [j for j, c in enumerate(l) if c in (32, 13)]
        l.insert(r.choice(sp), r.choice([48, 57, 65]))
    elif k == 5:
        l[-1:] = r.choice([[10], [32, 13], [13, 10], [0]])
    elif k == 6:
        l[:2] = b(r.choice(['FD', 'fa', 'F>', 'FF', 'FQ', 'XA', 'FS', 'FC', 'FA', 'FB']))
    elif k == 7:
        sp = [j for j, c in enumerate(l) if c == 32]
        j = r.choice(sp) if sp else 0
        l[j:j] = l[max(0, j - 7):j] * 3
    else:
        l = l[:i] + [r.randrange(256) for _ in range(r.randrange(4))] + l[i:]
    return l


def c22(report):
    d = build('func')
    say('harness built')
    mc(report, 'MCProposal')
    r = rng('C22')
    reqs = []

    def add(f, bs, line=None, p=None):
        q = {'id': 'pr-%d' % len(reqs), 'f': f, 'b': list(bs)}
        if line is not None:
            q['line'] = line
        if p:
            q['p'] = p
        reqs.append(q)
    for f, mk in (('proposal', fbb_line), ('b2proposal', b2_line), ('selection', None)):
        for k in range(120 * BIG):
            p = r.randrange(1, 6) if f == 'selection' else None
            l = sel_line(r, p) if p else mk(r)
            add(f, l, None, p)
            add(f, l + [r.randrange(256) for _ in range(r.choice([1, 3, 20]))], None, p)
            for i in range(len(l)):
                if k < 30 * BIG or r.random() < 0.1:
                    add(f, l[:i], l, p)
            for _ in range(15):
                add(f, near(r, l), None, p)
    # every letter as an answer, with and without digits
    for c in range(256):
        add('selection', b('FS ') + [c], None, 1)
        add('selection', b('FS ') + [c, 13], None, 1)
        add('selection', b('FS +') + [c] + b('12=\r'), None, 3)
        add('proposal', b('FA ') + [c] + b(' A B C D 1\r'))
        add('proposal', b('FA P A B C D') + [c] + b(' 1\r'))
        add('proposal', b('F') + [c] + b(' P A B C D 1\r'))
        add('b2proposal', b('FC EM A') + [c] + b(' 1 2\r'))
    for n in range(1, 9):
        for x in ('9' * n, '1' + '0' * (n - 1), '0' * n):
            add('proposal', b('FB T A B C D %s\r' % x))
            add('b2proposal', b('FC EM A %s 7\r' % x))
            add('b2proposal', b('FC EM A 7 %s\r' % x))
            add('selection', b('FS !%s+\r' % x), None, 2)
            add('selection', b('FS A%sA%s\r' % (x, x)), None, 2)
    for n, name in ((6, 0), (40, 1), (6, 2), (12, 3)):
        for m in (0, 1, n - 1, n, n + 1, n + 2):
            f = ['A', 'B', 'C', 'D']
            f[name] = 'Q' * m
            add('proposal', b('FA B %s %s %s %s 44\r' % tuple(f)))
            add('b2proposal', b('FC EM %s 44 55 %s %s %s\r' % (f[3], f[0], f[1], f[2])))
    for _ in range(300 * BIG):
        add(r.choice(['proposal', 'b2proposal']), [r.choice([70, 65, 66, 67, 32, 13, 80, 49, r.randrange(256)]) for _ in range(r.randrange(0, 40))])
    report.sample({'proposal': func.show(reqs[0])})
    report.sample({'near miss': func.show(reqs[-400])})

    def corrupt(c, r):
        k = c['r']['k']
        if k == 'parsed':
            c['r'] = dict(c['r'], rest=c['r']['rest'] + 1) if r.random() < 0.5 else {'k': 'rejected'}
        elif k == 'rejected':
            c['r'] = {'k': 'parsed', 'rest': 0, 'v': {}}
        else:
            c['r'] = {'k': 'parsed', 'rest': 0, 'v': {}}
        return c
    func.check(report, d, reqs, 'JudgeProposal', corrupt=corrupt,
               need=['"%s", "%s"' % (f, k) for f in ('proposal', 'b2proposal', 'selection') for k in ('parsed', 'rejected', 'prefix')])
    return report.finish()


# ---------------------------------------------------------------- message blocks

def crc16(bs):
    c = 0
    for x in bs:
        c ^= x << 8
        for _ in range(8):
            c = (c << 1) ^ 0x1021 if c & 0x8000 else c << 1
            c &= 0xffff
    return c


def body(n, z):
    p = list(n.to_bytes(4, 'little')) + list(z)
    c = crc16(p)
    return [c & 255, c >> 8] + p


def cut(d, cuts):
    out, i = [], 0
    for n in cuts:
        out += [2, n % 256] + d[i:i + n]
        i += n
    assert i == len(d), (i, len(d))
    return out


def header(title, offset):
    h = list(title) + [0] + b(str(offset)) + [0]
    return [1, len(h)] + h


def frame(title, offset, d, cuts, sum_=None):
    return header(title, offset) + cut(d, cuts) + [4, -sum(d) % 256 if sum_ is None else sum_]


def cuts_of(r, n, how=None):
    """Cuts of n bytes, the first of at least six."""
    how = how or r.choice(['full', 'one', 'random', 'small', 'edge'])
    out = []
    while sum(out) < n:
        left = n - sum(out)
        k = {'full': 256, 'one': 6 if not out else 1, 'random': r.randrange(1, 257), 'small': r.randrange(1, 12),
             'edge': r.choice([6, 250, 255, 256, 1, 2, 128])}[how]
        k = max(k, 6) if not out else k
        out.append(min(k, left))
    return out


def title(r):
    return b(r.choice(['', 'A', 'Test message', 'x' * r.randrange(0, 80), ' !~{}|', '0', 'AB' * 40]))


def offset(r):
    return r.choice([0, 0, 0, 1, 255, 65535, 65536, 99999, 999999, '000000', '000123'])


def message(r, n=None):
    k = r.randrange(4)
    n = r.choice([0, 1, 2, 20, 60, 200]) if n is None else n
    if k == 0:
        return bytes(r.randrange(256) for _ in range(n))
    if k == 1:
        return bytes(r.choice(b'ab \r\n') for _ in range(n))
    w = [bytes(r.choice(b'etaoinshrdlu') for _ in range(r.randrange(1, 9))) for _ in range(12)]
    return b' '.join(r.choice(w) for _ in range(n // 4 + 1))[:n]


def data_bytes(r, n):
    k = r.randrange(4)
    if k == 0:
        return [r.choice([0, 1, 2, 4, 255, 128, 127]) for _ in range(n)]
    if k == 1:
        return [r.choice([0, 255])] * n
    return [r.randrange(256) for _ in range(n)]


class Blocks:
    def __init__(s, r, name):
        s.r, s.name, s.reqs = r, name, []

    def add(s, bs, **kw):
        s.reqs.append({'id': '%s-%d' % (s.name, len(s.reqs)), 'f': 'block', 'b': list(bs), 'text': False, **kw})


def corrupt_block(c, r):
    k = c['r'].get('k')
    if k == 'parsed':
        x = r.randrange(4)
        v = c['r']['v']
        if x == 0:
            c['r']['rest'] += 1
        elif x == 1:
            c['r'] = {'k': 'rejected'}
        elif x == 2:
            v['data'] = v['data'] + [0]
        else:
            v['size'] = [v['size'][0] ^ 1] + v['size'][1:]
    elif k == 'crc' or 'crc' in c['r']:
        c['r']['crc'] ^= 1
    else:
        c['r'] = {'k': 'parsed', 'rest': 0, 'v': {'title': [], 'offset': [48], 'crc': 0, 'size': [0, 0, 0, 0], 'data': [], 'text': []}}
    return c


def messages(r, d, n, name):
    """Messages with their compressed forms."""
    ms = [message(r) for _ in range(n)]
    res = func.run(d, [{'id': '%s%d' % (name, i), 'f': 'encode', 'b': list(m)} for i, m in enumerate(ms)])
    out = []
    for i, m in enumerate(ms):
        z = res['%s%d' % (name, i)]
        if 'b' in z:
            out.append((m, z['b']))
    return out


def c16(report):
    d = build('func')
    say('harness built')
    mc(report, 'MCB2')
    r = rng('C16')
    bl = Blocks(r, 'C16')
    for bs in [[]] + [[x] for x in range(256)] + [[r.randrange(256) for _ in range(r.randrange(2, 200))] for _ in range(60 * BIG)]:
        bl.add(bs, f='crc')
    # Messages as they are sent, and as text again.
    for m, z in messages(r, d, 60 * BIG, 'm'):
        bo = body(len(m), z)
        bl.add(frame(title(r), offset(r), bo, cuts_of(r, len(bo))), text=True, message=list(m))
    goods = []
    for i in range(60 * BIG):
        z = data_bytes(r, r.choice([0, 0, 1, 2, 3, 10, 30, 100, 249, 250, 251, 260, 400]))
        n = r.choice([0, 1, 255, 256, 65535, 65536, 2 ** 31, 2 ** 32 - 1, r.randrange(2 ** 32)])
        bo = body(n, z)
        goods.append((title(r), offset(r), bo, cuts_of(r, len(bo)), n, z))
    for big in (1500, 4000):
        z = data_bytes(r, big)
        bo = body(7, z)
        goods.append((b('big'), 0, bo, cuts_of(r, len(bo), 'full'), 7, z))
    for t, o, bo, cs, n, z in goods:
        bl.add(frame(t, o, bo, cs))
        bl.add(frame(t, o, bo, cs) + [r.randrange(256) for _ in range(r.choice([1, 5]))])

        def bad(x, sum_):
            if (sum(x) + sum_) % 256 or crc16(x[2:]) != x[0] + 256 * x[1]:
                bl.add(frame(t, o, x, cs, sum_))
        good_sum = -sum(bo) % 256
        L = len(bo)
        some = range(L) if L < 40 else r.sample(range(L), 20) + [0, 1, 2, 3, 4, 5, L - 1]
        for i in some:                                   # one byte, the sum left or made right
            x = list(bo)
            x[i] ^= r.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])
            bad(x, good_sum)
            bad(x, -sum(x) % 256)
        for _ in range(6):
            x = list(bo)                                 # two bytes that keep the sum
            i, j = r.sample(range(L), 2)
            k = r.choice([1, 128, r.randrange(256)])
            x[i], x[j] = (x[i] + k) % 256, (x[j] - k) % 256
            bad(x, good_sum)
            x = list(bo)                                 # swapped
            x[i], x[j] = x[j], x[i]
            bad(x, good_sum)
        for k in (1, 2, 127, 128, 129, 255, good_sum, -2 * good_sum, r.randrange(256)):  # the checksum itself
            bad(bo, (good_sum + k) % 256)
        bad(bo, 0)
        bad(bo, 128)
        for i in range(2, L - 2, max(1, L // 5)):        # a multiple of the polynomial: the CRC cannot tell, the sum can
            x = list(bo)
            for j, v in enumerate((0x01, 0x10, 0x21)):
                if i + j < L:
                    x[i + j] ^= v
            bad(x, good_sum)
        x = list(bo)                                     # CRC bytes the other way round, or of other parts
        x[0], x[1] = x[1], x[0]
        bad(x, good_sum)
        for c in (crc16(bo[6:]), crc16(bo), 0, 0xffff, crc16(bo[2:]) ^ 0xffff, crc16([255] + bo[2:])):
            x = [c & 255, c >> 8] + bo[2:]
            bad(x, -sum(x) % 256)
        for m in (n ^ 1, n ^ (1 << 24), (n + 1) % 2 ** 32, n * 256 % 2 ** 32, 0):   # the declared size, the sum made right
            x = bo[:2] + list(m.to_bytes(4, 'little')) + z
            bad(x, -sum(x) % 256)
        x = bo[:2] + list(n.to_bytes(4, 'big')) + z
        bad(x, good_sum)
        if z:                                            # a byte less or more
            x = bo[:-1]
            c2 = cuts_of(r, len(x))
            bl.add(frame(t, o, x, c2))
        x = bo + [0]
        bl.add(frame(t, o, x, cuts_of(r, len(x))))
        # both checks right over other fields: accepted as such
        x = body((n + 1) % 2 ** 32, z)
        bl.add(frame(t, o, x, cs))
    for sum_ in range(0, 256, 1 if X else 5):            # no data at all
        bl.add(header(b('t'), 0) + [4, sum_])
    for want in range(256):                              # sums of every kind that are wrong
        z = [want] * 3
        bo = body(3, z)
        x = list(bo)
        x[-1] = (x[-1] + want) % 256
        if want:
            bl.add(frame(b('T'), 0, x, [len(x)], -sum(bo) % 256))
    func.check(report, d, bl.reqs, 'JudgeB2', corrupt=corrupt_block, need=('parsed', 'fails its checks', 'crc'),
               weight=lambda c: 20 + len(c['q']['b']))
    report.sample({'block': func.show(bl.reqs[400])})
    return report.finish()


def c17(report):
    d = build('func')
    say('harness built')
    mc(report, 'MCB2')
    r = rng('C17')
    bl = Blocks(r, 'C17')

    def prefixes(line, step=1):
        for i in range(0, len(line), step):
            bl.add(line[:i], line=line)
    # every way to cut a short block
    for z in ([], [4], [2, 4], [1, 0, 4]):
        bo = body(r.randrange(2 ** 32), z)
        for n in range(6, len(bo) + 1):
            rest = len(bo) - n
            for k in range(2 ** max(0, rest - 1)):
                cs, left = [n], rest
                while left:
                    m = 1
                    while m < left and k & 1:
                        m += 1
                        k >>= 1
                    k >>= 1
                    cs.append(m)
                    left -= m
                l = frame(b('A b'), 65536, bo, cs)
                bl.add(l)
                bl.add(l + [1, 2, 4])
                prefixes(l)
    for i in range(70 * BIG):
        z = data_bytes(r, r.choice([0, 1, 5, 30, 100, 250, 251, 256, 300, 505]))
        bo = body(r.randrange(2 ** 32), z)
        t, o = title(r), offset(r)
        for _ in range(4):
            l = frame(t, o, bo, cuts_of(r, len(bo)))
            bl.add(l)
            bl.add(l + r.choice([l, [1], [4, 0], [2], [255] * 9, [0]]))
        step = 1 if len(l) < 60 else r.choice([3, 7, 11])
        prefixes(l, step)
        for j in range(min(len(l), 12)):
            bl.add(l[:len(l) - 1 - j], line=l)
    for n in range(6, 257, 1 if X else 3):               # blocks of every length
        bo = body(1, data_bytes(r, n - 6))
        bl.add(frame([], 0, bo, [n]))
        bo = body(1, data_bytes(r, n))
        bl.add(frame([], 0, bo, [6, n]))
        for c in (frame([], 0, bo, [6, n]),):
            bl.add(c[:-2], line=c)
            bl.add(c[:-3], line=c)
            bl.add(c[:15], line=c)
    for m, z in messages(r, d, 40 * BIG, 'm'):
        bo = body(len(m), z)
        for how in ('full', 'one', 'random', 'edge'):
            bl.add(frame(title(r), 0, bo, cuts_of(r, len(bo), how)), text=True, message=list(m))
    for big in (3000, 9000):
        bo = body(big, data_bytes(r, big))
        l = frame(b('big'), 0, bo, cuts_of(r, len(bo), 'full'))
        bl.add(l)
        for i in range(0, len(l), 331):
            bl.add(l[:i], line=l)
    func.check(report, d, bl.reqs, 'JudgeB2', corrupt=corrupt_block, need=('parsed', 'prefix'),
               weight=lambda c: 20 + len(c['q']['b']) + len(c['q'].get('line', [])))
    report.sample({'block': func.show(bl.reqs[40])})
    return report.finish()


# ---------------------------------------------------------------- LZHUF

def corrupt_lz(c, r):
    q, x = c['q'], c['r']
    if q['f'] == 'encdec':
        if x['z']:
            i = r.randrange(len(x['z']))
            k = r.randrange(3)
            if k == 0:
                x['z'] = x['z'] + [0]
            elif k == 1:
                x['z'] = x['z'][:-1]
            else:
                x['z'][i] ^= 1 << r.randrange(1 if i < len(x['z']) - 1 else 7, 8)
        else:
            x['same'] = False
    elif q['f'] == 'trip':
        x['same'] = False
    elif x['k'] == 'ok' and x['b']:
        if r.random() < 0.5:
            x['b'][r.randrange(len(x['b']))] ^= 4
        else:
            c['r'] = {'k': 'eof'}
    else:
        c['r'] = {'k': 'ok', 'b': [0] * (min(q['n'], 100) + (x['k'] == 'ok'))}
    return c


def lzcheck(report, d, reqs, need, **kw):
    func.check(report, d, reqs, 'TraceLz', 'TraceLz.cfg', corrupt=corrupt_lz, need=need,
               weight=lambda c: 1 if c['q']['f'] == 'trip' else 60 + len(c['q']['b']), **kw)


class Texts:
    """Messages of many kinds."""
    def __init__(s, r):
        s.r = r

    def words(s, n):
        r = s.r
        v = [bytes(r.choice(b'etaoinshrdlucmfwyp') for _ in range(r.randrange(1, 10))) for _ in range(r.choice([3, 20, 200]))]
        out = b''
        while len(out) < n:
            out += r.choice(v) + r.choice([b' ', b' ', b' ', b', ', b'\r\n'])
        return out[:n]

    def noise(s, n, k=256):
        a = s.r.sample(range(256), k)
        return bytes(s.r.choice(a) for _ in range(n))

    def periodic(s, n, p):
        u = s.noise(p)
        return (u * (n // p + 1))[:n]

    def far(s, d, l, pad):
        """A repetition of l characters at distance d."""
        u = s.noise(l, 16)
        return s.noise(pad) + u + bytes(128 + s.r.randrange(128) for _ in range(max(0, d - l))) + u + s.noise(3)

    def runs(s, n):
        out = b''
        while len(out) < n:
            out += bytes([s.r.choice(b' aZ\0\xff')]) * s.r.choice([1, 2, 3, 4, 58, 59, 60, 61, 62, 120, 500])
        return out[:n]

    def any(s, n):
        r = s.r
        k = r.randrange(6)
        if k == 0:
            return s.words(n)
        if k == 1:
            return s.noise(n, r.choice([1, 2, 3, 5, 20, 256]))
        if k == 2:
            return s.periodic(n, r.choice([1, 2, 3, 59, 60, 61, 62, 200, 1987, 1988, 2047, 2048, 2049, r.randrange(1, 2200)]))
        if k == 3:
            return s.runs(n)
        if k == 4:
            return b' ' * r.choice([1, 2, 3, 60, 100]) + s.words(n)
        return b''.join(s.any(max(1, n // 3)) for _ in range(3))[:n]


def model_lz(report):
    mc(report, 'MCLzHuf')
    mc(report, 'MCLzss')


def c18(report):
    d = build('func')
    say('harness built')
    model_lz(report)
    r = rng('C18')
    t = Texts(r)
    trips, full = [], []

    def add(x, l=trips):
        l.append({'id': 'C18-%s%d' % ('t' if l is trips else 'f', len(l)), 'f': 'trip' if l is trips else 'encdec', 'b': list(x)})
    # every short message over small alphabets; every single character and pair of some
    for n in range(0, 9 if X else 8):
        for x in itertools.product(b' a', repeat=n):
            add(bytes(x))
    for n in range(0, 5):
        for x in itertools.product(b'\0\xff b', repeat=n):
            add(bytes(x))
    for c in range(256):
        add(bytes([c]))
        add(bytes([c, c, c, c]))
        add(bytes([32, c]) * 3)
    for n in list(range(1, 140)) + [1984, 1988, 2047, 2048, 2049, 4096]:     # runs, of every length
        add(b'x' * n)
        add(b' ' * n)
        add(b'q' + b'xy' * n)
    for dist in list(range(1, 2110, 1 if X else 7)) + list(range(1975, 2000)) + list(range(2040, 2060)):
        add(t.far(dist, r.choice([3, 4, 20, 59, 60, 61, 70]), r.choice([0, 1, 60, 300])))
    for l in range(1, 130):
        add(t.far(r.choice([70, 130, 600, 1500]), l, r.choice([0, 7])))
    for _ in range(500 * BIG):
        add(t.any(r.choice([10, 60, 61, 100, 300, 2000, 2100, 5000])))
    for _ in range(4 * BIG):
        add(t.words(60000))
        add(t.any(30000))
        add(t.noise(40000))                   # the tree is rebuilt
        add(t.noise(40000, 3))
    add(t.noise(110000))
    for _ in range(2 * BIG):
        add(lz.deep_text(r))
    add(t.noise(33000) + lz.deep_text(r) + t.noise(20000))
    for n in (32700, 32760, 32768, 33082, 33083):
        add(bytes(r.randrange(256) for _ in range(n)))
    # some are read back by the specification, symbol by symbol
    for _ in range(40 * BIG):
        add(t.any(r.choice([0, 1, 10, 60, 100, 300, 1000])), full)
    for x in (t.far(2000, 60, 0), t.far(1990, 30, 5), t.periodic(3000, 1987), b' ' * 61 + b'x', b'x' * 200):
        add(x, full)
    add(lz.deep_text(r, 12000), full)
    report.sample({'message': func.show(trips[-700])})
    lzcheck(report, d, trips + full, ('trip', 'match', 'literal', 'overlapping', 'far match'), trace_modes=(False, False, False, True))
    return report.finish()


def tokens(r, n):
    """A legal stream: characters and matches of every kind."""
    out, size = [], 0
    lit = r.choice([0.1, 0.5, 0.9])
    for _ in range(n):
        if r.random() < lit:
            out.append(r.choice([r.randrange(256), 32, 97]))
            size += 1
        else:
            l = r.choice([3, 4, 5, 59, 60, r.randrange(3, 61)])
            k = r.randrange(5)
            dist = [1, 2, r.randrange(1, 65), r.randrange(1, 2049), max(1, min(2048, size))][k]
            if r.random() < 0.1:
                dist = r.choice([2047, 2048, 1988, 1989, 64, 65, 128, 129, 1024, 1025])
            out.append((l, dist))
            size += l
    return out


def c19(report):
    d = build('func')
    say('harness built')
    model_lz(report)
    r = rng('C19')
    t = Texts(r)
    reqs = []

    def enc(x):
        reqs.append({'id': 'C19-e%d' % len(reqs), 'f': 'encdec', 'b': list(x)})

    def dec(toks, cut=0):
        z, x = lz.encode(toks)
        reqs.append({'id': 'C19-d%d' % len(reqs), 'f': 'decode', 'b': list(z), 'n': max(0, len(x) - cut)})
    for n in range(0, 5):
        for x in itertools.product(b' a\xff', repeat=n):
            enc(bytes(x))
    for c in range(256):
        enc(bytes([c, 32 if c % 2 else c, c]))
        dec([c, (3 + c % 58, 1 + c * 8)])
    for _ in range(150 * BIG):
        enc(t.any(r.choice([10, 60, 61, 100, 300, 1000, 2500])))
    for dist in (1, 2, 59, 60, 61, 63, 64, 65, 255, 256, 1023, 1024, 1025, 1980, 1987, 1988, 1989, 2000, 2047, 2048, 2049):
        enc(t.far(dist, r.choice([3, 60, 61]), 2))
    for l in range(3, 61):
        dec([97, 98, 99, (l, 3), 100, (l, 1), (l, 2048), (l, r.randrange(1, 2049))])
    for p in range(32):                       # every upper part of a position, at both ends
        dec([120] * 3 + [(3, 64 * p + 1), 65, (5, 64 * p + 64), 66, (4, 64 * p + r.randrange(1, 65))] + [121])
    for _ in range(120 * BIG):
        dec(tokens(r, r.choice([1, 3, 10, 50, 200])), r.choice([0, 0, 0, 1, 2, 30]))
    for _ in range(2 * BIG):
        dec(tokens(r, 2500))
    # very long codes and rebuilt trees
    dec(lz.deep_tokens(r))
    dec([r.choice(b'aaaaaaaaabbbbccd') for _ in range(33200)] + tokens(r, 200))
    enc(lz.deep_text(r))
    enc(t.noise(36000, 5 if not X else 256))
    enc(t.noise(33500, 256))
    for x in lz.telling(r):
        enc(bytes(x))
        dec(x)
    if X:
        for _ in range(4):
            enc(lz.deep_text(r))
            enc(t.noise(70000))
            dec(lz.deep_tokens(r) + tokens(r, 9000))
            dec(tokens(r, 40000))
            enc(t.words(60000))
    report.sample({'message': func.show(reqs[-40])})
    lzcheck(report, d, reqs, ('match', 'literal', 'rebuild', 'longer than 16', 'before the start', 'far match', 'overlapping', 'cut at'),
            trace_modes=(False, False, False, True))
    return report.finish()


def c20(report):
    d = build('func')
    say('harness built')
    model_lz(report)
    r = rng('C20')
    t = Texts(r)
    reqs = []

    def dec(z, n):
        reqs.append({'id': 'C20-%d' % len(reqs), 'f': 'decode', 'b': list(z), 'n': n})
    for n in (0, 1, 2, 3, 59, 60, 61, 2 * 10 ** 9):
        dec([], n)
    for c in range(256):
        for n in (1, 2, 70, 10 ** 6):
            dec([c], n)
        dec([c] * 5, 100)
        dec([c] * 40, 2000)
    for _ in range(1200 * BIG):
        z = [r.randrange(256) for _ in range(r.choice([2, 2, 3, 4, 8, 20, 60]))]
        dec(z, r.choice([0, 1, 2, 3, 5, 20, 100, 500, 10 ** 5]))
    if X:
        for a in range(0, 65536, 3):
            dec([a >> 8, a & 255], r.choice([1, 2, 3, 70]))
    # what was compressed, with something missing, added, changed, or with another size
    for _ in range(60 * BIG):
        z, x = lz.encode(tokens(r, r.choice([1, 2, 5, 20, 60])))
        z = list(z)
        for i in sorted({len(z) - 1, len(z) - 2, r.randrange(len(z) + 1), r.randrange(len(z) + 1), 0}):
            if i >= 0:
                dec(z[:i], len(x))
        dec(z + [r.randrange(256)], len(x))
        dec(z, len(x) + 1)
        dec(z, len(x) + r.choice([2, 59, 60, 1000]))
        dec(z, r.randrange(len(x) + 1))
        for _ in range(3):
            y = list(z)
            y[r.randrange(len(y))] ^= 1 << r.randrange(8)
            dec(y, len(x))
    # the end of the data at every bit of a match and of a character
    for pad in range(0, 9):
        for tk in ((60, 2048), (3, 1), (17, 700), 255):
            z, x = lz.encode([97] * pad + [tk])
            for i in range(len(z) + 1):
                dec(z[:i], len(x))
    # long streams: the tree is rebuilt while reading what nobody wrote
    dec([r.randrange(256) for _ in range(36000)], 400000)
    dec([0] * 6000, 2 * 10 ** 6)
    for x in lz.telling(r):
        dec(lz.encode(x)[0], len(x) - 3)
    z, x = lz.encode([r.choice(b'aaaaaaaaabbbbccd') for _ in range(32900)] + tokens(r, 100))
    dec(z[:-9], len(x))
    dec(list(z[:-9]) + [r.randrange(256) for _ in range(30)], len(x))
    z, x = lz.encode(lz.deep_tokens(r))
    for k in (1, 3, 6):
        dec(z[:-k], len(x) + 5)
    report.sample({'bytes': func.show(reqs[1500])})
    lzcheck(report, d, reqs, ('done', 'eof', 'rebuild', 'match', 'cut at', 'beyond the window'), trace_modes=(False, False, False, True))
    return report.finish()
