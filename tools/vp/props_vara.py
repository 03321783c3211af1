"""C01 to C11: the VARA client."""
import json
from .common import *
from .gen import *
from . import vara

BIG = 6 if THOROUGH else 1


def mc(report, *cfgs):
    """Exhaustive checks of the model itself."""
    for c in cfgs:
        if not os.path.exists(os.path.join(SPEC, c + '.cfg')):
            raise ToolError('no ' + c)
        r = tlc('MCVara', c + '.cfg', workers=JOBS, heap='8g', timeout=850)
        report.tlc(r, c)
        say('model %s: %d states' % (c, r.distinct))


def concretise(report, prop, groups, tail=(), variants=1, **kw):
    out = []
    for name, ss in groups:
        for i, ops in enumerate(ss):
            for v in range(variants):
                r = rng(prop, name, i, v)
                out.append({'id': '%s-%s-%d-%d' % (prop, name, i, v), 'probes': probes(),
                            'ops': fix_tail(Concrete(r, **kw).script(ops, tail))})
        # Some again in a hurry: the next action comes while the client is on its way.
        for i, ops in enumerate(pick(prop + name + 'hurry', ss, 250 * BIG)):
            r = rng(prop, name, 'hurry', i)
            out.append({'id': '%s-%s-hurry-%d' % (prop, name, i), 'probes': probes(),
                        'ops': fix_tail(hurry(r, Concrete(r, **kw).script(ops, tail)))})
    for s in out:           # For some a long time passes after every step.
        s['slow'] = rng(s['id'], 'slow').random() < 0.3
    uniq = {json.dumps(s['ops'], sort_keys=True): s for s in out}
    report.add('scripts', len(uniq))
    return list(uniq.values())


def hurry(r, ops):
    share, run = r.choice([0.3, 0.6, 1]), 0
    for o in ops:
        if r.random() < share and o['op'] != 'idle':
            o['s'] = False
        if run == 4:        # what the client may have done by now grows fast
            o['s'] = True
        run = 0 if o.get('s', True) else run + 1
        if not o.get('s', True):
            o['y'] = r.choice([0, 1, 1, 2, 2, 3, 4, 6, 9])
            o['p'] = r.random() < 0.6
    return ops


def finish(report, bindir, scripts, chk, **kw):
    for s in scripts[:2]:
        report.sample({'script': readable(s)})
    found = vara.check(report, bindir, scripts, chk, **kw)
    vara.report_all(report, found, chk)
    return report.finish()


def readable(s):
    def t(o):
        o = {k: v for k, v in o.items() if not (k == 's' and v)}
        for k in ('b', 'from', 'to'):
            if k in o:
                o[k] = bytes(o[k]).decode('latin1')
        if 'cmd' in o and 'ids' in o['cmd']:
            o['cmd'] = dict(o['cmd'], ids=[bytes(x).decode('latin1') for x in o['cmd']['ids']])
        return o
    return {'id': s['id'], 'ops': [t(o) for o in s['ops']]}


def pick(salt, xs, n):
    return xs if len(xs) <= n else rng(salt).sample(xs, n)


def c01(report):
    bindir = vara_bin()
    mc(report, 'MCVaraCalls' + T)
    g = [('calls', cover(report, 'calls', 1200 * BIG, ops=['call', 'cancel', 'tx'], lines=['OK', 'NO', 'REP'],
                         pieces='JoinedPieces', maxops=6 + X, calls=3, lag=1)),
         ('con', cover(report, 'con', 500 * BIG, ops=['call', 'cancel', 'connect', 'cconnect', 'tx', 'drop'], lines=['OK', 'NO', 'CONN'],
                       maxops=6 + X, calls=2, sessions=2)),
         ('long', simulate(report, 'long', 150 * BIG, ops=['call', 'cancel', 'tx', 'connect', 'drop', 'end'],
                           lines=['OK', 'NO', 'REP', 'CONN'], pieces='CutPieces', maxops=30, calls=14, sessions=4, lag=2))]
    return finish(report, bindir, concretise(report, 'C01', g), ['lines', 'calls', 'con', 'end'])


def cut(r, ops):
    """The same actions with the TNC's bytes cut differently: within each run of consecutive
    sends the bytes are re-divided at random; sends keep their place among the other actions."""
    out, i = [], 0
    while i < len(ops):
        if ops[i]['op'] != 'tx':
            out.append(ops[i])
            i += 1
            continue
        j, data = i, []
        while j < len(ops) and ops[j]['op'] == 'tx':
            data += ops[j]['b']
            j += 1
        mode = r.randrange(4)
        if mode == 0:
            cuts = list(range(1, len(data)))
        elif mode == 1:
            cuts = []
        else:
            cuts = sorted(r.sample(range(1, len(data)), min(len(data) - 1, r.randrange(1, 5)))) if len(data) > 1 else []
        for a, c in zip([0] + cuts, cuts + [len(data)]):
            out.append({'op': 'tx', 'b': data[a:c], 's': True if mode != 3 else r.random() < 0.5})
        out[-1]['s'] = ops[j - 1].get('s', True)
        i = j
    return fix_tail(out)


def whole(ops):
    """The same actions with every line sent by itself, in one piece."""
    out, i = [], 0
    while i < len(ops):
        if ops[i]['op'] != 'tx':
            out.append(ops[i])
            i += 1
            continue
        j, data = i, []
        while j < len(ops) and ops[j]['op'] == 'tx':
            data += ops[j]['b']
            j += 1
        parts, k = [], 0
        while k < len(data):
            e = data.index(CR, k) + 1 if CR in data[k:] else len(data)
            parts.append(data[k:e])
            k = e
        out += [{'op': 'tx', 'b': p, 's': True} for p in parts]
        i = j
    return fix_tail(out)


def c03(report):
    bindir = vara_bin()
    mc(report, 'MCVaraCalls' + T)
    g = [('base', simulate(report, 'base', 120 * BIG, ops=['call', 'cancel', 'tx'], lines=['OK', 'NO', 'REP', 'PEND'],
                           maxops=16, calls=6)),
         ('cut', cover(report, 'cut', 150 * BIG, ops=['call', 'tx'], lines=['OK', 'REP', 'BAD'], pieces='CutPieces', maxops=5, calls=2)),
         ('con', cover(report, 'con', 100 * BIG, ops=['connect', 'tx', 'drop'], lines=['OK', 'NO', 'CONN', 'DISC'],
                       pieces='ConnectPieces', maxops=5 + X, sessions=2))]
    base, frag = [], []
    for s in concretise(report, 'C03', g):
        r = rng('cut', s['id'])
        base.append(dict(s, id=s['id'] + '-whole', ops=whole(s['ops'])))
        for v in range(3):
            frag.append(dict(s, id='%s-cut%d' % (s['id'], v), ops=cut(r, s['ops'])))
    # Long lines: good ones (leading zeros), and parts that would mean something by themselves.
    for i, n in enumerate(LONG if THOROUGH else [n for n in LONG if n < 1100 or n == 4097]):
        r = rng('C03', 'long', i)
        for v, last in enumerate(['7', 'OK', 'PTT ON', 'BUFFER 3'][i % 2::2]):
            line = b('BUFFER ' + '0' * n + last)
            ops = [{'op': 'call', 'cmd': api_call(r)}, {'op': 'tx', 'b': b('BUSY ON\r') + line + b('\rPTT ON\rOK\r')}, {'op': 'call', 'cmd': api_call(r)}]
            s = {'id': 'C03-long-%d-%d' % (i, v), 'probes': probes()}
            base.append(dict(s, id=s['id'] + '-whole', ops=whole([dict(o) for o in ops])))
            k = len('BUSY ON\r') + len(line) - len(last)
            data = ops[1]['b']
            at = sorted({r.choice([k, k, k - 1, k - n // 2, 9]), k, r.choice([k, len(data) - 3])})
            parts = [data[a:c] for a, c in zip([0] + at, at + [len(data)])]
            frag.append(dict(s, id=s['id'] + '-cut0', ops=ops[:1] + [{'op': 'tx', 'b': x} for x in parts if x] + ops[2:]))
    report.sample({'whole': readable(base[0]), 'cut': readable(frag[0])})
    chk = vara.ALL
    # Fragmentation must not matter: a cut trace is a violation if the whole one is fine.
    found = vara.check(report, bindir, frag, chk, trace_modes=(False,))
    if found:
        wanted = {u['id'].rsplit('-', 1)[0] + '-whole' for u, _, _ in found}
        tr = vara.run(bindir, [s for s in base if s['id'] in wanted])
        ok, _ = vara.validate(tr.values(), chk, report)
        rest = [f for f in found if f[0]['id'].rsplit('-', 1)[0] + '-whole' not in ok]
        if rest:
            say('%d scripts depart from the specification however they are cut: not a matter of fragmentation' % len(rest))
        found = [f for f in found if f not in rest]
    vara.report_all(report, found, chk)
    return report.finish()


def c04(report):
    bindir = vara_bin()
    mc(report, 'MCVaraCalls' + T)
    # every report alone and every pair, then long mixtures
    lines = ['BUSY ON', 'BUSY OFF', 'PTT ON', 'PTT OFF', 'IAMALIVE', 'PENDING', 'DISCONNECTED', 'CANCELPENDING', 'OK', 'WRONG',
             'CONNECTED W1AW K2XYZ', 'REGISTERED W1AW', 'REGISTERED K2XYZ-10', 'REGISTERED N0C', 'REGISTERED VE7ABCD',
             'BUFFER 0', 'BUFFER 1', 'BUFFER 65536', 'BUFFER 4294967296', 'BUFFER 18446744073709551615', 'BUFFER 0012']
    sc = []
    for i, x in enumerate(lines):
        for j, y in enumerate(lines):
            ops = [{'op': 'wait'}, {'op': 'tx', 'b': b(x + '\r')}, {'op': 'tx', 'b': b(y + '\r')}]
            sc.append({'id': 'C04-pair-%d-%d' % (i, j), 'slow': (i + j) % 4 == 0, 'probes': probes(), 'ops': ops})
    g = [('long', simulate(report, 'long', 120 * BIG, ops=['tx', 'call', 'cancel', 'connect', 'drop'], lines=['REP', 'OK', 'PEND', 'CONN', 'DISC', 'NO'],
                           maxops=40, calls=5, sessions=3, lag=2)),
         ('reps', simulate(report, 'reps', 120 * BIG, ops=['tx'], lines=['REP'], pieces='RepPieces', maxops=30, lag=2))]
    sc += concretise(report, 'C04', g)
    return finish(report, bindir, sc, ['st', 'ptt'])


def c05(report):
    bindir = vara_bin()
    mc(report, 'MCVaraCalls' + T)
    g = [('mix', cover(report, 'mix', 500 * BIG, ops=['call', 'cancel', 'tx', 'connect', 'handle'], lines=['OK', 'NO', 'BAD', 'REP'], pieces='JoinedPieces',
                       maxops=5 + X, calls=2, sessions=1, lag=1))]
    sc = concretise(report, 'C05', g)
    # Each malformed line, alone and behind an answered command, then one more command.
    r = rng('C05', 'lines')
    bad = [b(x) for x in BADS]
    bad += [[c] for c in range(256) if c != CR]
    bad += [b('OK') + [c] for c in range(256) if c != CR and (c < 48 or c > 126 or THOROUGH)]
    for v in VALID:
        bad += [list(mutate(r, v)) for _ in range(25 if not THOROUGH else 400)]
    bad += [[c for c in (r.randrange(256) for _ in range(r.randrange(1, 80))) if c != CR] for _ in range(100 * BIG)]
    uniq = {tuple(x) for x in bad}
    report.add('lines_tried', len(uniq))
    for i, x in enumerate(sorted(uniq)):
        call = lambda: {'op': 'call', 'cmd': api_call(r)}
        pre = b('OK\r') if i % 3 else []
        post = b(r.choice(['', 'OK\r', 'PTT ON\r', 'BUSY ON\r', 'CONNECTED W1AW K2XYZ\r']))
        ops = [call(), {'op': 'call', 'cmd': api_call(r), 's': False}, {'op': 'tx', 'b': pre + list(x) + [CR] + post}, call()]
        sc.append({'id': 'C05-line-%d' % i, 'slow': i % 4 == 0, 'probes': probes(), 'ops': ops})
    # Long lines that arrive in parts, the last of which would be a good line by itself.
    for i, (x, y) in enumerate(pick('C05long', [(n, v) for n in LONG for v in VALID], 120 * BIG)):
        head = (b(r.choice(['', 'BUFFER ', 'OK', 'PTT ON', '\n'])) + [r.choice([65, 48, 32, 0, 255])] * x)[:x]
        ops = [{'op': 'call', 'cmd': api_call(r)}, {'op': 'call', 'cmd': api_call(r), 's': False}, {'op': 'tx', 'b': head}]
        if i % 3 == 0:
            ops.append({'op': 'tx', 'b': head[:r.choice([1, 40, 2000])]})
        ops += [{'op': 'tx', 'b': b(y) + [CR]}, {'op': 'tx', 'b': b('OK\r')}, {'op': 'call', 'cmd': api_call(r)}]
        sc.append({'id': 'C05-long-%d' % i, 'slow': i % 4 == 0, 'probes': probes(), 'ops': ops})
    return finish(report, bindir, sc, ['calls', 'st', 'ptt', 'con', 'ctleof', 'panics'])


def c06(report):
    bindir = vara_bin()
    mc(report, 'MCVaraLive' + T)
    idle = [{'op': 'idle'}]
    g = [('calls', cover(report, 'calls', 10 ** 6, ops=['call', 'cancel', 'tx', 'close'], lines=['OK', 'REP'], pieces='CutPieces',
                         maxops=6 + X, calls=3, lag=1)),
         ('con', cover(report, 'con', 10 ** 6, ops=['connect', 'tx', 'close', 'drop', 'end', 'call'], lines=['OK', 'CONN', 'DISC', 'NO'],
                       maxops=7 + X, sessions=2, calls=1)),
         ('stream', opened(report, 'stream', ops=['read', 'write', 'flush', 'fill', 'dtx', 'close', 'drop', 'end', 'connect', 'tx'],
                                      lines=['REP'], pieces='SetUp', maxops=6 + X, sessions=1, data=1))]
    g = [(n, pick('C06' + n, [x for x in ss if any(o['op'] == 'close' for o in x)], 300 * BIG)) for n, ss in g]
    sc = concretise(report, 'C06', g, tail=idle, closing=('half', 'half', 'full'))
    chk = ['calls', 'con', 'end', 'rd', 'wr', 'spin', 'ctleof']
    return finish(report, bindir, [s for s in sc if any(o['op'] == 'close' for o in s['ops'])], chk)


def c07(report):
    bindir = vara_bin()
    mc(report, 'MCVaraLive' + T)
    g = [('handle', cover(report, 'handle', 800 * BIG, ops=['call', 'cancel', 'tx', 'handle', 'close'], lines=['OK', 'NO', 'REP'], pieces='WindPieces',
                          maxops=6 + X, calls=3, lag=1)),
         ('stream', cover(report, 'stream', 200 * BIG, ops=['connect', 'drop', 'tx', 'handle', 'call', 'cancel'], lines=['OK', 'DISC', 'REP'], pieces='SetUp',
                          maxops=7 + X, sessions=1, calls=1, lag=1))]
    sc = concretise(report, 'C07', g)
    sc = [s for s in sc if any(o['op'] == 'drophandle' for o in s['ops'])]
    # Half of them end with a look at the CPU.
    for s in sc[::2]:
        s['ops'].append({'op': 'idle'})
    return finish(report, bindir, sc, ['lines', 'ctleof', 'dataeof', 'spin'])


def c08(report):
    bindir = vara_bin()
    mc(report, 'MCVaraConnect' + T)
    g = [('one', cover(report, 'one', 800 * BIG, ops=['connect', 'cconnect', 'tx', 'drop', 'close'], lines=['OK', 'NO', 'CONN', 'DISC', 'PEND', 'REP'],
                       pieces='ConnectPieces', maxops=5 + X, sessions=2, lag=1)),
         ('two', cover(report, 'two', 800 * BIG, ops=['connect', 'tx', 'drop', 'end'], lines=['OK', 'NO', 'CONN', 'DISC', 'PEND'],
                       pieces='SetUp', maxops=7 + X, sessions=2)),
         ('long', simulate(report, 'long', 150 * BIG, ops=['connect', 'cconnect', 'tx', 'drop', 'end', 'call'], lines=['OK', 'OK', 'NO', 'CONN', 'CONN', 'DISC', 'PEND'],
                           pieces='ConnectPieces', maxops=30, sessions=8, calls=3, lag=1))]
    return finish(report, bindir, concretise(report, 'C08', g), ['lines', 'con'])


def opened(report, name, **kw):
    return cover(report, name, 10 ** 6, opened=True, **kw)


def c09(report):
    bindir = vara_bin()
    mc(report, 'MCVaraStream' + T)
    ops = ['connect', 'tx', 'read', 'cread', 'write', 'flush', 'dtx']
    g = [('end', opened(report, 'end', ops=ops, lines=['DISC', 'PEND', 'REP', 'CONN'], pieces='SetUp',
                                   maxops=6 + X, sessions=1, data=1)),
         ('fill', opened(report, 'fill', ops=['connect', 'tx', 'read', 'fill', 'shutdown', 'close'], lines=['DISC', 'PEND'], pieces='SetUp',
                                    maxops=6 + X, sessions=1)),
         ('late', opened(report, 'late', ops=['connect', 'tx', 'read', 'dtx', 'write'], lines=['DISC'], pieces='SetUp',
                                    maxops=6 + X, sessions=1, data=2, lag=1))]
    g = [(n, pick('C09' + n, s, 500 * BIG)) for n, s in g]
    g.append(('long', simulate(report, 'c09long', 150 * BIG, ops=['connect', 'tx', 'read', 'cread', 'write', 'flush', 'shutdown', 'fill', 'dtx', 'dclose'],
                               lines=['REP', 'PEND', 'DISC', 'CONN'], pieces='EndPieces', maxops=16, sessions=1, data=6, lag=1, opened=True)))
    # Ask again at the end: the answers must not change.
    again = [{'op': 'read', 'n': 8}, {'op': 'flush'}, {'op': 'read', 'n': 8}, {'op': 'write', 'b': [1, 2]}, {'op': 'shutdown'}]
    sc = []
    for s in concretise(report, 'C09', g):
        if any(o['op'] == 'tx' and bytes(o['b']).endswith(b'DISCONNECTED\r') for o in s['ops']):
            s['ops'] += [dict(o) for o in again]
        sc.append(s)
    # the TNC stops reading before the client fills the connection
    for s in sc:
        i = [k for k, o in enumerate(s['ops']) if o['op'] == 'fill']
        if i:
            s['ops'].insert(i[0], {'op': 'stall', 's': False})
    return finish(report, bindir, sc, ['rd', 'wr', 'con', 'panics'])


def c10(report):
    bindir = vara_bin()
    mc(report, 'MCVaraStream' + T)
    mc(report, 'MCVaraTwo' + T)
    ops = ['connect', 'tx', 'read', 'cread', 'write', 'flush', 'dtx', 'drop']
    g = [('io', opened(report, 'io', ops=ops, lines=['REP'], pieces='SetUp', maxops=6 + X, sessions=1, data=2)),
         ('two', opened(report, 'two', ops=['connect', 'tx', 'read', 'dtx', 'drop'], lines=['DISC'], pieces='SetUp', maxops=6 + X, sessions=2, data=2))]
    g = [(n, pick('C10' + n, s, 500 * BIG)) for n, s in g]
    g.append(('long', simulate_stream(report, 120 * BIG)))
    # At the end, read what is left.
    tail = [{'op': 'read', 'n': 100000}, {'op': 'read', 'n': 100000}, {'op': 'flush'}]
    return finish(report, bindir, concretise(report, 'C10', g, tail=tail, big=True), ['rd', 'wr', 'out', 'con'])


def simulate_stream(report, n):
    ss = simulate(report, 'stream', n * 3, ops=['connect', 'tx', 'read', 'write', 'dtx', 'flush', 'drop'], lines=['REP', 'DISC'], pieces='SetUp',
                  maxops=40, sessions=4, data=30, lag=1, opened=True)
    return [x for x in ss if sum(o['op'] in ('read', 'write') for o in x) > 3][:n]


def c11(report):
    bindir = vara_bin()
    mc(report, 'MCVaraTwo' + T)
    mc(report, 'MCVaraConnect' + T)
    g = [('ends', opened(report, 'ends', ops=['connect', 'tx', 'drop', 'end', 'call'], lines=['OK', 'NO', 'DISC', 'PEND', 'CONN'], pieces='SetUp',
                                    maxops=5 + X, sessions=2, calls=1, lag=1)),
         ('next', [x for x in cover(report, 'next', 10 ** 6, ops=['connect', 'tx', 'drop', 'cconnect', 'handle'], lines=['OK', 'DISC'], pieces='SetUp',
                                    maxops=8 + X, sessions=3, lag=1) if x[0]['op'] == 'connect'])]
    g = [(n, pick('C11' + n, s, 800 * BIG)) for n, s in g]
    g.append(('long', simulate(report, 'long', 120 * BIG, ops=['connect', 'cconnect', 'tx', 'drop', 'end', 'call'], lines=['OK', 'OK', 'NO', 'CONN', 'DISC', 'PEND'],
                               pieces='ConnectPieces', maxops=30, sessions=8, calls=3, lag=1)))
    return finish(report, bindir, concretise(report, 'C11', g), ['lines', 'end'])


# Lengths of lines, around those at which buffers grow.
LONG = [20, 31, 32, 33, 40, 48, 63, 64, 65, 96, 100, 127, 128, 129, 200, 255, 256, 257, 400, 511, 512, 513, 1000, 1023, 1024, 1025, 2000,
        2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9000]

T = 'Deep' if THOROUGH else ''
X = 1 if THOROUGH else 0


def vara_bin():
    d = build('vara')
    say('harness built')
    return d
