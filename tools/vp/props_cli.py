"""C24: the settings the program starts with."""
import json, os, re, sys
from .common import *
from . import trace, gen
from .props_app import app_bin

FIELDS = ['target', 'my', 'host', 'control', 'data', 'rig', 'baud', 'log', 'env', 'file', 'other']
FLAG = {'my': ('-d', '--de'), 'host': (None, '--modem-address'), 'control': (None, '--modem-control-port'), 'data': (None, '--modem-data-port'),
        'rig': (None, '--rig-control'), 'baud': (None, '--rig-baud'), 'log': ('-l', '--log')}


def txt(x):
    return bytes(x)


def commandline(r, a):
    """The arguments, in some order and spelling."""
    groups = [[txt(v)] for v in a['target']] + [[txt(v)] for v in a['other']]
    for f, (short, long_) in FLAG.items():
        for v in a[f]:
            v = b'\0radio' if f == 'rig' else txt(v)
            k = r.randrange(4)
            if short and k == 0 and v and v[:1] != b'=':
                groups.append([short.encode() + v])
            elif short and k == 1:
                groups.append([short.encode(), v])
            elif k == 2 and v and v[:1] != b'=':
                groups.append([long_.encode() + b'=' + v])
            else:
                groups.append([long_.encode(), v])
    order = list(range(len(groups)))
    r.shuffle(order)
    return [list(x) for i in order for x in groups[i]]


def near_ports(q):
    out = []
    for v in q:
        m = re.match(rb'\s*[+-]*0*(\d+)', txt(v))
        if m:
            n = int(m.group(1))
            out += [n, n % 65536, n & 0x7fff if n > 65535 else n, n // 10]
    return out


def script(i, r, a, name, ops):
    a = json.loads(json.dumps(a))
    hosts = [txt(v).decode('latin1') for v in a['host']]
    own = '127.%d.%d.%d' % (r.randrange(1, 255), r.randrange(256), r.randrange(1, 255))
    shared = True
    if hosts and all(h.startswith('127.77.') for h in hosts):
        a['host'] = [list(own.encode()) for _ in hosts]
        listen_at, shared = own, False
    elif hosts and all(':' in h for h in hosts):
        listen_at = '::1'
    else:
        listen_at = '127.0.0.1'
    ports = []
    for p in near_ports(a['control']) + near_ports(a['data']) + [8300]:
        for p in (p, p + 1):
            if 1 <= p <= 65535 and p not in ports:
                ports.append(p)
    c = re.fullmatch(rb'\+?(\d+)', txt(a['control'][0])) if a['control'] else None
    s = {'id': 'C24-%s-%d' % (name, i), 'a': a, 'control': int(c.group(1)) if c else 8300, 'args': commandline(r, a), 'listen': [[listen_at, p] for p in ports], 'ops': ops, 'extra': r.choice([0, 0, 1]),
         'env': txt(a['env'][0]).decode() if a['env'] else None, 'file': txt(a['file'][0]).decode() if a['file'] else None}
    return s, shared


def c24(report):
    c = 'MCCli'
    cfg = open(os.path.join(SPEC, c + '.cfg')).read()
    r = tlc(c, cfg, workers=JOBS, timeout=850, heap='8g')
    report.tlc(r, c)
    say('model %s: %d states' % (c, r.distinct))
    r = tlc(c, cfg.replace('Vary = 2', 'Vary = 1').replace('Show = FALSE', 'Show = TRUE').replace('INVARIANTS', 'INVARIANTS PrintScript'), timeout=600)
    report.tlc(r, c + ' scripts')
    single = trace.scripts_of(r.text)
    report.add('scripts_generated', len(single))
    rg = rng('C24')
    base = next(x for x in single if x['log'] and txt(x['log'][0]) == b'off' and all(len(x[f]) == (0 if f in ('control', 'data', 'env', 'file', 'other') else 1) for f in FIELDS)
                and txt(x['target'][0]) == b'W1AW' and txt(x['my'][0]) == b'K2XYZ' and txt(x['host'][0]).startswith(b'127.77.') and txt(x['baud'][0]) == b'38400')
    dom = {f: [json.loads(v) for v in sorted({json.dumps(x[f]) for x in single})] for f in FIELDS}
    want = []
    for x in single:
        want.append(('one', x))
    for _ in range(4000 if THOROUGH else 350):
        x = dict(base)
        for f in rg.sample(FIELDS, rg.choice([2, 2, 3, 4])):
            x[f] = rg.choice(dom[f])
        want.append(('some', x))
    # Mostly fit: everything is chosen, and at most one setting is not plain.
    good = {'target': ['W1AW', 'k2xyz', 'Kc1Gsl-15', '9a1aa', 've7abcd-t', 'N0CALL-Z', 'G4A', '2e0abc'], 'control': ['1023', '5000', '8300', '+5000', '05000', '65534'],
            'data': ['1', '5001', '8302', '65535', '+6000', '0007000'], 'baud': ['4800', '9600', '19200', '38400'], 'log': ['off', 'OFF', 'info', 'Warn', 'plusendi=trace', '3']}
    good['my'] = good['target']
    for _ in range(1500 if THOROUGH else 200):
        x = dict(base)
        for f, vs in good.items():
            if f not in ('control', 'data', 'log') or rg.random() < 0.7:
                x[f] = [list(rg.choice(vs).encode())]
        if rg.random() < 0.25:
            f = rg.choice(FIELDS)
            x[f] = rg.choice(dom[f])
        if x['control'] and x['data'] and int(txt(x['control'][0]) or b'0' if re.fullmatch(rb'\+?\d+', txt(x['control'][0])) else b'0') == int(txt(x['data'][0]) if re.fullmatch(rb'\+?\d+', txt(x['data'][0])) else b'0'):
            x['data'] = []
        want.append(('fit', x))
    # Characters put into, taken from and changed in values that fit.
    odd = ['\n', '\r', ' ', '\t', '-', '.', ':', '0', '9', 'z', '\u00e9', '\u0661', '\uff11', '\u212a', '/', ',', '+', '=']
    for _ in range(2500 if THOROUGH else 300):
        x = dict(base)
        f = rg.choice(['target', 'my', 'host', 'control', 'data', 'baud', 'target', 'my'])
        v = rg.choice(good[f]) if f != 'host' else '127.0.0.1'
        k = rg.randrange(len(v) + 1)
        ch = rg.choice(odd)
        v = rg.choice([v[:k] + ch + v[k:], v[:k] + v[k + 1:], v[:k] + ch + v[k + 1:]])
        if v.startswith('-') and f == 'target' or f == 'host' and not strange(v):
            continue
        x[f] = [list(v.encode())]
        want.append(('near', x))
    own, shared, seen = [], [], set()
    for i, (name, x) in enumerate(want):
        key = json.dumps(x, sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        r = rng('C24', name, i)
        ops = r.choice([['ok', 'ok', 'ok'], ['ok', 'ok', 'ok'], ['ok', 'ok', 'ok', 'wrong'], ['ok', 'wrong'], ['wrong'], ['ok', 'ok', 'wrong']])
        s, sh = script(i, r, x, name, ops)
        (shared if sh else own).append(s)
    report.add('scripts', len(own) + len(shared))
    binary = app_bin()
    drive = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'clidrive.py')
    fly = lambda ss, jobs=JOBS: trace.run(sys.executable, ss, pre=(drive,), args=(binary,), jobs=jobs)
    traces = fly(own) + fly(shared, 1)
    skipped = [t for t in traces if t.get('skip')]
    traces = [t for t in traces if not t.get('skip')]
    report.add('scripts_left_out_address_taken', len(skipped))
    if len(skipped) > max(5, len(traces) // 5):
        raise ToolError('too many addresses are taken: ' + skipped[0]['skip'])
    say('ran %d command lines with the real program' % len(traces))
    false_ones = [falsify(rg, t) for t in rg.sample(traces, min(40, len(traces)))]
    ok, _ = trace.validate('TraceCli', traces + false_ones, [], report)
    fair = [t for t in false_ones if t['id'][8:] in ok]
    if any(t['id'] in ok for t in fair):
        raise ToolError('falsified traces were accepted: ' + json.dumps([t for t in fair if t['id'] in ok][0])[:1500])
    report.add('falsified_traces_rejected', len(fair))
    report.add('traces_validated_against_impl', len(traces))
    report.add('events_validated', sum(len(t['ev']) for t in traces))
    began = sum(bool(t['ev'][0]['o']['conns']) for t in traces)
    report.add('started', began)
    report.add('refused', len(traces) - began)
    for s in (own + shared)[:2]:
        report.sample({'args': [txt(x).decode('latin1') for x in s['args']]})
    bad = [t for t in traces if t['id'] not in ok]
    say('%d of %d traces accepted (%d starts, %d refusals)' % (len(traces) - len(bad), len(traces), began, len(traces) - began))
    byid = {s['id']: s for s in own + shared}
    for t in sorted(bad, key=lambda t: len(t['ev']))[:4]:
        again = [u for u in fly([dict(byid[t['id']], id=t['id'] + '-again%d' % i) for i in range(3)], jobs=1) if not u.get('skip')]
        okk, at = trace.validate('TraceCli', again, [], where=True)
        rej = [u for u in again if u['id'] not in okk]
        if not rej:
            say('script %s was rejected once and not again' % t['id'])
            report.add('rejections_not_reproduced')
            continue
        u = rej[0]
        e = u['ev'][min(at.get(u['id'], 1), len(u['ev'])) - 1]
        o = dict(e['o'], lines=[txt(x).decode('latin1') for x in e['o']['lines']], print=txt(e['o']['print']).decode('latin1'), conns=[[txt(h).decode(), p] for h, p in e['o']['conns']])
        report.violation('plusendi %s (RUST_LOG %r, file %r): the program departs from the specification at "%s": %s; stderr: %s' % (
            ' '.join(repr(txt(x).decode('latin1'))[:80] for x in byid[t['id']]['args']), byid[t['id']]['env'], byid[t['id']]['file'], e['op'], json.dumps(o)[:600],
            u.get('stderr', '')[-200:].replace('\n', ' ')), {'script': byid[t['id']], 'trace': u})
    return report.finish()


def strange(v):
    """Not an address, so that nothing outside is ever reached if it should be taken for one."""
    return not re.fullmatch(r'[\d.]+', v) or v.startswith('127.')


def falsify(r, t):
    t = json.loads(json.dumps(t))
    t['id'] = 'corrupt-' + t['id']
    o = t['ev'][0]['o']
    if o['conns']:
        k = r.randrange(4)
        if k == 0:
            o['conns'][r.randrange(2)][1] += 1
        elif k == 1:
            o['lines'][0][-1] += 1
        elif k == 2:
            o['radio']['speed'] += 1
        else:
            o['conns'].pop()
    else:
        k = r.randrange(4)
        if k == 0:
            o['panics'] = True
        elif k == 1:
            o['status'] = 'ok'
        elif k == 2:
            o['radio']['own'] = True
        else:
            o['conns'].append([list(b'127.0.0.1'), 8300])
    return t
