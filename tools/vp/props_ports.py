"""C23: the ports a TNC handle is built on."""
import json
from .common import *
from . import trace

CFG = 'CONSTANTS\n  Host0 = "127.0.0.1"\n  Port0 = 8300\n  MaxPort = 65535\n  How <- THow'


def c23(report):
    c = 'MCPorts' + ('Deep' if THOROUGH else '')
    r = tlc('MCPorts', c + '.cfg', workers=JOBS, timeout=850)
    report.tlc(r, c)
    say('model %s: %d states' % (c, r.distinct))
    scripts = []
    rg = rng('C23')

    def fresh():
        return '127.%d.%d.%d' % (rg.randrange(1, 255), rg.randrange(256), rg.randrange(1, 255))

    def add(net, ops, name):
        ops = [dict(o) for o in ops]
        scripts.append({'id': 'C23-%s-%d' % (name, len(scripts)), 'net': [{'h': h, 'p': p, 'how': how} for (h, p), how in sorted(net.items())], 'ops': ops})

    O = lambda op, **k: dict({'op': op}, **k)
    build, call = O('build'), O('call')
    plain = [1, 2, 1023, 1024, 8299, 8300, 8301, 8302, 32767, 32768, 49152, 65533, 65534, 65535]

    def script(name, controls, datas, hosts=1, setters=None, hows=None, builds=1):
        """One builder, set up in some order, built; what it may reach is open unless hows says otherwise."""
        hs = [fresh() for _ in range(hosts)]
        cur = {'h': '127.0.0.1', 'c': 8300, 'd': 0}
        ops, net = [], {}
        todo = [('host', h) for h in hs] + [('control', p) for p in controls] + [('data', p) for p in datas]
        if setters is None:
            rg.shuffle(todo)
        else:
            todo = setters(todo)
        cuts = sorted(rg.sample(range(1, len(todo) + 1), builds - 1)) if builds > 1 and len(todo) >= builds else []
        # Build only where the default host is out of the way.
        first_host = next(i for i, t in enumerate(todo) if t[0] == 'host')
        cuts = [x for x in cuts if x > first_host]
        full = False
        for i, t in enumerate(todo):
            if i in cuts:
                ops.append(build)
            ops.append(O(t[0], **({'h': t[1]} if t[0] == 'host' else {'p': t[1]})))
        ops.append(build)
        # Everything around is open by default, so that a wrong port shows as a wrong connection.
        near = set(controls) | set(datas) | {8300, 8301}
        near |= {p + d for p in near for d in (-1, 1)}
        for h in hs:
            for p in near:
                if 1 <= p <= 65535:
                    net[h, p] = 'open'
        if hows:
            hows(net, hs)
        return ops, net

    def result(ops, net):
        """Whether the last build succeeds, only to know whether a command can follow."""
        h, c, d, ok = '127.0.0.1', 8300, 0, False
        for o in ops:
            if o['op'] == 'host':
                h = o['h']
            elif o['op'] == 'control':
                c = o['p']
            elif o['op'] == 'data':
                d = o['p']
            elif o['op'] == 'build':
                ok = not (c == 65535 and not d) and net.get((h, c)) == 'open' and net.get((h, d or c + 1)) == 'open'
        return ok

    def go(name, *a, **k):
        ops, net = script(name, *a, **k)
        add(net, ops + ([call] if result(ops, net) else []), name)

    for p in plain:
        go('default', [p], [])
        for d in plain:
            go('both', [p], [d])
    for d in plain:
        go('data', [], [d])
    go('none', [], [])
    # Either side, or both, unreachable.
    for p, d in [(8300, 0), (5000, 0), (5000, 6000), (6000, 5000), (65535, 5000), (65534, 0), (5000, 65535), (1, 0), (5000, 5001), (5000, 4999)]:
        e = d or p + 1
        for down in ([p], [e], [p, e]):
            def hows(net, hs, down=down):
                for x in down:
                    net[hs[0], x] = 'closed'
            go('down', [p], [d] if d else [], hows=hows)
    # Settings replaced, builders used again.
    for i in range(60 if not THOROUGH else 600):
        cs = [rg.choice(plain + [rg.randrange(1, 65536)]) for _ in range(rg.randrange(0, 3))]
        ds = [rg.choice(plain + [rg.randrange(1, 65536)]) for _ in range(rg.randrange(0, 3))]

        def hows(net, hs):
            for k in net:
                if rg.random() < 0.12:
                    net[k] = 'closed'
        go('again', cs, ds, hosts=rg.choice([1, 1, 2]), builds=rg.choice([1, 2, 3]), hows=hows)
    # The control connection is still under way: nothing else is connected yet.
    for p, d in [(5000, 0), (5000, 6000), (6000, 5000), (65535, 7000), (8300, 0)] + ([(7000, 7001), (7000, 6999), (65534, 0)] if THOROUGH else []):
        for who in ('control', 'data'):
            def hows(net, hs):
                net[hs[0], p if who == 'control' else (d or p + 1)] = 'full'
            ops, net = script('slow', [p], [d] if d else [], hows=hows)
            add(net, ops + [O('admit')], 'slow')
    # The defaults.
    add({('127.0.0.1', 8300): 'open', ('127.0.0.1', 8301): 'open'}, [build, call], 'defaults')
    add({('127.0.0.1', 8300): 'open', ('127.0.0.1', 8301): 'closed'}, [build], 'defaults')
    add({('127.0.0.1', 8300): 'closed', ('127.0.0.1', 8301): 'open'}, [build], 'defaults')
    add({('127.0.0.1', 8300): 'open', ('127.0.0.1', 8301): 'open'}, [O('control', p=65535), build, O('control', p=8300), build, call], 'defaults')
    for p in (5000, 65534, 8300):
        add({('::1', p): 'open', ('::1', p + 1): 'open'}, [O('host', h='::1'), O('control', p=p), build, call], 'v6')
        add({('::1', p): 'open', ('::1', 7777): 'open'}, [O('host', h='::1'), O('control', p=p), O('data', p=7777), build, call], 'v6')
    ports = os.path.join(build_('ports'), 'ports')
    # Scripts that share an address go one after another.
    own = [s for s in scripts if not any(x in s['id'] for x in ('defaults', 'v6'))]
    traces = trace.run(ports, own) + trace.run(ports, [s for s in scripts if s not in own], jobs=1)
    skipped = [t for t in traces if t.get('skip')]
    traces = [t for t in traces if not t.get('skip')]
    for t in skipped[:3]:
        say('left out: %s: %s' % (t['id'], t['skip']))
    report.add('scripts', len(scripts))
    report.add('scripts_left_out_address_taken', len(skipped))
    if len(skipped) > len(scripts) // 4:
        raise ToolError('too many addresses are taken')
    say('ran %d scripts against the real builder' % len(traces))
    false_ones = []
    for t in rg.sample(traces, min(14, len(traces))):
        u = json.loads(json.dumps(t))
        u['id'] = 'corrupt-' + u['id']
        o = [e['o'] for e in u['ev'] if 'o' in e and e['op'] == 'build'][-1:]
        if not o:
            continue
        o = o[0]
        if o['conns'] and rg.random() < 0.6:
            o['conns'][0][1] += 1
        elif o['res'] in ('ok', 'err'):
            o['res'] = {'ok': 'err', 'err': 'ok'}[o['res']]
        else:
            o['conns'].append(['127.0.0.1', 1])
        false_ones.append(u)
    ok, _ = trace.validate('TracePorts', traces + false_ones, [], report, extra=CFG)
    if any(t['id'] in ok for t in false_ones):
        raise ToolError('falsified traces were accepted')
    report.add('falsified_traces_rejected', len(false_ones))
    report.add('traces_validated_against_impl', len(traces))
    report.add('events_validated', sum(len(t['ev']) for t in traces))
    for s in scripts[:3]:
        report.sample(s)
    bad = [t for t in traces if t['id'] not in ok]
    say('%d of %d traces accepted' % (len(traces) - len(bad), len(traces)))
    byid = {s['id']: s for s in scripts}
    n = 0
    for t in bad[:20]:
        if n == 5:
            break
        again = [t] if t['ev'] and t['ev'][-1]['op'] in ('hang', 'crash') else trace.run(ports, [byid[t['id']]], jobs=1) + trace.run(ports, [byid[t['id']]], jobs=1)
        for u in again:
            if u.get('skip'):
                continue
            okk, at = trace.validate('TracePorts', [u], [], where=True, extra=CFG)
            if u['id'] not in okk:
                k = min(at.get(u['id'], 1), len(u['ev']))
                report.violation('script %s: building a handle departs from the specification at event %d of %d: %s%s' % (
                    u['id'], k, len(u['ev']), json.dumps(u['ev'][k - 1])[:500], ('; panic: ' + u['why'][:200]) if u.get('why') else ''), {'script': byid[t['id']], 'trace': u})
                n += 1
                break
    return report.finish()


build_ = build
