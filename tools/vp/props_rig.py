"""C12 and C13: the rig task."""
import json
from .common import *
from . import trace
from .gen import drop_prefixes

BIG = 6 if THOROUGH else 1
X = 1 if THOROUGH else 0
CFG = 'CONSTANTS\n  Code <- TCode'


def gen(report, name, cap, ops, maxops, cmds, lag=0, chan=1, sim=0):
    c = """SPECIFICATION GSpec
CONSTANTS
  Code <- GCode
  Ops = {%s}
  MaxOps = %d
  MaxCmds = %d
  MaxLag = %d
  Cap = %d
  AllLengths = %s
INVARIANT PrintScript
%s
CHECK_DEADLOCK FALSE
""" % (', '.join('"%s"' % o for o in ops), maxops, cmds, lag, chan, 'FALSE' if sim else 'TRUE', '' if sim else 'VIEW View')
    a = ('-simulate', 'num=%d' % (sim * 3), '-depth', str(maxops * 5), '-seed', str(SEED * 1000 + len(name))) if sim else ()
    r = tlc('GenRig', c, args=a, timeout=800)
    report.tlc(r, 'GenRig ' + name)
    ss = drop_prefixes(trace.scripts_of(r.text))
    report.add('scripts_generated', len(ss))
    if len(ss) > cap:
        ss = rng('rig', name).sample(ss, cap)
    return [(chan, s) for s in ss]


FAILS = ['reset', 'broken', 'aborted', 'timeout', 'eoferr', 'data', 'denied', 'gone', 'other', 'nodev', 'nxio', 'io']
RESPONSES = ['FA00014060000;', 'IF00014060000     +000000 0002000001 ;', 'TQ1;', 'TQ0;', '?;', 'K31;', 'OM A-------------;', 'PS1;', 'TX;', 'RX;']


def radio(r, p):
    b = lambda s: list(s.encode('latin1'))
    if p == 'whole':
        return b(r.choice(RESPONSES))
    if p == 'part':
        x = b(r.choice(RESPONSES))
        return x[:r.randrange(1, len(x))]
    if p == 'end':
        return r.choice([b(';'), b('1;'), b('00;'), b('\xff;')])
    if p == 'empty':
        return b(';') * r.choice([1, 1, 2, 5, 40])
    if p == 'junk':
        return [r.randrange(256) for _ in range(r.choice([1, 2, 9, 30]))]
    if p == 'long':
        return [r.choice(range(256) if r.random() < 0.2 else range(65, 91)) for _ in range(r.choice([31, 32, 33, 63, 64, 65, 200, 5000]))] + r.choice([[], b(';')])
    return [c for _ in range(r.randrange(2, 7)) for c in b(r.choice(RESPONSES + [';', '\xfe\xff;']))]


def concretise(report, prop, groups, variants=1):
    out = []
    for gname, gs in groups:
        for i, (chan, ops) in enumerate(gs):
            for v in range(variants):
                r = rng(prop, gname, i, v)
                s = []
                if r.random() < 0.4:
                    s.append({'op': 'bite', 'n': r.choice([1, 1, 2, 3, 4]), 's': False})
                if r.random() < 0.5:
                    s.append({'op': 'piece', 'n': r.choice([1, 1, 2, 5, 31, 32, 33]), 's': False})
                for o in ops:
                    o = dict(o)
                    if o['op'] == 'radio':
                        o['b'] = radio(r, o.pop('p'))
                    elif o['op'] == 'end':
                        o['how'] = r.choice(['eof'] * 4 + FAILS)
                        o['once'] = r.random() < 0.4
                    elif o['op'] == 'wend':
                        o['how'] = r.choice(['zero'] + FAILS)
                        o['once'] = r.random() < 0.4
                    elif o['op'] == 'flood':
                        o['n'] = r.choice([300, 1000])
                    s.append(o)
                s[-1]['s'] = True
                out.append({'id': '%s-%s-%d-%d' % (prop, gname, i, v), 'cap': chan, 'ops': s, 'slow': r.random() < 0.3})
    report.add('scripts', len(out))
    return out


def falsify(t, chk, r):
    t = json.loads(json.dumps(t))
    t['id'] = 'corrupt-' + t['id']
    obs = [e['o'] for e in t['ev'] if 'o' in e]
    for _ in range(40):
        o, f = r.choice(obs), r.choice(chk)
        if f == 'out' and o['out']:
            k = r.randrange(3)
            if k == 0:
                o['out'][r.randrange(len(o['out']))] ^= 1
            elif k == 1:
                o['out'] = o['out'][:-1]
            else:
                o['out'] += o['out']
            return t
        if f == 'task' and o['task'] in ('ok', 'err'):
            o['task'] = {'ok': 'err', 'err': 'ok'}[o['task']] if r.random() < 0.6 else 'run'
            return t
    return None


def decide(report, prop, scripts, chk):
    rig = os.path.join(build('rig'), 'rig')
    traces = []
    byid = {s['id']: s for s in scripts}
    for m in (0, 1):
        for t in trace.run(rig, [s for i, s in enumerate(scripts) if i % 2 == m], args=('trace',) if m else ()):
            t['log'] = bool(m)
            traces.append(t)
    say('ran %d scripts against the real task' % len(traces))
    r = rng('falsify')
    false_ones = [c for c in (falsify(t, [f for f in chk if f in ('out', 'task')], r) for t in r.sample(traces, min(16, len(traces)))
                              if any('o' in e for e in t['ev'])) if c]
    ok, _ = trace.validate('TraceRig', traces + false_ones, chk, report, extra=CFG)
    report.add('traces_validated_against_impl', len(traces))
    report.add('events_validated', sum(len(t['ev']) for t in traces))
    for s in scripts[:2]:
        report.sample(s)
    fair = [t for t in false_ones if t['id'][8:] in ok]
    wrong = [t for t in fair if t['id'] in ok]
    if len(wrong) > max(1, len(fair) // 4):
        raise ToolError('falsified traces were accepted: ' + json.dumps(wrong[0])[:1500])
    report.add('falsified_traces', len(fair))
    report.add('falsified_traces_rejected', len(fair) - len(wrong))
    bad = [t for t in traces if t['id'] not in ok]
    say('%d of %d traces accepted' % (len(traces) - len(bad), len(traces)))
    n = 0
    for t in sorted(bad, key=lambda t: len(t['ev']))[:30]:
        if n == 5:
            break
        again = [t] if t['ev'] and t['ev'][-1]['op'] in ('hang', 'crash') else []
        while len(again) < 5 and not (again and again[0]['ev'][-1]['op'] in ('hang', 'crash')):
            again += trace.run(rig, [byid[t['id']]], args=('trace',) if t['log'] else (), jobs=1)
        for u in again:
            okk, at = trace.validate('TraceRig', [u], chk, where=True, extra=CFG)
            if u['id'] not in okk:
                k = at.get(u['id'], 1)
                e = u['ev'][min(k, len(u['ev'])) - 1]
                report.violation('script %s (log level %s): the rig task departs from the specification at event %d of %d: %s%s' % (
                    u['id'], 'TRACE' if t['log'] else 'off', k, len(u['ev']), json.dumps(e)[:400], ('; panic: ' + u['why'][:200]) if u.get('why') else ''),
                    {'script': byid[t['id']], 'compared': chk, 'trace': u})
                n += 1
                break
    return report.finish()


def mc(report):
    for c in ('MCRig', 'MCRigLive'):
        c += 'Deep' if THOROUGH else ''
        r = tlc('MCRig', c + '.cfg', workers=JOBS, heap='8g', timeout=850)
        report.tlc(r, c)
        say('model %s: %d states' % (c, r.distinct))


def c12(report):
    mc(report)
    a = ['try', 'send', 'radio', 'room', 'drop']
    g = [('mix', gen(report, 'mix', 2500 * BIG, a, 5 + X, 3)),
         ('lag', gen(report, 'lag', 1500 * BIG, ['try', 'send', 'radio', 'room'], 4 + X, 3, lag=2)),
         ('flood', gen(report, 'flood', 400 * BIG, ['try', 'flood', 'drop'], 12, 8, lag=3, chan=3, sim=400 * BIG)),
         ('two', gen(report, 'two', 500 * BIG, ['try', 'send', 'radio'], 5 + X, 4, lag=2, chan=2)),
         ('long', gen(report, 'long', 400 * BIG, a[:4] + ['clone'], 40, 25, lag=2, sim=400 * BIG)),
         ('wide', gen(report, 'wide', 100 * BIG, a[:4], 60, 50, lag=3, chan=8, sim=100 * BIG))]
    return decide(report, 'C12', concretise(report, 'C12', g), ['out', 'fair', 'sent', 'spin'])


def c13(report):
    mc(report)
    a = ['try', 'send', 'radio', 'room', 'clone', 'drop', 'end', 'wend']
    g = [('mix', gen(report, 'mix', 2500 * BIG, a, 4 + X, 2)),
         ('ends', gen(report, 'ends', 1500 * BIG, ['try', 'send', 'drop', 'end', 'wend', 'radio'], 4 + X, 2, lag=2)),
         ('room', gen(report, 'room', 800 * BIG, ['try', 'room', 'drop', 'end', 'wend'], 6 + X, 2)),
         ('long', gen(report, 'long', 400 * BIG, a, 24, 10, lag=2, sim=400 * BIG))]
    return decide(report, 'C13', concretise(report, 'C13', g), ['out', 'sent', 'task', 'spin'])
