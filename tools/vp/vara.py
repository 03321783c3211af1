"""Runs scripts against the real VARA client and validates the traces against spec/TraceVara.tla."""
import json, os, re, subprocess
from .common import *

ALL = ['lines', 'calls', 'st', 'ptt', 'con', 'end', 'rd', 'wr', 'out', 'ctleof', 'dataeof', 'panics', 'spin']


def runs(b):
    out = []
    for x in b:
        if out and out[-1][0] == x:
            out[-1][1] += 1
        else:
            out.append([x, 1])
    return out


def run(bindir, scripts, trace=False, timeout=600):
    """Runs the scripts (each {'id', 'probes', 'ops'}); returns traces by id."""
    def one(part):
        f, out = tmpfile('.scripts'), tmpfile('.traces')
        todo, got = list(part), []
        t0 = time.time()
        while todo:
            with open(f, 'w') as h:
                for s in todo:
                    h.write(json.dumps(s) + '\n')
            open(out, 'w').close()
            p = subprocess.run([os.path.join(bindir, 'vara'), f, out] + (['trace'] if trace else []),
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
            new = [json.loads(l) for l in open(out)]
            got += new
            if p.returncode == 0:
                break
            if p.returncode == 77 and new:      # a hang, recorded as such
                todo = todo[len(new):]
            elif len(new) < len(todo) and died(p):   # the process died on this script
                s = todo[len(new)]
                got.append({'id': s['id'], 'p0': 0, 'panic': died(p), 'ev': [{'op': 'crash'}]})
                todo = todo[len(new) + 1:]
            else:
                raise ToolError('harness: exit %s %s' % (p.returncode, p.stderr.decode(errors='replace')[-2000:]))
            # Each hang costs seconds: enough is enough.
            if sum(e['ev'][-1]['op'] in ('hang', 'crash') for e in got if e['ev']) >= 3:
                break
        return got
    traces = {}
    byid = {s['id']: s for s in scripts}
    for part in pmap(one, chunks(scripts, JOBS)):
        for t in part:
            t.setdefault('p0', 0)
            t['probes'] = byid[t['id']]['probes']
            t['trace_log'] = trace
            for e in t['ev']:
                if e['op'] in ('write', 'writev', 'dtx'):
                    e['b'] = e.pop('runs') if 'runs' in e else runs(e['b'])
            traces[t['id']] = t
    return traces


CFG = """SPECIFICATION TraceSpec
CONSTANTS
  CR <- CrB
  Meaning <- LineMeaning
  DataLen <- RunSize
  DataHead <- RunPart
  DataRest <- RunRest
  DataJoin <- RunJoin
INVARIANTS TraceInv %s
CHECK_DEADLOCK FALSE
"""


def validate(traces, chk, report=None, where=False):
    """Ids of the traces that are behaviours of the specification (and how far the others got)."""
    traces = list(traces)
    if not traces:
        return set(), {}

    def one(part):
        f = tmpfile('.json')
        json.dump({'chk': chk, 'traces': part}, open(f, 'w'))
        r = tlc('TraceVara', CFG % ('Where Reached' if where else 'Reached'), env={'TRACES': f}, timeout=800)
        os.remove(f)
        return r
    ok, at = set(), {}
    parts = chunks(traces, JOBS if len(traces) > 40 else 1)
    for r in pmap(one, parts):
        ok |= set(re.findall(r'<<"accept", "([^"]+)">>', r.text))
        for i, l, busy in re.findall(r'<<"at", "([^"]+)", (\d+), (TRUE|FALSE)>>', r.text):
            at[i] = max(at.get(i, (0, '')), (int(l), busy))
        if report:
            report.tlc(r)
    return ok, at


def corrupt(t, chk, r):
    """A copy of a trace with one observed field falsified, which must not be accepted."""
    t = json.loads(json.dumps(t))
    gone = any(e['op'] == 'close' and e.get('how') != 'half' for e in t['ev'])
    filled = any(e['op'] == 'fill' for e in t['ev'])
    t['id'] = 'corrupt-' + t['id']
    obs = [e['o'] for e in t['ev'] if 'o' in e]
    for _ in range(50):
        o = r.choice(obs)
        f = r.choice([f for f in chk if f not in ('spin', 'panics', 'junk')] or chk)
        if f == 'lines' and o['lines'] and not gone:
            if r.random() < 0.5 or not all(e.get('s', True) for e in t['ev']):
                o['lines'][-1][-1] ^= 1
            else:
                o['lines'] = o['lines'][:-1] if r.random() < 0.5 else o['lines'] + [o['lines'][-1]]
            return t
        if f == 'calls' and any(c in ('ok', 'err') for c in o['calls']):
            i = r.choice([i for i, c in enumerate(o['calls']) if c in ('ok', 'err')])
            o['calls'][i] = 'err' if o['calls'][i] == 'ok' else 'ok'
            return t
        if f in ('con', 'end') and o[f] in ('ok', 'err', 'pend'):
            o[f] = {'ok': 'err', 'err': 'ok', 'pend': 'ok'}[o[f]]
            return t
        if f == 'ptt':
            o['ptt'] = not o['ptt']
            return t
        if f == 'st' and o['st']['on']:
            o['st']['busy'] = not o['st']['busy']
            return t
        if f == 'rd' and o['rd']['k'] == 'data':
            o['rd']['b'][0][r.choice([0, 1])] ^= 1
            return t
        if f == 'wr' and o['wr']['k'] in ('ok', 'aborted'):
            o['wr'] = {'k': 'err', 'n': 0}
            return t
        if f == 'out' and o['out'] and not filled:
            o['out'] = o['out'][1:] if r.random() < 0.5 else [[o['out'][0][0], o['out'][0][1] + 1]] + o['out'][1:]
            return t
        if f == 'ctleof' and not gone:
            o['ctleof'] = not o['ctleof']
            return t
    return None


def describe(t, at):
    n = at.get(t['id'], (1, ''))[0]
    ev = t['ev']
    e = ev[min(n, len(ev)) - 1]
    txt = 'script %s (log level %s): the real client departs from the specification at event %d of %d (%s)' % (
        t['id'], 'TRACE' if t.get('trace_log') else 'off', n, len(ev), e.get('op'))
    if e.get('op') in ('hang', 'crash'):
        txt += ': %s %s' % (e['op'], e.get('why', ''))
    if t.get('panic'):
        txt += '; panic: ' + t['panic'].replace('\n', ' ')[:300]
    return txt, n


def check(report, bindir, scripts, chk, trace_modes=(False, True), limit=5):
    """Runs, validates, confirms. Returns the rejected traces."""
    halves = {m: [s for i, s in enumerate(scripts) if trace_modes[i % len(trace_modes)] == m] for m in set(trace_modes)}
    traces = {}
    for m, part in halves.items():
        if part:
            traces.update(run(bindir, part, trace=m))
    say('ran %d scripts against the real client' % len(traces))
    r = rng('corrupt')
    false_ones = [c for c in (corrupt(t, chk, r) for t in r.sample(list(traces.values()), min(12, len(traces)))
                              if any('o' in e for e in t['ev'])) if c]
    ok, _ = validate(list(traces.values()) + false_ones, chk, report)
    report.add('traces_validated_against_impl', len(traces))
    report.add('events_validated', sum(len(t['ev']) for t in traces.values()))
    report.add('observations_validated', sum('o' in e for t in traces.values() for e in t['ev']))
    # A falsified observation may happen to be another possible outcome; most are not.
    fair = [t for t in false_ones if t['id'][8:] in ok]
    wrong = [t for t in fair if t['id'] in ok]
    if len(wrong) > max(1, len(fair) // 3):
        raise ToolError('falsified traces were accepted: ' + json.dumps(wrong[0])[:2000])
    report.add('falsified_traces', len(fair))
    report.add('falsified_traces_rejected', len(fair) - len(wrong))
    bad = [t for i, t in traces.items() if i not in ok]
    say('%d of %d traces accepted' % (len(traces) - len(bad), len(traces)))
    byid = {s['id']: s for s in scripts}
    confirmed = []
    for t in sorted(bad, key=lambda t: len(t['ev']))[:40]:
        if len(confirmed) >= limit:
            break
        if t['ev'] and t['ev'][-1]['op'] == 'hang':
            again = [t, t]
        else:
            again = []
            for _ in range(6):
                again += run(bindir, [byid[t['id']]], trace=t['trace_log']).values()
        rej = []
        for u in again:
            okk, at = validate([u], chk, where=True)
            if u['id'] not in okk:
                rej.append((u, at))
                break
        if rej:
            confirmed.append(rej[0])
        else:
            report.add('rejections_not_reproduced')
            say('script %s was rejected once and not again' % t['id'])
    return [(u, at, byid[u['id']]) for u, at in confirmed]


def report_all(report, found, chk):
    for u, at, script in found:
        txt, n = describe(u, at)
        report.violation(txt, {'script': script, 'compared': chk, 'event': n, 'trace': u})
