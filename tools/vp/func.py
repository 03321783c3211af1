"""Runs requests against the functional parts of the real code and has TLC judge the results."""
import json, os, re, subprocess
from .common import *


def run(bindir, reqs, trace=False, timeout=600):
    """reqs: {'id', 'f', ...}. Returns results by id."""
    def one(part):
        f, out = tmpfile('.req'), tmpfile('.res')
        todo, got = list(part), {}
        while todo:
            with open(f, 'w') as h:
                for q in todo:
                    h.write(json.dumps(q) + '\n')
            open(out, 'w').close()
            p = subprocess.run([os.path.join(bindir, 'func'), f, out] + (['trace'] if trace else []),
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
            new = [json.loads(l) for l in open(out)]
            for x in new:
                got[x['id']] = x['r']
            if p.returncode == 0:
                break
            if p.returncode == 77 and new:
                todo = todo[len(new):]
                if sum(r.get('k') == 'hang' for r in got.values()) >= 2:
                    break
            elif died(p) and len(new) < len(todo):
                got[todo[len(new)]['id']] = {'k': 'panic', 'why': died(p)}
                todo = todo[len(new) + 1:]
            else:
                raise ToolError('harness: exit %s %s' % (p.returncode, p.stderr.decode(errors='replace')[-2000:]))
        return got
    res = {}
    for x in pmap(one, chunks(reqs, JOBS)):
        res.update(x)
    return res


def judge(module, cfg, cases, report=None, weight=lambda c: 1, jobs=JOBS, heap='3g'):
    """Ids and kinds of the cases TLC finds to be as specified."""
    parts = [[] for _ in range(min(jobs, max(1, len(cases))))]
    load = [0] * len(parts)
    for c in sorted(cases, key=weight, reverse=True):
        k = load.index(min(load))
        parts[k].append(c)
        load[k] += weight(c) + 1

    def one(part):
        f = tmpfile('.json')
        json.dump({'cases': [x if x['q']['f'] != 'trip' else dict(x, q={'f': 'trip'}) for x in part]}, open(f, 'w'))
        r = tlc(module, cfg, env={'CASES': f}, timeout=850, heap=heap)
        os.remove(f)
        return r
    ok = {}
    for r in pmap(one, parts):
        text = re.sub(r'\n(?!<<\s*"accept"|[A-Z])\s*', ' ', r.text)   # TLC wraps long values
        for i, kind in re.findall(r'<<\s*"accept", "([^"]+)", (.*?) ?>>(?=\n|$)', text):
            ok[i] = kind
        if report:
            report.tlc(r)
    return ok


JUDGE = 'SPECIFICATION JSpec\nINVARIANT Ok\nCHECK_DEADLOCK FALSE\n'


def check(report, bindir, reqs, module, cfg=JUDGE, trace_modes=(False, True), corrupt=None, need=(), limit=5, **kw):
    """Runs the requests, has them judged, reports the rejected ones. Kinds that must occur are in `need`."""
    ids = [q['id'] for q in reqs]
    assert len(set(ids)) == len(ids)
    res, mode = {}, {}
    for m in set(trace_modes):
        part = [q for i, q in enumerate(reqs) if trace_modes[i % len(trace_modes)] == m]
        res.update(run(bindir, part, trace=m))
        mode.update({q['id']: m for q in part})
    cases = [{'id': q['id'], 'q': q, 'r': res[q['id']]} for q in reqs if q['id'] in res]
    say('%d calls of the real code' % len(cases))
    bad, good = [], []
    for c in cases:
        (bad if c['r'].get('k') in ('panic', 'hang') else good).append(c)
    false_ones = []
    if corrupt:
        r = rng('corrupt', module)
        for c in r.sample(good, min(25, len(good))):
            x = corrupt(json.loads(json.dumps(c)), r)
            if x and x != c:
                x['id'] = 'corrupt-' + c['id']
                false_ones.append(x)
    ok = judge(module, cfg, good + false_ones, report, **kw)
    report.add('traces_validated_against_impl', len(cases))
    wrong = [x for x in false_ones if x['id'] in ok]
    fair = [x for x in false_ones if x['id'][8:] in ok]
    if wrong and len(wrong) > max(1, len(fair) // 5):
        raise ToolError('falsified results were accepted: ' + json.dumps(wrong[0])[:1500])
    report.add('falsified_traces', len(fair))
    report.add('falsified_traces_rejected', len(fair) - len(wrong))
    kinds = report.cov.setdefault('kinds', {})
    for c in good:
        if c['id'] in ok:
            k = ok[c['id']]
            kinds[k] = kinds.get(k, 0) + 1
    bad += [c for c in good if c['id'] not in ok]
    for k in need:
        if not any(k in x for x in kinds) and not bad:
            raise ToolError('nothing of kind %r was exercised: %s' % (k, kinds))
    say('%d of %d results as specified' % (len(cases) - len(bad), len(cases)))
    for c in sorted(bad, key=lambda c: len(json.dumps(c['q'])))[:limit]:
        what = 'panicked: ' + c['r']['why'] if c['r'].get('k') == 'panic' else 'did not end' if c['r'].get('k') == 'hang' else 'gave ' + json.dumps(c['r'])[:300]
        report.violation('%s %s: the real code %s' % (c['q']['f'], show(c['q']), what),
                         {'request': c['q'], 'result': c['r'], 'log_level': 'TRACE' if mode.get(c['id']) else 'off', 'judge': module})
    return bad


def show(q):
    if 'c' in q:
        c = dict(q['c'])
        for k in ('ids', 'path'):
            if k in c:
                c[k] = [bytes(x).decode('latin1') for x in c[k]]
        return json.dumps(c)
    x = repr(bytes(q.get('b', [])))[1:]
    return (x if len(x) < 200 else x[:200] + '... (%d bytes)' % len(q['b'])) + (' size %d' % q['n'] if 'n' in q else '') + (' for %d' % q['p'] if 'p' in q else '')
