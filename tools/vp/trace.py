"""Runs scripts through a harness program and validates the recorded traces with TLC."""
import json, os, re, subprocess
from .common import *


def run(binary, scripts, args=(), timeout=800, jobs=JOBS, pre=()):
    def one(part):
        f, out = tmpfile('.scripts'), tmpfile('.traces')
        todo, got = list(part), []
        while todo:
            with open(f, 'w') as h:
                for s in todo:
                    h.write(json.dumps(s) + '\n')
            open(out, 'w').close()
            p = subprocess.run([binary, *pre, f, out, *args], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
            new = [json.loads(l) for l in open(out)]
            got += new
            if p.returncode == 0:
                break
            if p.returncode == 77 and new:
                todo = todo[len(new):]
            elif len(new) < len(todo) and died(p):
                s = todo[len(new)]
                got.append(dict({k: v for k, v in s.items() if k != 'ops'}, ev=[{'op': 'crash', 'why': died(p)}]))
                todo = todo[len(new) + 1:]
            else:
                raise ToolError('harness: exit %s %s' % (p.returncode, p.stderr.decode(errors='replace')[-2000:]))
            if sum(bool(t['ev']) and t['ev'][-1]['op'] in ('hang', 'crash') for t in got) >= 3:
                break
        return got
    return [t for part in pmap(one, chunks(scripts, jobs), jobs) for t in part]


def validate(module, traces, chk, report=None, where=False, extra='', timeout=800):
    """Ids of the accepted traces, and how far the others got."""
    cfg = 'SPECIFICATION TraceSpec\n%s\nINVARIANTS TraceInv %s\nCHECK_DEADLOCK FALSE\n' % (extra, 'Where Reached' if where else 'Reached')
    traces = list(traces)
    if not traces:
        return set(), {}

    def one(part):
        f = tmpfile('.json')
        json.dump({'chk': chk, 'traces': part}, open(f, 'w'))
        r = tlc(module, cfg, env={'TRACES': f}, timeout=timeout)
        os.remove(f)
        return r
    ok, at = set(), {}
    for r in pmap(one, chunks(traces, JOBS if len(traces) > 40 else 1)):
        ok |= set(re.findall(r'<<"accept", "([^"]+)">>', r.text))
        for i, l in re.findall(r'<<"at", "([^"]+)", (\d+), (?:TRUE|FALSE)>>', r.text):
            at[i] = max(at.get(i, 0), int(l))
        if report:
            report.tlc(r)
    return ok, at


def scripts_of(text):
    seen = {json.loads(l)[7:] for l in text.splitlines() if l.startswith('"SCRIPT ')}
    return [json.loads(s) for s in sorted(seen)]
