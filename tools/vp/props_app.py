"""C14 and C15: the program."""
import json, os, re, subprocess, sys
from .common import *
from . import trace, gen
from .props_rig import radio

BIG = 6 if THOROUGH else 1
X = 1 if THOROUGH else 0
CFG = """CONSTANTS
  CR <- CrB
  Meaning <- LineMeaning
  SetUpOf <- TSetUp
  CallOf <- TCall
  IdentOf <- TIdent
  DCR <- CrB
  IsPrompt <- TIsPrompt
  PttOf <- TPtt"""
C14, C15 = ['rig', 'panics', 'spin'], ['lines', 'out', 'print', 'status', 'panics', 'spin']


def app_bin():
    """The program itself, from /repo's current tree, as users build it."""
    d = os.path.join(HARNESS, 'target-app')
    env = dict(os.environ, CARGO_PROFILE_DEV_DEBUG='0', CARGO_INCREMENTAL='0')
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'RUST_LOG'):
        env.pop(k, None)
    p = subprocess.run(['cargo', 'build', '-q', '--offline', '--locked', '--manifest-path', REPO + '/Cargo.toml', '--bin', 'plusendi', '--target-dir', d],
                       cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError('the program does not build:\n' + p.stdout[-3000:])
    c = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pause.c')
    p = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', os.path.join(d, 'pause.so'), c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError('pause.c does not build:\n' + p.stdout[-3000:])
    return os.path.join(d, 'debug', 'plusendi')


def later(report, name, cap, **k):
    return name, lambda: generate(report, name, cap, **k)


def generated(groups):
    out = list(zip([n for n, _ in groups], pmap(lambda g: g[1](), groups)))
    say('generated scripts')
    return out


def generate(report, name, cap, start='open', ops=(), lines=(), pieces='NoPieces', data='TextPieces', maxops=5, nd=0, ni=0, lag=0, sim=0, serials='{TRUE}'):
    q = lambda xs: '{' + ', '.join('"%s"' % x for x in xs) + '}'
    c = f"""SPECIFICATION GSpec
CONSTANTS
  CR <- GCR
  Meaning <- GMeaning
  SetUpOf <- GSetUp
  CallOf <- GCall
  IdentOf <- GIdent
  DCR <- GDCR
  IsPrompt <- GIsPrompt
  PttOf <- GPtt
  Ops = {q(ops)}
  Lines = {q(lines)}
  Pieces <- {pieces}
  DataPieces <- {data}
  MaxOps = {maxops}
  MaxData = {nd}
  MaxIn = {ni}
  MaxLag = {lag}
  AllLengths = {'FALSE' if sim else 'TRUE'}
  From = "{start}"
  Serials = {serials}
INVARIANT PrintScript
{'' if sim else 'VIEW View'}
CHECK_DEADLOCK FALSE
"""
    a = ('-simulate', 'num=%d' % (sim * 2), '-depth', str(maxops * 10), '-seed', str(SEED * 1000 + len(name))) if sim else ()
    r = tlc('GenApp', c, args=a, timeout=800, workers=1)
    report.tlc(r, 'GenApp ' + name)
    say('scripts %s: %d states' % (name, r.distinct))
    ss = trace.scripts_of(r.text)
    kept = []
    for ser in (True, False):
        kept += [(ser, x) for x in gen.drop_prefixes([s['ops'] for s in ss if s['serial'] == ser])]
    report.add('scripts_generated', len(kept))
    if len(kept) > cap:
        kept = rng('app', name).sample(kept, cap)
    return kept


TEXTS = ['Welcome to W1AW RMS', '[WL2K-5.0-B2FWIHJM$]', ';PQ: 23753528', 'CMS via W1AW', '*** Done', 'a > b', '>>', 'FC EM TJKYEIMMHSRB 527 123 0', 'F> 3B',
         '73 de K2XYZ', '\u00fcber', '\u2713 ok', '\t tab', ' leading and trailing ', '\x07bell', 'x' * 80, 'x' * 300, '"quoted"\\', '{}', '%s', '\x1b[0m', '0', ' ']
NEARLY = ['CMS> ', 'CMS>\t', '> ', '>.', '> >x', 'CMS>\u00a0', '\u203a', '\u00bb', '>\x00', '>\x0b', '<', 'CMS>\x07', '\u037e>-']       # prompts all but
MYS = ['K2XYZ', 'W1AW', 'N0CALL', 'K2XYZ-3', 'VE7ABCD', 'KC1GSL-15', '9A1AA', 'K2XYZ-T', 'G4A']


class Make(gen.Concrete):
    def __init__(self, r, log):
        gen.Concrete.__init__(self, r)
        self.log = log

    def sym(self, x):
        r = self.r
        if x == 'TX':
            return gen.b('PTT ON')
        if x == 'RX':
            return gen.b('PTT OFF')
        if x == 'REP':
            return gen.b(gen.report_line(r, r.choice(['busy', 'buf', 'reg', 'hb'])))
        return gen.Concrete.sym(self, x)

    def datum(self, x):
        r = self.r
        if x == 'cr':
            return [13]
        if x == '>':
            return list((r.choice(['', '', 'CMS>', 'a', '\u00fc', '> ', 'x' * 100]) + '>').encode())
        if x == 'x':
            return r.choice([[255], [0xc3, 40], [65, 0xff, 66], [0xe2, 0x28, 0xa1], [0xed, 0xa0, 0x80], [0xf5, 65], [128], [65, 0xc3], [0xc0, 0x80, 65]])
        t = r.choice(TEXTS if r.random() < 0.75 else NEARLY)
        if not self.log and r.random() < 0.1:
            t += '\n' + r.choice(TEXTS)
        if self.log and t.startswith('\x1b'):
            t = 'plain'
        t = t.encode()
        if r.random() < 0.2:
            t = bytes(c for c in (r.randrange(32, 127) for _ in range(r.randrange(1, 60))))
        return list(t[:-1] if t.endswith(b'>') else t)

    def op(self, o):
        r = self.r
        o = dict(o)
        k = o['op']
        if k == 'tx':
            o['b'] = [c for x in o.pop('p') for c in self.sym(x)]
        elif k == 'dtx':
            o['b'] = [c for x in o.pop('p') for c in self.datum(x)]
        elif k == 'stdin':
            o['b'] = gen.b(r.choice(['\n', '\n', 'go\n', '> ok\n', 'x' * 200 + '\n']))
        elif k == 'radio':
            o['b'] = radio(r, r.choice(['whole', 'part', 'end', 'empty', 'junk', 'several', 'long']))
        return o


def version():
    return re.search(r'(?m)^version\s*=\s*"([^"]+)"', open(REPO + '/Cargo.toml').read()).group(1)


def concretise(report, prop, groups):
    out, v = [], version()
    for name, ss in groups:
        for i, (serial, ops) in enumerate(ss):
            r = rng(prop, name, i)
            log = i % 4 == 1
            m = Make(r, log)
            ops = gen.fix_tail([m.op(o) for o in ops])
            c = r.choice([8300, 5000, 1023, 65534, r.randrange(2000, 60000)])
            my, target = r.sample(MYS, 2)
            out.append({'id': '%s-%s-%d' % (prop, name, i), 'host': '127.%d.%d.%d' % (r.randrange(1, 255), r.randrange(256), r.randrange(1, 255)),
                        'control': c, 'data': r.choice([0, 0, 5001, 65535]), 'serial': serial, 'target': target, 'my': my,
                        'baud': r.choice([4800, 9600, 19200, 38400]), 'log': log, 'slow': r.random() < 0.3, 'version': v, 'ops': ops})
    for s in out:
        if s['data'] == s['control']:
            s['data'] = 0
    report.add('scripts', len(out))
    return out


def falsify(t, chk, r):
    t = json.loads(json.dumps(t))
    t['id'] = 'corrupt-' + t['id']
    obs = [e['o'] for e in t['ev'] if 'o' in e]
    for _ in range(60):
        o, f = r.choice(obs), r.choice(chk)
        if f == 'rig' and o['rig'] and o['status'] == 'run':
            o['rig'] = r.choice([o['rig'][:-3], o['rig'] + o['rig'][-3:], o['rig'][:-3] + ([82] if o['rig'][-3] == 84 else [84]) + o['rig'][-2:]])
            return t
        if f == 'lines' and o['lines']:
            o['lines'] = o['lines'][:-1] if r.random() < 0.5 else o['lines'] + o['lines'][-1:]
            return t
        if f == 'out' and o['out']:
            o['out'] = o['out'][1:] if r.random() < 0.5 else []
            return t
        if f == 'print' and o['print'] and not t['log']:
            o['print'] = o['print'][:-1] if r.random() < 0.5 else o['print'] + o['print']
            return t
        if f == 'status' and o['status'] != 'run':
            o['status'] = {'ok': 'fail', 'fail': 'ok'}.get(o['status'], 'run')
            return t
    return None


def decide(report, prop, scripts, chk):
    binary = app_bin()
    drive = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'appdrive.py')
    fly = lambda ss, jobs=JOBS: trace.run(sys.executable, ss, pre=(drive,), args=(binary, os.path.join(HARNESS, 'target-app', 'pause.so')), jobs=jobs)
    byid = {s['id']: s for s in scripts}
    traces = fly(scripts)
    skipped = [t for t in traces if t.get('skip')]
    traces = [t for t in traces if not t.get('skip')]
    report.add('scripts_left_out_address_taken', len(skipped))
    if len(skipped) > max(3, len(scripts) // 10):
        raise ToolError('too many addresses are taken: ' + skipped[0]['skip'])
    say('ran %d scripts against the real program' % len(traces))
    r = rng('falsify')
    false_ones = [c for c in (falsify(t, [c for c in chk if c not in ('panics', 'spin')], r) for t in r.sample(traces, min(16, len(traces)))) if c]
    ok, _ = trace.validate('TraceApp', traces + false_ones, chk, report, extra=CFG)
    report.add('traces_validated_against_impl', len(traces))
    report.add('events_validated', sum(len(t['ev']) for t in traces))
    for s in scripts[:2]:
        report.sample({'id': s['id'], 'ops': [dict(o, b=bytes(o['b']).decode('latin1')) if 'b' in o else o for o in s['ops']]})
    fair = [t for t in false_ones if t['id'][8:] in ok]
    wrong = [t for t in fair if t['id'] in ok]
    if len(wrong) > max(2, len(fair) // 2):
        raise ToolError('falsified traces were accepted: ' + json.dumps(wrong[0])[:1500])
    report.add('falsified_traces', len(fair))
    report.add('falsified_traces_rejected', len(fair) - len(wrong))
    bad = [t for t in traces if t['id'] not in ok]
    say('%d of %d traces accepted' % (len(traces) - len(bad), len(traces)))
    n = 0
    for t in sorted(bad, key=lambda t: len(t['ev']))[:25]:
        if n == 4:
            break
        again = fly([dict(byid[t['id']], id=t['id'] + '-again%d' % i, host='127.%d.%d.7' % (i + 1, n + 1)) for i in range(8)], jobs=4)
        okk, at = trace.validate('TraceApp', again, chk, where=True, extra=CFG)
        rej = [u for u in again if not u.get('skip') and u['id'] not in okk]
        if not rej:
            say('script %s was rejected once and not again' % t['id'])
            report.add('rejections_not_reproduced')
            continue
        u = rej[0]
        k = min(at.get(u['id'], 1), len(u['ev']))
        e = u['ev'][k - 1]
        report.violation('script %s (log level %s): the program departs from the specification at event %d of %d: %s%s' % (
            t['id'], 'TRACE' if t['log'] else 'off', k, len(u['ev']), show(e), ('; stderr: ' + u['stderr'][-300:].replace('\n', ' ')) if u.get('stderr') else ''),
            {'script': byid[t['id']], 'compared': chk, 'trace': u})
        n += 1
    return report.finish()


def show(e):
    t = lambda b: bytes(b).decode('latin1')
    d = {k: t(v) if k == 'b' else v for k, v in e.items() if k not in ('o', 's')}
    if 'o' in e:
        d['observed'] = {k: [t(x) for x in v] if k == 'lines' else t(v) if k in ('out', 'print', 'rig', 'junk') else v for k, v in e['o'].items()}
    return json.dumps(d)[:700]


def mc(report, *cfgs):
    for c in cfgs:
        c = 'MCApp' + c + ('Deep' if THOROUGH and os.path.exists(os.path.join(SPEC, 'MCApp%sDeep.cfg' % c)) else '')
        r = tlc('MCApp', c + '.cfg', workers=JOBS, heap='10g', timeout=850)
        report.tlc(r, c)
        say('model %s: %d states' % (c, r.distinct))


def c14(report):
    mc(report, 'Rig', 'Live0')
    g = [later(report, 'setup', 160 * BIG, start='start', ops=['tx', 'radio'], lines=['OK', 'TX', 'RX', 'REP'], pieces='SetUpPieces', maxops=5 + X),
         later(report, 'call', 120 * BIG, start='called', ops=['tx', 'radio'], lines=['OK', 'TX', 'RX', 'CONN', 'REP'], pieces='CallPieces', maxops=4 + X),
         later(report, 'ses', 160 * BIG, ops=['tx', 'dtx', 'stdin', 'radio'], lines=['TX', 'RX', 'DISC'], pieces='PttPieces',
                          data='FewPieces', nd=2, ni=2, maxops=5 + X, lag=1),
         later(report, 'gone', 60 * BIG, ops=['tx', 'dtx', 'stdin', 'close', 'radiogone', 'dclose'], lines=['TX', 'RX', 'DISC', 'BAD'],
                           data='FewPieces', nd=2, ni=2, maxops=5 + X),
         later(report, 'burst', 120 * BIG, ops=['tx', 'radio'], lines=['TX', 'RX', 'REP'], pieces='PttPieces', maxops=24, lag=3, sim=120 * BIG),
         later(report, 'jam', 120 * BIG, ops=['tx', 'jam', 'radiogone'], lines=['TX', 'RX', 'DISC'], pieces='PttPieces', maxops=5 + X),
         later(report, 'jams', 60 * BIG, ops=['tx', 'jam', 'radio'], lines=['TX', 'RX', 'REP'], pieces='PttPieces', maxops=24, lag=1, sim=60 * BIG),
         later(report, 'long', 100 * BIG, start='start', ops=['tx', 'dtx', 'stdin', 'radio'], lines=['OK', 'TX', 'RX', 'CONN', 'REP'],
                           pieces='CallPieces', data='FewPieces', nd=4, ni=1, maxops=30, lag=1, sim=100 * BIG)]
    return decide(report, 'C14', concretise(report, 'C14', generated(g)), C14)


def c15(report):
    mc(report, 'Setup', 'Call', 'Open', 'Live')
    g = [later(report, 'setup', 130 * BIG, start='start', ops=['tx', 'close', 'stdin'], lines=['OK', 'NO', 'BAD', 'REP', 'CONN'], pieces='SetUpPieces',
                            ni=1, maxops=5 + X, serials='{TRUE, FALSE}'),
         later(report, 'call', 120 * BIG, start='called', ops=['tx', 'close', 'dtx', 'stdin'], lines=['OK', 'NO', 'CONN', 'DISC', 'PEND', 'BAD'],
                           pieces='CallPieces', data='FewPieces', nd=1, ni=1, maxops=4 + X),
         later(report, 'text', 200 * BIG, ops=['dtx', 'stdin', 'tx', 'dclose'], lines=['DISC'], nd=4, ni=2, maxops=5 + X),
         later(report, 'ends', 120 * BIG, ops=['dtx', 'stdin', 'stdineof', 'tx', 'close', 'dclose', 'radiogone'], lines=['DISC', 'BAD', 'PEND', 'TX'],
                           data='FewPieces', nd=3, ni=2, maxops=5 + X, lag=1),
         later(report, 'long', 120 * BIG, ops=['dtx', 'stdin', 'tx', 'radio'], lines=['REP', 'TX', 'RX', 'DISC'], nd=16, ni=2, maxops=22, lag=2, sim=120 * BIG),
         later(report, 'whole', 80 * BIG, start='start', ops=['dtx', 'stdin', 'tx'], lines=['OK', 'CONN', 'REP', 'DISC'], pieces='CallPieces',
                            nd=12, ni=2, maxops=28, lag=1, sim=80 * BIG)]
    return decide(report, 'C15', concretise(report, 'C15', generated(g)), C15)
