#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after changing it)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(HERE, 'tools'))

VARA = ('TLA+ model (Vara.tla) checked exhaustively with TLC; its behaviours replayed into the real client over '
        'loopback sockets and every recorded trace validated against the specification (TraceVara.tla)')
VNOTE = ('Exhaustive for the model within the constants of its configurations; the code is bound by trace validation of '
         'hundreds of generated scripts, so a departure is found only if some script reaches it. Trusts TLC, the harness '
         'and the kernel loopback; tokio single-thread scheduling.')
LEVELS = {}
for p in ('C01', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11'):
    LEVELS[p] = (VARA, VNOTE)
FUNC = ('TLA+ model of the format (%s), its guarantees checked exhaustively with TLC for small instances; the same specification '
        'then judges every recorded call of the real code (%s)')
FNOTE = ('The specification is checked exhaustively within the constants of its configurations; the code is bound to it on %s, '
         'so a departure is found only if some input reaches it. Trusts TLC and the harness.')
LEVELS['C02'] = (FUNC % ('Wire.tla', 'JudgeWire.tla, and TraceVara.tla for what goes over the socket'), FNOTE % 'thousands of commands')
LEVELS['C16'] = (FUNC % ('B2.tla, Crc.tla', 'JudgeB2.tla'), FNOTE % 'thousands of blocks, good and damaged in every kind of way')
LEVELS['C17'] = (FUNC % ('B2.tla', 'JudgeB2.tla'), FNOTE % 'thousands of cuts and prefixes')
LZ = ('TLA+ model of LZHUF (LzHuf.tla, MCLzHuf.tla, MCLzss.tla), its adaptive code and window checked exhaustively with TLC for small '
      'alphabets; the same specification at full size then validates recorded runs of the real code symbol by symbol (TraceLz.tla)')
LEVELS['C18'] = (LZ, FNOTE % 'thousands of messages up to 120 KB')
LEVELS['C19'] = (LZ, FNOTE % 'about a thousand streams in both directions, up to 120 KB')
LEVELS['C20'] = (LZ, FNOTE % 'thousands of arbitrary and damaged streams')
LEVELS['C21'] = (FUNC % ('Station.tla', 'JudgeStation.tla'), FNOTE % 'every string up to five characters of small alphabets and thousands of others')
LEVELS['C22'] = (FUNC % ('Proposal.tla', 'JudgeProposal.tla'), FNOTE % 'thousands of lines, prefixes and near misses')

for p in ('C12', 'C13'):
    LEVELS[p] = ('TLA+ model of the rig task (Rig.tla) and of its design (MCRig.tla, shown by TLC to implement it, liveness included); scripts '
                 'generated from it (GenRig.tla) run against the real task on a played radio and every trace validated (TraceRig.tla)',
                 'Exhaustive for the model within the constants of its configurations; the code is bound by trace validation of thousands of '
                 'generated scripts with partial reads and writes. Trusts TLC and the harness; the task is polled by hand on one thread.')

for p, what in (('C14', 'rig'), ('C15', 'lines, output, prompt, exit status')):
    LEVELS[p] = ('TLA+ model of the program over the TNC client (App.tla, Vara.tla), safety and liveness checked exhaustively with TLC; scripts '
                 'generated from it (GenApp.tla) play TNC, remote station, radio and user against the real binary and every trace is '
                 'validated (TraceApp.tla)',
                 'Exhaustive for the model within the constants of its configurations; the real program, built from /repo as users build it, is bound '
                 'by trace validation of hundreds of generated sessions (compared: %s). Trusts TLC, the driver, loopback TCP and pty of the kernel.' % what)
LEVELS['C23'] = ('TLA+ model of building a TNC handle (Ports.tla), checked exhaustively with TLC; the real code is run against played listeners for '
                 'configurations of every kind and each trace validated (TracePorts.tla)',
                 'Exhaustive for the model; the code is bound on hundreds of configurations. Trusts TLC, the harness and the loopback network.')
LEVELS['C24'] = ('TLA+ model of starting the program (Cli.tla: grammars of the settings, what is touched when), checked exhaustively with TLC on command '
                 'lines that differ from a plain one in up to two settings (MCCli.tla); the real binary is started with them and others, and each run validated '
                 '(TraceCli.tla)',
                 'Exhaustive for the model; the program, built from /repo as users build it, is bound on about 1100 command lines. Trusts TLC, the driver, '
                 'loopback network and pty of the kernel.')


def main():
    from vp import props
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^verif:'], capture_output=True, text=True).stdout.split()
    m = {'version': 1,
         'setup_cmd': 'bash tools/setup.sh',
         'hooks': {'guard': '--cfg plusendi_verif',
                   'enable': 'harness/.cargo/config.toml passes --cfg plusendi_verif when the harness builds /repo as a path dependency',
                   'source_commits': hook},
         'checks': [], 'not_applicable': []}
    for p in ids:
        if p in props.CHECKS:
            t, n = LEVELS[p]
            m['checks'].append({'property': p, 'quick_cmd': 'python3 tools/check.py ' + p,
                                'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + p,
                                'technique': t, 'level': 'model_checking', 'level_note': n})
        else:
            m['not_applicable'].append({'property': p, 'reason': 'check not built yet'})
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
