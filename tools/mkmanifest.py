#!/usr/bin/env python3
'''Regenerates MANIFEST.json from the checks that exist.'''
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = 'Trusts the harness\'s own archive reader/reference model, CPython and the local file system. '
EXPLORED = 'Held on every observed execution of randomised and hostile workloads (counts in the evidence); not a proof for unobserved inputs. '
FAULTS = 'Held at every enumerated fault point of the generated scenarios (points sampled with both ends always included when a scenario has more than the limit). '

NOTES = {
    'C01': ('runtime monitoring: independent archive reader as oracle over generated workspaces', EXPLORED),
    'C02': ('runtime monitoring: tree oracle over save/edit/save chains', EXPLORED),
    'C03': ('runtime monitoring: differential packing in varied environments, independent hash oracle', EXPLORED),
    'C04': ('runtime monitoring: enumerated byte/structure damage with verify-or-identical oracle', FAULTS),
    'C05': ('runtime monitoring: audit-event write fence and canary trees over hostile archives', EXPLORED),
    'C06': ('runtime monitoring: reference tree oracle after every command of random histories', EXPLORED),
    'C07': ('runtime monitoring: permission probes as unprivileged owner after random and fault-injected histories', EXPLORED),
    'C08': ('runtime monitoring: reference filter over independently parsed boxes', EXPLORED),
    'C09': ('runtime monitoring: index vs scan differential over histories with syscall fault injection', FAULTS),
    'C10': ('runtime monitoring: found-bead identity oracle under box mutation', EXPLORED),
    'C11': ('runtime monitoring: twin worlds with and without junk files compared', EXPLORED),
    'C12': ('runtime monitoring: syscall kill/fail/interrupt/race enumeration (LD_PRELOAD) with all-or-nothing oracle', FAULTS),
    'C13': ('runtime monitoring: syscall kill/fail enumeration (LD_PRELOAD), old-or-new oracle on registry and metadata', FAULTS),
    'C14': ('runtime monitoring: syscall kill/fail/interrupt enumeration (LD_PRELOAD), loaded-data and convergence oracle', FAULTS),
    'C15': ('runtime monitoring: concurrent processes with injected delays, offline checker over recorded histories', EXPLORED),
    'C16': ('runtime monitoring: ordered-map model checked after every registry command', EXPLORED),
    'C17': ('runtime monitoring: controlled clock over many zones, independent calendar oracle', EXPLORED),
    'C18': ('runtime monitoring: reference version-selection model over random box histories', EXPLORED),
    'C19': ('runtime monitoring: reference fixpoint colouring over random webs', EXPLORED),
    'C20': ('runtime monitoring: reference graph algorithms over random webs', EXPLORED),
    'C21': ('runtime monitoring: reload differential; drawings parsed back by graphviz and compared', EXPLORED),
    'C22': ('runtime monitoring: tree snapshots and audit events around removals with hostile links', EXPLORED),
    'C23': ('runtime monitoring: /proc/self/fd monitor and per-process differential', EXPLORED),
    'C24': ('runtime monitoring: whole-world snapshots around refused commands', EXPLORED),
    'C25': ('runtime monitoring: snapshots of boxes, user files and other workspaces over random histories', EXPLORED),
    'C26': ('runtime monitoring: kinds recorded over histories and concurrent creations under a frozen clock', EXPLORED),
    'C27': ('runtime monitoring: status output parsed and compared with a reference report', EXPLORED),
    'C28': ('runtime monitoring: command effect located by snapshots over nested and linked directories', EXPLORED),
    'C29': ('runtime monitoring: reference model of every step of random sub-command sequences, recording stand-in browser', EXPLORED),
    'C30': ('runtime monitoring: answers of two users compared over moved, linked, read-only and unreachable boxes, box snapshots', EXPLORED),
    'C31': ('runtime monitoring: program entry point under generated command lines and environments, watched for escaped exceptions and error reports', EXPLORED),
    'C32': ('runtime monitoring: independent implementation of the formats takes turns with the tool in random histories and reads back everything after each step', EXPLORED),
    'C33': ('runtime monitoring: exit status and every message compared with independently read files over sabotaged histories and syscall fault injection', EXPLORED),
    'C34': ('runtime monitoring: registry and metadata damaged in random histories, usability judged by an independent reader, whole-world snapshots around refused commands', EXPLORED),
    'C35': ('runtime monitoring: syscall kill/fail/interrupt enumeration and concurrent creations (LD_PRELOAD), whole-or-not-at-all oracle on what is left', FAULTS),
    'C36': ('runtime monitoring: archives opened by each command, recorded by interpreter audit events, compared with those needed', EXPLORED),
    'C37': ('runtime monitoring: one history run in two different environments, output and normalised state compared after every command', EXPLORED),
}

checks, missing = [], []
for line in open(os.path.join(VERIF, 'properties.jsonl')):
    p = json.loads(line)['id']
    path = os.path.join(VERIF, 'checks', p.lower() + '.py')
    if not os.path.exists(path):
        missing.append(dict(property=p, reason='check not built yet'))
        continue
    level = re.search(r"^LEVEL = '(\w+)'", open(path).read(), re.M).group(1)
    technique, note = NOTES[p]
    checks.append(dict(
        property=p, quick_cmd=f'python3 run.py {p}', thorough_cmd=f'VERIF_TIER=thorough python3 run.py {p}',
        evidence_file=f'evidence/{p}.json', technique=technique, level=level, level_note=note + TRUST))
manifest = dict(version=1, setup_cmd='python3 -c "from harness import runner; runner.build_shim()"', checks=checks, not_applicable=missing,
                notes='No hooks in /repo are needed: monitors use an LD_PRELOAD shim, interpreter audit events and the public interfaces.')
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(missing), 'missing')
