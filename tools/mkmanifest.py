#!/usr/bin/env python3
"""Write MANIFEST.json from the list of checks the simulator has."""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
built = subprocess.run([root + '/check', 'list'], capture_output=True, text=True, check=True).stdout.split()
NOTE = {
 'C01': 'Seeded sampling of programs and interleavings; each run is compared with the same program run alone on the same code, so a defect that shows alone and together alike is not seen here.',
}
NA = {
 'N01': 'Arithmetic, logic and stack words are pure functions of their operands: no schedule, clock, fault or history can change the result, so a simulator has nothing to decide (C01 and C13 still check that schedules do not change results).',
 'N02': 'Reading and printing numbers is a pure function of the text, the value and BASE; deciding it is input generation against a numeric oracle, not simulation.',
 'N03': 'Floating-point and unit words are pure functions of their operands; no schedule, clock, fault or history is involved.',
 'N04': 'What a well-nested program computes alone is a pure function of the program; deciding it needs a second interpreter as oracle, not a schedule. That schedules and slices never change it is C01 and C13.',
}
TECH = 'deterministic simulation: seeded search over '
T = json.load(open(root + '/tools/techniques.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif i in built:
        t = T[i]
        checks.append({'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i,
                       'technique': TECH + t['over'], 'level': 'exploration', 'level_note': t['note']})
    else:
        na.append({'property': i, 'reason': 'Designed (DESIGN.md), its check is not built yet.'})
m = {'version': 1, 'setup_cmd': './check setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: system calls, clock, allocator and terminal are interposed from the outside (sim/src/interpose.rs, alloc.rs, term.rs); turn order goes through the public PAUSE. The /repo commits beyond the base are repairs ("fix:"), listed in known-findings.txt. Replay a violation with ./check replay FILE.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
