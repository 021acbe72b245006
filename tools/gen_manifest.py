#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import importlib, json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
MODEL = 'generated transmissions against an executable reference decoder'
T = {
 'C01': 'sanitizer fuzzing: structured generators and mutation on ASan/UBSan builds, and coverage-guided libFuzzer',
 'C02': 'generated transmissions, strict grammar oracle on every output line',
 'C03': 'generated bit streams, encoder/decoder round trip and reference receiver',
 'C04': 'generated error patterns (all bursts enumerated) against a reference error corrector',
 'C05': 'generated damaged bit streams against a reference synchroniser',
 'C06': 'generated station changes: reference PI tracker and fresh-run differential',
 'C07': 'generated lines: round trip and reference line reader',
 'C08': 'differential testing between input formats',
 'C19': 'generated location and key tables, reference resolver',
 'C23': 'fault injection of clock readings with generated formats',
 'C24': 'generated multiplex signals: modulator/demodulator round trip',
 'C25': 'metamorphic testing: channels together against channels alone',
 'C26': 'generated signals: identity oracle and differential run',
 'C27': 'generated option lists: equivalences and refusals',
 'C28': 'generated delivery schedules over pipes',
 'C30': 'metamorphic testing over deliveries, environments and cuts of generated inputs',
 'C31': 'metamorphic testing: generated transmissions repeated; heap, CPU time and records compared between few and many repetitions',
 'C29': 'metamorphic testing of lost blocks, reference decoder, closed-world texts',
}
NOTE = ('Randomised search with generated inputs against an independent oracle; a pass means no violation in the cases counted in the evidence. '
        'Trusts the oracle in /verif/rds and the host compiler; every failure is confirmed three times and shrunk to a replay file.')
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
        py = 'python3'
        checks.append({'property': i, 'quick_cmd': '%s check.py %s quick' % (py, i), 'thorough_cmd': '%s check.py %s thorough' % (py, i),
                       'evidence_file': 'evidence/%s.json' % i, 'technique': 'property-based testing: ' + T.get(i, MODEL),
                       'level': 'exploration', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': 'the check is not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 rds/build.py driver plain driver-san' + (' fuzz' if os.path.exists(os.path.join(HERE, 'fuzz/fuzz_main.cc')) else ''),
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
