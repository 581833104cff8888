"""Writes MANIFEST.json from vlib/suites.py (run after adding checks)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import suites
ids = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
NA = {}
checks = []
for i in ids:
    if i not in suites.CHECKS:
        continue
    mods = sorted({suites.SUITES[s].module for s in suites.CHECKS[i]})
    checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough',
                       technique='TLA+ specification checked with TLC; recorded executions of the real code validated against it (' + ', '.join(mods) + ')',
                       level='model_checking',
                       level_note='The design is explored exhaustively in small instances (where the suite has a *MC module); the code is bound by trace validation of systematically generated and seeded random executions of the unmodified sources on a simulated Win32 layer. Trusted: the simulation, the mapping of its boundary log to events, TLC.'))
m = dict(version=1, setup_cmd='python3 -m vlib.build', checks=checks,
         not_applicable=[dict(property=i, reason=NA.get(i, 'check under construction')) for i in ids if i not in suites.CHECKS],
         notes='No hooks in /repo: everything is observed at the Win32 boundary. check.py --replay FILE repeats a violation.')
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
open(f'{V}/MANIFEST.json', 'a').write('\n')
