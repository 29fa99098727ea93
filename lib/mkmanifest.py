"""Regenerates MANIFEST.json from the checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks, vf
m = {'version': 1, 'setup_cmd': './setup', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks are needed in /repo: the harnesses observe the public interfaces, interpose the clock and the allocator, and wrap gf_init_easy at link time. ./check <id> [--tier quick|thorough] [--seed N].'}
for k in sorted(checks.CHECKS):
    c = checks.CHECKS[k]
    m['checks'].append({'property': k, 'quick_cmd': './check %s --tier quick' % k, 'thorough_cmd': './check %s --tier thorough' % k, 'evidence_file': 'evidence/%s.json' % k,
                        'technique': c['technique'], 'level': c['level'], 'level_note': c['level_note']})
with open(os.path.join(vf.VERIF, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
