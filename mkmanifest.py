"""Regenerates MANIFEST.json from sa/registry.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa import registry
checks = []
for p in sorted(registry.PROPS):
    i = registry.PROPS[p]
    checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                   'technique': i.get('technique', 'static analysis: abstract interpretation (gated value numbering + linear inequalities) of the current source'),
                   'level': i.get('level', 'other'), 'level_note': i.get('level_note', i['explanation'])})
na = [{'property': p, 'reason': r} for p, r in sorted(getattr(registry, 'NOT_APPLICABLE', {}).items())]
json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q sa check.py', 'checks': checks, 'not_applicable': na,
           'notes': 'Pure static analysis of /repo/dfols; nothing in dfols is executed or imported. No hooks in /repo.'}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
