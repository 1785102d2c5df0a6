"""Write MANIFEST.json from spec.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from spec import SPECS  # noqa: E402

VERIF = os.path.dirname(HERE)
with open(os.path.join(VERIF, 'properties.jsonl')) as f:
    ids = [json.loads(line)['id'] for line in f if line.strip()]
checks = []
for pid in ids:
    if pid in SPECS:
        spec = SPECS[pid]
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 harness/run.py ' + pid,
            'thorough_cmd': 'python3 harness/run.py %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': spec['technique'],
            'level': 'exploration',
            'level_note': spec['note'],
        })
manifest = {
    'version': 1,
    'setup_cmd': 'python3 harness/selftest.py',
    'checks': checks,
    'not_applicable': [
        {'property': pid, 'reason': 'no check has been built yet'}
        for pid in ids if pid not in SPECS],
}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
