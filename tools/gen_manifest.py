"""Writes MANIFEST.json from checks.py and the list of properties."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 check.py --setup',
         checks=[dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, technique=CHECKS[i]['technique'], level=CHECKS[i]['level'], level_note=CHECKS[i]['note']) for i in ids if i in CHECKS],
         not_applicable=[dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check has been built yet')) for i in ids if i not in CHECKS],
         notes='No hooks in /repo are needed: every monitor observes the public API, the file descriptors, the heap, the child processes and the sanitizers. Genuine defects that were repaired are listed in known_findings.txt.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
