"""Writes MANIFEST.json from the list of built checks."""
import importlib
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / 'dev'))

from levels import CHECKS, NA  # noqa: E402

props = [json.loads(l) for l in (ROOT / 'properties.jsonl').read_text().splitlines()]
checks = []
na = []
for p in props:
    i = p['id']
    if i in CHECKS:
        tech, level, note = CHECKS[i]
        checks.append({
            'property': i,
            'quick_cmd': f'./check {i} --tier quick',
            'thorough_cmd': f'./check {i} --tier thorough',
            'technique': tech,
            'level': level,
            'level_note': note,
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built for it yet')})
m = {
    'version': 1,
    'setup_cmd': './tool/build.sh',
    'checks': checks,
    'not_applicable': na,
}
(ROOT / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks', len(na), 'not applicable')
