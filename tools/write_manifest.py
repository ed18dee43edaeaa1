"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present."""
import json, pathlib
here = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (here / 'properties.jsonl').read_text().splitlines()]
TECH = json.loads((here / 'tools' / 'techniques.json').read_text())
checks, na = [], []
for p in props:
    i = p['id']
    if (here / 'gsv' / 'props' / f'{i.lower()}.py').exists():
        t = TECH.get(i, ['property-based testing (Hypothesis)', ''])
        checks.append({
            'property': i,
            'quick_cmd': f'python3 check.py {i} --tier quick',
            'thorough_cmd': f'python3 check.py {i} --tier thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': t[0],
            'level': 'exploration',
            'level_note': t[1] or 'Generated-input search against an explicit oracle; no violation among the generated cases, absence is not proved.',
        })
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {
    'version': 1,
    'setup_cmd': 'python3 check.py --setup',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks in /repo are needed: all checks use the public API. See DESIGN.md.',
}
(here / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks', len(na), 'not applicable')
