"""Write MANIFEST.json from claims.json and the list of properties."""
import glob
import json
claims = json.load(open('/verif/claims.json'))
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    c = claims['properties'].get(p)
    if c is None or 'not_applicable' in c:
        na.append({'property': p, 'reason': (c or {}).get('not_applicable', 'no check has been built for this property yet')})
        continue
    cmd = f'/opt/venv/bin/python check.py {p}'
    checks.append({'property': p, 'quick_cmd': cmd, 'thorough_cmd': cmd, 'evidence_file': f'evidence/{p}.json',
                   'technique': 'contracts on the real functions, obligations generated from the current source and discharged by z3/cvc5; '
                                'bounded stand-in for the parts named in level_note',
                   'level': c['level'], 'level_note': c['note'] + (' Bounded: ' + c['bounded'] if c.get('bounded') else '')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na, 'notes': claims['notes']},
          open('/verif/MANIFEST.json', 'w'), indent=1)
