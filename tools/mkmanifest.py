"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'), encoding='utf-8') if l.strip()]
checks, na = [], []
for p in props:
    f = os.path.join(V, 'pbt', 'props', p['id'].lower() + '.py')
    if os.path.exists(f):
        src = open(f, encoding='utf-8').read()
        tech = re.search(r"^TECHNIQUE = '(.*)'$", src, re.M).group(1)
        note = re.search(r"^NOTE = '(.*)'$", src, re.M).group(1)
        checks.append({
            'property': p['id'],
            'quick_cmd': 'bash check.sh %s --tier quick' % p['id'],
            'thorough_cmd': 'bash check.sh %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': tech, 'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': p['id'], 'reason': 'no check built yet'})
m = {'version': 1, 'setup_cmd': 'bash check.sh --selftest', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are Hypothesis-driven and run the code of /repo directly; no hooks in /repo are used.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
