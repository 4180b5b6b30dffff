"""Writes MANIFEST.json from the check modules that exist."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

LEVEL_NOTES = json.load(open(os.path.join(VERIF, 'tools', 'level_notes.json')))

props = [json.loads(l)['id'] for l in open(os.path.join(VERIF, 'properties.jsonl'))]
checks, na = [], []
for p in props:
  if not os.path.exists(os.path.join(VERIF, 'mc', 'checks', p.lower() + '.py')):
    na.append({'property': p, 'reason': 'check under construction'})
    continue
  note = LEVEL_NOTES.get(p, {})
  checks.append({
    'property': p,
    'quick_cmd': f'./check {p} --tier quick',
    'thorough_cmd': f'./check {p} --tier thorough',
    'evidence_file': f'evidence/{p}.json',
    'technique': note.get('technique', 'bounded exhaustive exploration of the '
                          'real code against a reference model'),
    'level': note.get('level', 'model_checking'),
    'level_note': note.get('note', 'Holds for every history within the bounds '
                           'reported in the evidence file; assumes the CPU '
                           'backend and a correct reference model.')})
manifest = {
  'version': 1,
  'setup_cmd': './setup.sh',
  'checks': checks,
  'hooks': {'guard': 'JAX_SGMC_MC_HOOKS', 'enable':
            'no hooks are needed: the checks drive the unchanged sources',
            'source_commits': []},
  'not_applicable': na,
  'notes': 'Checks import jax_sgmc from /repo at run time (no build step).'}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
  json.dump(manifest, f, indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
