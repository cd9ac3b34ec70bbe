#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json for the properties that have a check."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
  assert len(title) <= 80, (id, len(title))
  P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=files, mech=mech, technique=technique, note=note, observe=observe))


exec(open(os.path.join(ROOT, 'tools', 'props_list.py')).read())


def main():
  have = [p for p in P if os.path.exists(os.path.join(ROOT, 'mc', 'checks', p['id'].lower() + '.py'))]
  with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in have:
      f.write(json.dumps({
          'id': p['id'], 'title': p['title'], 'statement': p['statement'],
          'quantifier': {'over': p['over'], 'text': p['text']},
          'why_tests_cant': p['why'],
          'anchors': {'files': p['files'],
                      'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                      'observe_at': p['observe'] or ['public functions and the dense value of their results'],
                      'hook_needed': None}}) + '\n')
  man = {
      'version': 1,
      'setup_cmd': '/opt/venv/bin/python -c "import tensorflow, numpy"',
      'checks': [{
          'property': p['id'],
          'quick_cmd': '/opt/venv/bin/python run.py %s' % p['id'],
          'thorough_cmd': '/opt/venv/bin/python run.py %s' % p['id'],
          'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note'],
          'evidence_file': 'evidence/%s.json' % p['id']} for p in have],
      'not_applicable': [],
      'notes': 'Every check enumerates a finite space completely (bounds in DESIGN.md and in the evidence) and runs '
               'the code of /repo on every element, comparing with a dense NumPy reference model. Nothing is random: '
               'VERIF_SEED is recorded and changes nothing. VERIF_TIER selects the bounds.'}
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')


if __name__ == '__main__':
  main()
