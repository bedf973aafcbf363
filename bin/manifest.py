#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import registry

VERIF = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (VERIF / 'properties.jsonl').read_text().splitlines() if l.strip()]
ids = [p['id'] for p in props]
assert len(set(ids)) == len(ids), 'duplicate ids'
assert set(registry.CHECKS) | set(registry.NOT_APPLICABLE) == set(ids), (
    set(registry.CHECKS) ^ set(ids))
m = {
    'version': 1,
    'setup_cmd': 'python3 /verif/bin/build.py',
    'checks': [],
    'not_applicable': [{'property': k, 'reason': v}
                       for k, v in sorted(registry.NOT_APPLICABLE.items())],
    'notes': 'No instrumentation is compiled into /repo: harnesses in /verif/harness link '
             'the sources of /repo as they are and observe them from outside. '
             'check.py --replay FILE repeats a reported violation.',
}
for i in ids:
  if i not in registry.CHECKS:
    continue
  c = registry.CHECKS[i]
  kinds = sorted({r['variant'] for r in c['runs']})
  names = {'asan': 'AddressSanitizer/UBSan', 'tsan': 'ThreadSanitizer', 'py': 'Python'}
  m['checks'].append({
      'property': i,
      'quick_cmd': f'VERIF_TIER=quick python3 /verif/bin/check.py {i}',
      'thorough_cmd': f'VERIF_TIER=thorough python3 /verif/bin/check.py {i}',
      'evidence_file': f'/verif/evidence/{i}.json',
      'technique': c.get('technique', 'runtime monitoring of the real code under seeded '
                         'workloads against a reference model (%s)'
                         % ', '.join(names[k] for k in kinds)),
      'level': 'exploration',
      'level_note': c.get('level_note', 'seeded random exploration with a bounded number of '
                          'cases; the oracle judges every case'),
  })
(VERIF / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
