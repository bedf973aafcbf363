"""Adds or replaces a line of properties.jsonl: add(...) from a script."""
import json
import pathlib

FILE = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'


def add(pid, title, statement, over, text, why, files, mechs, observe=None):
  p = {
      'id': pid,
      'title': title,
      'statement': statement,
      'quantifier': {'over': over, 'text': text},
      'why_tests_cant': why,
      'anchors': {
          'files': files,
          'mechanism': [{'name': n, 'where': w} for n, w in mechs],
      },
  }
  if observe:
    p['anchors']['observe_at'] = observe
  assert len(title) <= 80, len(title)
  rows = {r['id']: r for r in map(json.loads, FILE.read_text().splitlines())}
  rows[pid] = p
  FILE.write_text(''.join(json.dumps(rows[k]) + '\n' for k in sorted(rows)))
