#!/usr/bin/env python3
"""Configures and builds the harnesses from /repo's working tree.

Usage: build.py [VARIANT[:TARGET,...]]...   (default: everything)
"""
import fcntl
import os
import pathlib
import subprocess
import sys

VERIF = pathlib.Path(__file__).resolve().parent.parent
BUILD = VERIF / 'build'


class BuildError(Exception):
  pass


def env():
  e = dict(os.environ)
  e['PATH'] = '/usr/local/bin:/usr/bin:/bin'
  e['LANG'] = 'C.UTF-8'
  e['CCACHE_DIR'] = str(BUILD / 'ccache')
  e['CCACHE_MAXSIZE'] = '2G'
  e['CCACHE_NOHASHDIR'] = '1'
  e.pop('CCACHE_DISABLE', None)
  return e


def _run(cmd, log):
  r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE,
                     stderr=subprocess.STDOUT, text=True, errors='replace')
  with open(log, 'a') as f:
    f.write(r.stdout)
  return r


def build(variant, targets=()):
  """Builds the targets (default: all harnesses) of one variant."""
  d = BUILD / variant
  d.mkdir(parents=True, exist_ok=True)
  with open(BUILD / f'{variant}.lock', 'w') as lock:
    fcntl.flock(lock, fcntl.LOCK_EX)
    log = d / 'build.log'
    log.write_text('')
    if not (d / 'build.ninja').exists():
      cmd = ['cmake', '-S', str(VERIF), '-B', str(d), '-G', 'Ninja',
             f'-DVARIANT={variant}', '-DCMAKE_CXX_COMPILER=/usr/bin/g++',
             '-DCMAKE_C_COMPILER=/usr/bin/gcc']
      if os.path.exists('/usr/bin/ccache'):
        cmd.append('-DCMAKE_CXX_COMPILER_LAUNCHER=/usr/bin/ccache')
      r = _run(cmd, log)
      if r.returncode:
        raise BuildError(r.stdout[-4000:])
    cmd = ['ninja', '-C', str(d), '-j8'] + list(targets or ['harnesses'])
    r = _run(cmd, log)
    if r.returncode:
      # A generated file can be left half-made by an interrupted build.
      r = _run(cmd, log)
    if r.returncode:
      lines = r.stdout.splitlines()
      keep = [l for l in lines if 'error' in l or 'FAILED' in l][:20]
      raise BuildError('\n'.join(keep) or r.stdout[-3000:])
  return d


def main():
  specs = sys.argv[1:] or ['asan', 'tsan']
  for s in specs:
    v, _, t = s.partition(':')
    build(v, [x for x in t.split(',') if x])
    print(f'built {s}')


if __name__ == '__main__':
  try:
    main()
  except BuildError as e:
    print(f'build failed:\n{e}', file=sys.stderr)
    sys.exit(2)
