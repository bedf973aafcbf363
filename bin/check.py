#!/usr/bin/env python3
"""Runs the check of one property.

Usage: check.py PROPERTY [--replay FILE]

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 2: the check itself could not be carried out.
"""
import concurrent.futures
import json
import os
import pathlib
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import build as builder
import registry

VERIF = builder.VERIF
KNOWN = VERIF / 'known_findings.txt'

SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=66:halt_on_error=1:'
                    'allocator_may_return_null=1:handle_abort=0:'
                    'detect_stack_use_after_return=0:print_legend=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=66',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:detect_deadlocks=0:'
                    'report_signal_unsafe=0:history_size=5',
}


class CheckError(Exception):
  pass


def known_keys(prop):
  """Violation keys of this property recorded as known, with their text."""
  out = {}
  if KNOWN.exists():
    for line in KNOWN.read_text().splitlines():
      m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
      if m and m.group(1) == prop:
        out[m.group(2)] = m.group(3)
  return out


def classify_crash(code, err):
  """Names what stopped a harness, from its standard error."""
  for pat, name in (
      (r'FCP-FATAL (\S+?):\d+\]', 'fatal-check'),
      (r'ERROR: AddressSanitizer: ([\w-]+)', 'asan'),
      (r'runtime error: ([^\n]{0,60})', 'ubsan'),
      (r'WARNING: ThreadSanitizer: ([\w -]+?) \(', 'tsan'),
      (r'ThreadSanitizer:? ?([\w-]+)', 'tsan'),
      (r"terminate called (after throwing an instance of '[^']*'|\w+)", 'terminate'),
      (r'(Assertion .{0,60} failed)', 'assert'),
  ):
    m = re.search(pat, err)
    if m:
      what = re.sub(r'0x[0-9a-f]+', 'ADDR', m.group(1))
      what = re.sub(r'-?\d+', 'N', what)
      what = re.sub(r'\W+', '-', what.split('/')[-1]).strip('-')
      return f'{name}-{what}'
  if code < 0:
    return f'signal-{signal.Signals(-code).name}'
  return f'exit-{code}'


def run_harness(prop, run, shard, seed, tier, scratch, only_case=None):
  """Runs one harness process; returns (report, crash) where either is None."""
  shards = run.get('shards', 1)
  tag = f"{run['target']}.{run['variant']}.{run.get('mode', '')}.{shard}"
  out = os.path.join(scratch, tag + '.json')
  work = os.path.join(scratch, tag + '.d')
  os.makedirs(work, exist_ok=True)
  if run['variant'] == 'py':
    cmd = [run.get('python', '/opt/fcp/pyvenv/bin/python'),
           str(VERIF / 'py' / (run['target'] + '.py'))]
  else:
    cmd = [str(builder.BUILD / run['variant'] / run['target'])]
  cmd += [f'--seed={seed}', f'--tier={tier}', f'--out={out}', f'--scratch={work}',
          f'--shard={shard}', f'--shards={shards}']
  if run.get('mode'):
    cmd.append(f"--mode={run['mode']}")
  if only_case is not None:
    cmd.append(f'--case={only_case}')
  e = builder.env()
  e.update(SAN_ENV)
  e['TMPDIR'] = work
  e['PYTHONDONTWRITEBYTECODE'] = '1'
  e['PYTHONHASHSEED'] = '0'
  e.update(run.get('env', {}))
  limit = run.get('timeout', 200 if tier == 'quick' else 3000)
  for attempt in (0, 1):
    if os.path.exists(out):
      os.unlink(out)
    p = subprocess.Popen(cmd, env=e, cwd=work, stdin=subprocess.DEVNULL,
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                         start_new_session=True)
    timed_out = False
    try:
      _, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
      timed_out = True
      try:
        os.killpg(p.pid, signal.SIGKILL)
      except ProcessLookupError:
        pass
      _, err = p.communicate()
    try:
      os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
      pass
    err = err.decode('utf-8', 'replace')
    if not timed_out:
      break
  crumb = ''
  try:
    crumb = pathlib.Path(out + '.case').read_bytes().split(b'\0')[0].decode('utf-8', 'replace')
  except OSError:
    pass
  try:
    crumb = json.loads(crumb)
  except ValueError:
    crumb = {'case': -1, 'what': crumb}
  if timed_out:
    # Twice in a row, each with many times the usual running time.
    return None, {'key': 'hang', 'detail': f'no end within {limit} s, twice; {err[-1500:]}',
                  'case': crumb.get('case', -1), 'what': crumb.get('what', ''), 'run': run,
                  'shard': shard}
  if p.returncode == 0:
    try:
      return json.load(open(out)), None
    except (OSError, ValueError) as x:
      raise CheckError(f'{tag}: no report: {x}')
  if p.returncode == 3 or 'HARNESS-ERROR' in err:
    raise CheckError(f'{tag}: {err[-2000:]}')
  if p.returncode in (-signal.SIGKILL, -signal.SIGTERM, 126, 127):
    raise CheckError(f'{tag}: stopped from outside ({p.returncode}): {err[-1000:]}')
  return None, {'key': classify_crash(p.returncode, err), 'detail': err[-6000:],
                'case': crumb.get('case', -1), 'what': crumb.get('what', ''),
                'run': run, 'shard': shard}


def main():
  prop = sys.argv[1]
  tier = os.environ.get('VERIF_TIER', 'quick')
  if tier not in ('quick', 'thorough'):
    tier = 'quick'
  try:
    seed = int(os.environ.get('VERIF_SEED', '1'))
  except ValueError:
    seed = 1
  replay = None
  if len(sys.argv) > 3 and sys.argv[2] == '--replay':
    replay = json.load(open(sys.argv[3]))
    seed, tier = replay['seed'], replay['tier']
  spec = registry.CHECKS[prop]
  start = time.time()
  runs = spec['runs']
  if replay:
    runs = [replay['run']]
  scratch = tempfile.mkdtemp(prefix=f'verif-{prop}-', dir='/tmp')
  # Harnesses that give up root still have to reach their own files.
  os.chmod(scratch, 0o711)
  try:
    by_variant = {v: set(t) for v, t in spec.get('builds', {}).items()}
    for r in runs:
      if r['variant'] != 'py':
        by_variant.setdefault(r['variant'], set()).add(r['target'])
    for v, targets in sorted(by_variant.items()):
      try:
        builder.build(v, sorted(targets))
      except builder.BuildError as e:
        raise CheckError(f'build of {v} failed:\n{e}')
    jobs = []
    if replay:
      jobs = [(runs[0], replay['shard'], replay['case'] if replay['case'] >= 0 else None)]
    else:
      for r in runs:
        for s in range(r.get('shards', 1)):
          jobs.append((r, s, None))
    reports, violations, broken = [], [], None
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
      futs = [ex.submit(run_harness, prop, r, s, seed, tier, scratch, c) for r, s, c in jobs]
      for f, (r, s, _) in zip(futs, jobs):
        try:
          rep, crash = f.result()
        except CheckError as e:
          broken = e
          continue
        if crash:
          violations.append(crash)
        if rep:
          for v in rep['violations']:
            v['run'], v['shard'] = r, s
            violations.append(v)
          reports.append(rep)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)

  evaluations = sum(r['evaluations'] for r in reports)
  distinct = set()
  counters, samples = {}, []
  for r in reports:
    distinct.update(r['distinct'])
    samples.extend(r['samples'])
    for k, v in r['counters'].items():
      counters[k] = counters.get(k, 0) + v
  known = known_keys(prop)
  fresh = [v for v in violations if v['key'] not in known]
  old = {v['key'] for v in violations if v['key'] in known}
  if broken is not None and not fresh:
    raise broken
  if not violations and not replay:
    if evaluations == 0 or not distinct:
      raise CheckError('the harness observed nothing')
    for name in spec.get('must_observe', []):
      if counters.get(name, 0) == 0:
        raise CheckError(f'nothing observed for {name}')
  evidence = {
      'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
      'coverage': {
          'evaluations': evaluations, 'distinct_nontrivial': len(distinct),
          'rule': spec['rule'], 'samples': samples[:10], 'observed': counters,
      },
      'assumptions': registry.ASSUMPTIONS + spec.get('assumptions', []),
      'wall_s': round(time.time() - start, 2),
      'violations': len(fresh),
  }
  if not replay:
    d = VERIF / 'evidence'
    d.mkdir(exist_ok=True)
    (d / f'{prop}.json').write_text(json.dumps(evidence, indent=1) + '\n')
  for k in sorted(old):
    print(f'KNOWN-FINDING: property={prop} {known[k]}')
  if not fresh:
    print(f'{prop}: held; {evaluations} evaluations, {len(distinct)} distinct, '
          f"{evidence['wall_s']} s")
    return 0
  rdir = VERIF / 'evidence' / 'replay'
  rdir.mkdir(parents=True, exist_ok=True)
  for i, v in enumerate(fresh[:5]):
    path = rdir / f"{prop}-{seed}-{i}.json"
    path.write_text(json.dumps({'property': prop, 'seed': seed, 'tier': tier, **v}, indent=1) + '\n')
    print(f"[{v['key']}] case {v['case']}: {v['detail'][:1500]}")
    print(f'VIOLATION property={prop} replay={path}')
  return 1


if __name__ == '__main__':
  try:
    code = main()
  except CheckError as e:
    print(f'check error: {e}', file=sys.stderr)
    code = 2
  sys.exit(code)
