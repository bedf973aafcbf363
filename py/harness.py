"""What harness/common.h is for the Python harnesses."""
import argparse
import hashlib
import json
import mmap
import os
import random
import sys


class Report:

  def __init__(self):
    p = argparse.ArgumentParser()
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--tier', default='quick')
    p.add_argument('--mode', default='')
    p.add_argument('--out', default='')
    p.add_argument('--scratch', default='')
    p.add_argument('--case', type=int, default=-1)
    p.add_argument('--shard', type=int, default=0)
    p.add_argument('--shards', type=int, default=1)
    a = p.parse_args()
    self.seed, self.mode, self.out, self.scratch = a.seed, a.mode, a.out, a.scratch
    self.thorough = a.tier == 'thorough'
    self.only, self.shard, self.shards = a.case, a.shard, a.shards
    self.evaluations = 0
    self.distinct = set()
    self.counters = {}
    self.samples = []
    self.violations = []
    self._seen = set()
    self._case, self._what = -1, ''
    self._crumb = None
    if self.out:
      with open(self.out + '.case', 'wb') as f:
        f.write(b'\0' * 16384)
      with open(self.out + '.case', 'r+b') as f:
        self._crumb = mmap.mmap(f.fileno(), 16384)

  def rng(self, *stream):
    return random.Random(f'{self.seed}/' + '/'.join(map(str, stream)))

  def mine(self, i):
    return i == self.only if self.only >= 0 else i % self.shards == self.shard

  def n(self, quick, thorough):
    return thorough if self.thorough else quick

  def case(self, i, what=''):
    self._case, self._what = i, what
    if self._crumb is not None:
      b = json.dumps({'case': i, 'what': what[:3000]}).encode() + b'\0'
      self._crumb[:len(b)] = b

  def eval(self, n=1):
    self.evaluations += n

  def saw(self, what):
    self.distinct.add(hashlib.sha256(repr(what).encode()).hexdigest()[:16])

  def count(self, name, n=1):
    self.counters[name] = self.counters.get(name, 0) + n

  def sample(self, s):
    if len(self.samples) < 8:
      self.samples.append(s[:400])

  def violation(self, key, detail):
    if key in self._seen or len(self.violations) >= 20:
      return
    self._seen.add(key)
    self.violations.append(dict(key=key, detail=detail[:4000], case=self._case,
                                what=self._what[:3000]))
    print(f'violation [{key}] case {self._case}: {detail[:2000]}', file=sys.stderr)

  def broken(self, why):
    print(f'HARNESS-ERROR: {why}', file=sys.stderr)
    sys.stderr.flush()
    os._exit(3)

  def finish(self):
    j = json.dumps(dict(evaluations=self.evaluations, distinct=sorted(self.distinct),
                        counters=self.counters, samples=self.samples,
                        violations=self.violations))
    if self.out:
      with open(self.out, 'w') as f:
        f.write(j)
    else:
      print(j[:4000])
