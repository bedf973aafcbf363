"""Writes a planted bug to /verif/seeded/<id>/ from its edits and its demonstration.

A development aid: nothing the checks run comes through here.
"""
import json
import os
import pathlib
import shutil
import subprocess
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path('/repo')

DEMO_CC = '''#!/bin/bash
# Builds a small program from the sources in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d /tmp/demo.XXXXXX)" || exit 99
trap 'rm -rf "$w"' EXIT
flags="-std=c++17 -O1 -g0 -w {flags} -include $here/shim/compat.h -I$here/shim -I/usr/include/android -I$repo -I$repo/_build/gen"
n=0
list="$here/demo.cc"
for f in {srcs}; do
  case "$f" in
    *_test.cc|*_bench.cc|*_main.cc|*/status_converters.cc|*/test_tracing_*.cc) continue;;
  esac
  list="$list $repo/$f"
done
for f in $list; do
  n=$((n+1))
  echo "$f $w/$n.o"
done | xargs -P 8 -L 1 sh -c "g++ $flags -c \\"\\$0\\" -o \\"\\$1\\"" || exit 98
g++ {flags} "$w"/*.o -o "$w/demo" {libs} \\
  $(pkg-config --libs absl_status absl_statusor absl_strings absl_str_format absl_cord absl_time \\
    absl_synchronization absl_flat_hash_map absl_flat_hash_set absl_node_hash_map absl_btree \\
    absl_random_random absl_random_distributions absl_hash) -lprotobuf -lpthread || exit 97
cd "$w" || exit 96
timeout {limit} "$w/demo"
'''

DEMO_PY = '''#!/bin/bash
# Runs a small program against the modules the build put together.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PYTHONPATH="$repo/_build/py" PYTHONDONTWRITEBYTECODE=1
timeout {limit} /opt/fcp/pyvenv/bin/python "$here/demo.py"
'''


def seed(bug, prop, needs, breaks, edits, demo_cc=None, demo_py=None, demo_sh=None,
         srcs=(), libs='', flags='', limit=120, extra=()):
  d = VERIF / 'seeded' / bug
  if d.exists():
    shutil.rmtree(d)
  d.mkdir(parents=True)
  with tempfile.TemporaryDirectory(dir='/tmp') as t:
    w = pathlib.Path(t) / 'r'
    subprocess.run(['git', 'clone', '-q', '--shared', str(REPO), str(w)], check=True)
    for f, old, new in edits:
      p = w / f
      s = p.read_text()
      if s.count(old) != 1:
        raise SystemExit(f'{bug}: {f}: {s.count(old)} matches for {old!r}')
      p.write_text(s.replace(old, new))
    diff = subprocess.run(['git', '-C', str(w), 'diff'], check=True, capture_output=True).stdout
  (d / 'patch.diff').write_bytes(diff)
  (d / 'meta.json').write_text(json.dumps(
      {'property': prop, 'needs': needs, 'what_it_breaks': breaks}, indent=1) + '\n')
  sh = demo_sh
  if demo_cc is not None:
    (d / 'demo.cc').write_text(demo_cc)
    for f in extra:
      (d / 'shim').mkdir(exist_ok=True)
      shutil.copy(VERIF / f, d / 'shim')
    shutil.copytree(VERIF / 'shims' / 'common' / 'absl', d / 'shim' / 'absl')
    shutil.copytree(VERIF / 'shims' / 'common' / 'flatbuffers', d / 'shim' / 'flatbuffers')
    shutil.copy(VERIF / 'shims' / 'compat.h', d / 'shim' / 'compat.h')
    sh = DEMO_CC.format(srcs=' '.join(srcs), libs=libs, flags=flags, limit=limit)
  elif demo_py is not None:
    (d / 'demo.py').write_text(demo_py)
    sh = DEMO_PY.format(limit=limit)
  (d / 'demo.sh').write_text(sh)
  os.chmod(d / 'demo.sh', 0o755)
  print('wrote', d)


SECAGG = ['fcp/base/*.cc', 'fcp/tracing/*.cc', 'fcp/secagg/shared/*.cc', 'fcp/secagg/client/*.cc',
          'fcp/secagg/server/*.cc', 'fcp/secagg/server/aes/*.cc']
SECAGG_LIBS = ('"$repo/_build/libprotos.a" /usr/lib/x86_64-linux-gnu/android/libcrypto.so '
               '-Wl,-rpath,/usr/lib/x86_64-linux-gnu/android -lflatbuffers -lz')
SECAGG_EXTRA = ['harness/common.h', 'harness/secagg_world.h', 'harness/null_tracing.h',
                'tools/session_demo.h']
