"""The tracing code generator on schemas drawn at random.

Every schema is put through flatc and the generator, compiled, and the compiled
traits are asked about each table; schemas with a fault have to be refused.
"""
import json
import os
import pathlib
import re
import subprocess
import sys

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import harness

V = pathlib.Path(__file__).resolve().parent.parent
B = V / 'build' / 'asan'
REPO = '/repo'
FLATC_ARGS = ['--gen-object-api', '--gen-generated', '--reflect-names',
              '--bfbs-comments', '--keep-prefix']
INTS = {'byte': (-2**7, 2**7 - 1, 'std::int8_t'), 'ubyte': (0, 2**8 - 1, 'std::uint8_t'),
        'short': (-2**15, 2**15 - 1, 'std::int16_t'), 'ushort': (0, 2**16 - 1, 'std::uint16_t'),
        'int': (-2**31, 2**31 - 1, 'std::int32_t'), 'uint': (0, 2**32 - 1, 'std::uint32_t'),
        'long': (-2**63, 2**63 - 1, 'std::int64_t'), 'ulong': (0, 2**64 - 1, 'std::uint64_t')}
ALIAS = {'byte': 'int8', 'ubyte': 'uint8', 'short': 'int16', 'ushort': 'uint16', 'int': 'int32',
         'uint': 'uint32', 'long': 'int64', 'ulong': 'uint64', 'float': 'float32',
         'double': 'float64'}
WORDS = ('alpha beta gamma delta size count reason code phase round client server bytes total '
         'index label state elapsed kind rate limit offset flags version').split()


def lit(t, v):
  """A C++ literal of the type."""
  if t == 'bool':
    return 'true' if v else 'false'
  if t == 'string':
    return cstr(v)
  if t == 'float':
    return f'{v!r}f'
  if t == 'double':
    return f'{v!r}'
  lo, _, c = INTS[t]
  if t == 'long' and v == lo:
    return f'({c})(-9223372036854775807LL-1)'
  return f'({c}){v}{"ULL" if t == "ulong" else "LL"}'


def cstr(s):
  # The view ends before the characters do.
  return 'absl::string_view("' + ''.join('\\%03o' % b for b in s) + f'~~", {len(s)})'


class Schema:
  """A schema, as text and as a model of what the traits have to say."""

  def __init__(self, rng, tags, names, avoid_ns=False):
    self.rng = rng
    self.tables, self.parts = [], []
    self.spaces = [''] if avoid_ns or rng.random() < 0.4 else []
    for _ in range(rng.randint(0 if self.spaces else 1, 2)):
      parts = []
      for _ in range(rng.randint(1, 3)):
        parts.append(rng.choice(['n', 'outer', 'deep']) + str(len(names)))
        names.add(parts[-1])
      self.spaces.append('.'.join(parts))
    self.enums = []
    for ns in self.spaces:
      for _ in range(rng.randint(0, 2)):
        base = rng.choice(list(INTS))
        n = f'Enum{len(names)}'
        names.add(n)
        vals, v = [], rng.choice([0, 0, 0, 1, 5] + ([-3] if INTS[base][0] < 0 else []))
        if rng.random() < 0.7:
          v = 0
        for k in range(rng.randint(1, 5)):
          vals.append((f'{n}V{k}', v))
          v += rng.choice([1, 1, 2, 7])
        self.enums.append((ns, n, base, vals))
    for ns in self.spaces:
      for _ in range(rng.randint(2, 5)):
        self.table(ns, tags, names)
    self.structs = rng.randint(0, 1)

  def table(self, ns, tags, names):
    rng = self.rng
    name = rng.choice(['Event', 'Span', 'State', 'X']) + f'{len(names)}' + rng.choice(['', 'Done', '_x'])
    names.add(name)
    while True:
      tag = ''.join(rng.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789abc') for _ in range(4))
      if tag not in tags:
        break
    tags.add(tag)
    sev = rng.choice(['Info', 'Info', 'Warning', 'Error'])
    span = rng.random() < 0.35
    fields = []
    for k in range(rng.choice([0, 1, 1, 2, 3, 4, 6, 9])):
      fname = rng.choice(WORDS) + rng.choice(['', '_n']) + str(k)
      r = rng.random()
      if r < 0.25:
        t = 'string'
      elif r < 0.45 and self.enums:
        t = rng.choice(self.enums)
      else:
        t = rng.choice(list(INTS) + ['bool', 'float', 'double'])
      dep = rng.random() < 0.15
      default = None
      if isinstance(t, str) and t in INTS and rng.random() < 0.2:
        default = rng.randint(1, 100)
      vec = dep and rng.random() < 0.3
      fields.append(dict(name=fname, type=t, dep=dep, default=default, vec=vec))
    if rng.random() < 0.35 and fields:
      ids = list(range(len(fields)))
      rng.shuffle(ids)
    else:
      ids = None
    self.tables.append(dict(ns=ns, name=name, tag=tag, sev=sev, span=span, fields=fields, ids=ids))

  def text(self):
    rng = self.rng
    out = ['include "fcp/tracing/tracing_schema_common.fbs";']
    for ns in self.spaces:
      out.append(f'namespace {ns};' if ns else '')
      for ens, n, base, vals in self.enums:
        if ens == ns:
          out.append(f'enum {n} : {base} {{ ' + ', '.join(f'{a} = {b}' for a, b in vals) + ' }')
      if self.structs:
        out.append(f'struct Struct{self.tables[0]["name"]}{ns.replace(".", "_")} {{ x: float; y: int; }}')
    for ns in self.spaces:
      out.append(f'namespace {ns};')
      for t in self.tables:
        if t['ns'] != ns:
          continue
        attrs = t.get('attrs')
        if attrs is None:
          attrs = [f'tag: "{t["tag"]}"']
          if t['sev'] != 'Info':
            attrs.append(t['sev'].lower())
          if t['span']:
            attrs.append('span')
          t['order'] = t.get('order') or rng.sample(range(len(attrs)), len(attrs))
          attrs = [attrs[i] for i in t['order']]
        body = []
        for k, f in enumerate(t['fields']):
          ty = f['type']
          if not isinstance(ty, str):
            ty = (ty[0] + '.' if ty[0] else '') + ty[1]
          elif ty in ALIAS and f['name'].endswith(('0', '2', '4')):
            ty = ALIAS[ty]
          if f['vec']:
            ty = '[int]'
          if f.get('raw'):
            ty = f['raw']
          default = ''
          if f['default'] is not None and not f['vec'] and not f.get('raw'):
            default = f' = {f["default"]}'
          elif not isinstance(f['type'], str) and not f['vec'] and not f.get('raw') and \
              0 not in [v for _, v in f['type'][3]]:
            default = f' = {f["type"][3][0][0]}'
          fa = []
          if t['ids']:
            fa.append(f'id: {t["ids"][k]}')
          if f['dep']:
            fa.append('deprecated')
          body.append(f'  {f["name"]}: {ty}{default}' + (f' ({", ".join(fa)})' if fa else '') + ';')
        out.append(f'table {t["name"]} ' + (f'({", ".join(attrs)}) ' if attrs else '') + '{\n' +
                   '\n'.join(body) + '\n}')
    return '\n'.join(out) + '\n'


def value(rng, t):
  if not isinstance(t, str):
    return rng.choice(t[3])[1]
  if t == 'bool':
    return rng.random() < 0.5
  if t in ('float', 'double'):
    return rng.choice([0.0, -0.25, 1.5, 1024.0, rng.randint(-10**6, 10**6) / 4])
  if t == 'string':
    r = rng.random()
    if r < 0.15:
      return b''
    if r < 0.3:
      return 'café 世界 "q" \\ \n\t'.encode()
    return bytes(rng.choice(b'abc xyz:,{}[]0189') for _ in range(rng.randint(1, 40)))
  lo, hi, _ = INTS[t]
  return rng.choice([0, 1, lo, hi, lo + 1, hi - 1, rng.randint(lo, hi)])


def run(cmd, **kw):
  return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def generate(r, root, pkg, text):
  """flatc and the generator. Returns (exit status, stderr) of the generator."""
  d = root / pkg
  d.mkdir(parents=True, exist_ok=True)
  (d / 'tracing_schema.fbs').write_text(text)
  s = f'{pkg}/tracing_schema'
  for extra in (['-c', '--reflect-types'], ['-b', '--schema']):
    p = run(['flatc'] + extra + FLATC_ARGS + ['-I', REPO, '-o', pkg, s + '.fbs'], cwd=root)
    if p.returncode:
      r.broken(f'flatc refused the schema: {p.stdout!r} {p.stderr!r}\n{text}')
  g = [str(B / 'tracing_traits_generator'), s + '_generated.h', s + '.bfbs', s + '.fbs']
  p = run(g, cwd=root)
  (root / (s + '.h')).write_bytes(p.stdout)
  q = run(g, cwd=root)
  if (p.returncode, p.stdout, p.stderr) != (q.returncode, q.stdout, q.stderr):
    r.violation('not-repeatable', text)
  if p.returncode < 0 or b'Sanitizer' in p.stderr:
    r.violation('generator-crashed', f'{p.returncode} {p.stderr[-1500:]!r}\n{text}')
  return p.returncode, p.stderr.decode('utf-8', 'replace')


def cname(ns, n):
  return ns.replace('.', '::') + ('::' if ns else '') + n


def program(rng, schemas):
  """A program that asks the traits about every table; the expectations by number."""
  out = ['#include <cstdio>', '#include <string>', '#include <tuple>', '#include <cstring>']
  for k in range(2):
    for pkg, _ in schemas:
      out.append(f'#include "{pkg}/tracing_schema.h"')
  out.append('#include "fcp/tracing/tracing_span.h"')
  out.append('''
static void Show(const char* what, int t, int k, const std::string& s) {
  std::printf("%s %d %d ", what, t, k);
  for (unsigned char c : s) std::printf("%02x", c);
  std::printf("\\n");
  std::fflush(stdout);
}
#define WANT(key, t, k, cond) do { if (!(cond)) Show("FAIL-" key, t, k, #cond); } while (0)
int main(int argc, char** argv) {
  int json = argc > 1 ? atoi(argv[1]) : -1;
''')
  want = {}
  i = 0
  for pkg, s in schemas:
    for t in s.tables:
      c = cname(t['ns'], t['name'])
      out.append('  {')
      out.append(f'    using T = {c}; using Tr = fcp::TracingTraits<T>;')
      out.append(f'    if (json < 0) {{')
      out.append(f'    WANT("tag", {i}, 0, Tr::kTag.str() == "{t["tag"]}");')
      out.append(f'    WANT("severity", {i}, 0, Tr::kSeverity == fcp::TracingSeverity::k{t["sev"]});')
      out.append(f'    WANT("severity", {i}, 0, Tr().Severity() == fcp::TracingSeverity::k{t["sev"]});')
      out.append(f'    WANT("span", {i}, 0, Tr::kIsSpan == {"true" if t["span"] else "false"});')
      out.append(f'    WANT("name", {i}, 0, std::string(Tr().Name()) == "{c}");')
      out.append(f'    const fcp::TracingTraitsBase* found = fcp::TracingTraitsBase::Lookup(fcp::TracingTag("{t["tag"]}"));')
      out.append(f'    WANT("lookup", {i}, 0, std::string(found->Name()) == "{c}" && found->Severity() == fcp::TracingSeverity::k{t["sev"]});')
      out.append('    }')
      live = sorted(range(len(t['fields'])), key=lambda k: t['ids'][k] if t['ids'] else k)
      live = [t['fields'][k] for k in live if not t['fields'][k]['dep']]
      for k in range(4):
        vals = [value(rng, f['type']) for f in live]
        want[(i, k)] = (t, live, vals)
        args, tup = [], []
        for f, v in zip(live, vals):
          if isinstance(f['type'], str):
            a = lit(f['type'], v)
            tup.append(f'std::string({a})' if f['type'] == 'string' else a)
          else:
            ns, n, base, values = f['type']
            label = [x for x, y in values if y == v][0]
            a = f'{cname(ns, n)}_{label}'
            tup.append(a)
          args.append(a)
        out.append(f'    {{ auto buf = fcp::tracing_internal::BuildFlatBuffer<T>({", ".join(args)});')
        out.append(f'      if (json < 0) {{')
        out.append(f'      const T* root = flatbuffers::GetRoot<T>(buf.data()); (void)root;')
        out.append(f'      WANT("buffer-tag", {i}, {k}, fcp::TracingTag::FromFlatbuf(buf)->str() == "{t["tag"]}");')
        for f, x in zip(live, tup):
          got = f'root->{f["name"]}()' + ('->str()' if f['type'] == 'string' else '')
          out.append(f'      WANT("value", {i}, {k}, {got} == {x});')
        out.append(f'      {{ Tr::TupleType expected({", ".join(tup)}); WANT("tuple", {i}, {k}, Tr::MakeTuple(root) == expected); }}'
                   if tup else
                   f'      WANT("tuple", {i}, {k}, Tr::MakeTuple(root) == Tr::TupleType());')
        out.append(f'      Show("TEXT", {i}, {k}, Tr().TextFormat(buf));')
        out.append(f'      WANT("text-by-tag", {i}, {k}, fcp::TracingTraitsBase::Lookup(fcp::TracingTag("{t["tag"]}"))->TextFormat(buf) == Tr().TextFormat(buf));')
        out.append(f'      }} else if (json == {i}) Show("JSON", {i}, {k}, Tr().JsonStringFormat(buf.data()));')
        out.append('    }')
      out.append('  }')
      i += 1
  out.append('  if (json < 0) { WANT("unknown-tag", -1, 0, std::string(fcp::TracingTraitsBase::Lookup(fcp::TracingTag("~~~~"))->Name()) == "?Unknown?"); }')
  out.append('  std::printf("END\\n"); return 0; }')
  return '\n'.join(out) + '\n', want


def shown(text, f, v, js):
  """Whether the field is shown with its value. None: not shown at all."""
  m = re.search(r'(?:^|[{,\s])"?%s"?: ' % re.escape(f['name']), text)
  if not m:
    return None
  rest = text[m.end():]
  t = f['type']
  if not isinstance(t, str):
    label = [x for x, y in t[3] if y == v][0]
    m = re.match(r'"?(\w+|-?\d+)"?', rest)
    return bool(m) and m.group(1) in (label, str(v))
  if t == 'string':
    try:
      s, _ = json.JSONDecoder(strict=False).raw_decode(rest)
    except ValueError:
      return False
    return s.encode() == v
  m = re.match(r'(true|false|[-+.\deE]+)', rest)
  if not m:
    return False
  x = {'true': 1, 'false': 0}.get(m.group(1), m.group(1))
  if t in ('float', 'double'):
    return abs(float(x) - v) <= abs(v) * 1e-5
  return int(x) == int(v)


def default_of(f):
  t = f['type']
  if t == 'string':
    return None
  if not isinstance(t, str):
    vals = [v for _, v in t[3]]
    return 0 if 0 in vals else vals[0]
  return f['default'] if f['default'] is not None else 0


def compare(r, kind, text, t, live, vals):
  r.eval()
  for f, v in zip(live, vals):
    ok = shown(text, f, v, kind == 'json')
    if ok is None and v == default_of(f):
      continue
    if not ok:
      r.violation(f'{kind}-format', f'table {t["name"]} field {f["name"]} value {v!r}: {text[:600]}')
      return
  for f in t['fields']:
    if f['dep'] and re.search(r'(?:^|[{,\s])"?%s"?: ' % re.escape(f['name']),
                              re.sub(r'"(?:[^"\\]|\\.)*"', '""', text)):
      r.violation(f'{kind}-format', f'deprecated field {f["name"]} shown: {text[:600]}')


def good_case(r, i):
  rng = r.rng('good', i)
  root = pathlib.Path(r.scratch) / f'g{i}'
  root.mkdir(parents=True)
  os.symlink(f'{REPO}/fcp', root / 'fcp')
  tags, names, schemas = set(), set(), []
  for k in range(2):
    pkg = rng.choice(['pkg', 'some/dir', 'a/b/c']) + str(k)
    s = Schema(rng, tags, names, avoid_ns=(k == 0))
    r.case(i, s.text())
    code, err = generate(r, root, pkg, s.text())
    if code != 0:
      r.violation('good-schema-refused', f'{code} {err}\n{s.text()}')
      return
    schemas.append((pkg, s))
  src, want = program(rng, schemas)
  (root / 'ask.cc').write_text(src)
  p = run(['g++', '-std=c++17', '-O0', '-w', '-fsanitize=address,undefined',
           '-fno-sanitize=vptr,enum', '-fno-sanitize-recover=all', '-include',
           str(V / 'shims/compat.h'), f'-I{V}/shims/common', f'-I{root}', f'-I{REPO}',
           f'-I{B}/gen', '-o', 'ask', 'ask.cc', str(B / 'libfcp_tracing.a'),
           str(B / 'libfcp_base.a'), str(B / 'libfcp_tracing.a'), str(B / 'libfcp_base.a'),
           '-lflatbuffers', '-lprotobuf', '-labsl_status', '-labsl_statusor', '-labsl_strings',
           '-labsl_cord', '-labsl_time', '-labsl_time_zone', '-labsl_synchronization',
           '-labsl_str_format_internal', '-labsl_raw_hash_set', '-labsl_hash', '-labsl_base',
           '-labsl_throw_delegate', '-labsl_raw_logging_internal', '-lz', '-lpthread'], cwd=root)
  if p.returncode:
    err = p.stderr.decode('utf-8', 'replace')
    lines = [l for l in err.splitlines() if 'error' in l or 'undefined' in l][:12]
    if all('_generated.h' in l for l in lines if ': error' in l) and 'undefined' not in err:
      r.broken('flatc output does not compile: ' + '\n'.join(lines))
    if any(w in err for w in ('cannot execute', 'No space left', 'Killed', 'ld: cannot find')):
      r.broken('compiler: ' + '\n'.join(lines))
    r.violation('generated-code-does-not-compile', '\n'.join(lines) + '\n' + err[-1500:])
    return
  r.count('schemas compiled', 2)
  n = 0

  def ask(arg):
    q = run(['./ask'] + arg, cwd=root)
    lines = q.stdout.decode().splitlines()
    ended = q.returncode == 0 and lines and lines[-1] == 'END'
    return ended, [l.split(' ') for l in lines if l != 'END'], q

  ended, lines, q = ask([])
  if not ended:
    r.violation('generated-code-crashed', f'{q.returncode} {q.stderr[-3000:]!r}')
  for l in lines:
    what, t, k = l[0], int(l[1]), int(l[2])
    text = bytes.fromhex(l[3] if len(l) > 3 else '').decode('utf-8', 'replace')
    if what.startswith('FAIL-'):
      tab = want[(t, k)][0] if t >= 0 else None
      r.violation('wrong-' + what[5:], f'{text}: {tab}')
    elif what == 'TEXT':
      n += 1
      compare(r, 'text', text, *want[(t, k)])
  tables = sorted({t for t, _ in want})
  for t in tables:
    tab = want[(t, 0)][0]
    r.saw((tab['sev'], tab['span'], bool(tab['ns']), bool(tab['ids']),
           [(f['type'] if isinstance(f['type'], str) else 'enum', f['dep']) for f in tab['fields']]))
    r.eval()
    r.count('tables asked')
    if tab['sev'] != 'Info':
      r.count('tables with a severity')
    if tab['ns']:
      r.count('tables in a namespace')
    if rng.random() < 0.5:
      ended, lines, q = ask([str(t)])
      if not ended:
        r.violation('json-of-table-in-namespace' if tab['ns'] else 'json-crashed',
                    f'{tab["ns"]} {tab["name"]}: {q.returncode} {q.stderr[-800:]!r}')
      for l in lines:
        compare(r, 'json', bytes.fromhex(l[3]).decode('utf-8', 'replace'), *want[(t, int(l[2]))])
        r.count('tables shown as json')
  if schemas and len(r.samples) < 3:
    r.sample(schemas[1][1].text())
  subprocess.run(['rm', '-rf', str(root)], check=False)


def bad_case(r, i):
  rng = r.rng('bad', i)
  root = pathlib.Path(r.scratch) / f'b{i}'
  root.mkdir(parents=True)
  s = Schema(rng, set(), set())
  s.structs = 1
  t = rng.choice(s.tables)
  kind = rng.choice(['no attributes', 'no tag', 'short tag', 'long tag', 'empty tag', 'same tag',
                     'vector', 'struct', 'table', 'strings'])
  names = [t['name']]
  if kind == 'no attributes':
    t['attrs'] = []
  elif kind == 'no tag':
    t['attrs'] = rng.choice([['span'], ['warning'], ['error', 'span']])
  elif kind in ('short tag', 'long tag', 'empty tag'):
    n = {'short tag': rng.randint(1, 3), 'long tag': rng.randint(5, 9), 'empty tag': 0}[kind]
    t['attrs'] = ['tag: "' + 'QWERTYUIO'[:n] + '"'] + rng.choice([[], ['span'], ['warning']])
  elif kind == 'same tag':
    o = rng.choice([x for x in s.tables if x is not t])
    t['tag'] = o['tag']
    names.append(o['name'])
  else:
    other = rng.choice(s.tables)['name']
    ns = t['ns'].replace('.', '_')
    raw = {'vector': '[ulong]', 'struct': f'Struct{s.tables[0]["name"]}{ns}', 'table': t['name'], 'strings': '[string]'}[kind]
    t['ids'] = None
    t['fields'].insert(rng.randint(0, len(t['fields'])),
                       dict(name='odd', type='int', dep=False, default=None, vec=False, raw=raw))
  text = s.text()
  r.case(i, text)
  code, err = generate(r, root, 'pkg', text)
  r.eval()
  r.count('faulty schemas')
  r.saw((kind, t['sev'], t['span'], len(t['fields'])))
  if code == 0:
    r.violation('faulty-schema-accepted', f'{kind}\n{text}')
  elif 'ERROR' not in err or not any(n in err for n in names):
    r.violation('fault-not-named', f'{kind}: {err}')
  subprocess.run(['rm', '-rf', str(root)], check=False)


def main():
  r = harness.Report()
  if not r.scratch:
    r.broken('--scratch is required')
  good = r.n(16, 160)
  for i in range(good + r.n(400, 4000)):
    if not r.mine(i):
      continue
    if i < good:
      good_case(r, i)
    else:
      bad_case(r, i)
  r.finish()


main()
