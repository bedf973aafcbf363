"""The demo server's request routing and its uploads and downloads."""
import gzip
import http
import http.server
import pathlib
import socket
import sys
import threading
import urllib.parse
import warnings
import zlib

from absl import logging

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import demo_env
import harness
from demo_env import Answer, talk

R = harness.Report()
logging.set_verbosity(logging.ERROR)
warnings.simplefilter('ignore')
PROTOS = ['fcp/protos/federatedcompute/' + n for n in
          ('common.proto', 'eligibility_eval_tasks.proto', 'task_assignments.proto',
           'aggregations.proto')]
demo_env.load(R, ['http_actions', 'media'], PROTOS)
from fcp.demo import http_actions
from fcp.demo import media
from fcp.protos.federatedcompute import aggregations_pb2
from fcp.protos.federatedcompute import common_pb2
from fcp.protos.federatedcompute import eligibility_eval_tasks_pb2
from fcp.protos.federatedcompute import task_assignments_pb2
from google.api import annotations_pb2
from google.longrunning import operations_pb2
from google.protobuf import descriptor_pb2
from google.protobuf import descriptor_pool
from google.protobuf import message_factory

NS = 'google.internal.federatedcompute.v1.'
E, T, A = eligibility_eval_tasks_pb2, task_assignments_pb2, aggregations_pb2
# Service, method, path, request, response.
RPCS = [
    ('EligibilityEvalTasks', 'RequestEligibilityEvalTask',
     '/v1/eligibilityevaltasks/{population_name}:request',
     E.EligibilityEvalTaskRequest, E.EligibilityEvalTaskResponse),
    ('EligibilityEvalTasks', 'ReportEligibilityEvalTaskResult',
     '/v1/populations/{population_name}/eligibilityevaltasks/{session_id}:reportresult',
     E.ReportEligibilityEvalTaskResultRequest, E.ReportEligibilityEvalTaskResultResponse),
    ('TaskAssignments', 'StartTaskAssignment',
     '/v1/populations/{population_name}/taskassignments/{session_id}:start',
     T.StartTaskAssignmentRequest, operations_pb2.Operation),
    ('TaskAssignments', 'PerformMultipleTaskAssignments',
     '/v1/populations/{population_name}/taskassignments/{session_id}:performmultiple',
     T.PerformMultipleTaskAssignmentsRequest, T.PerformMultipleTaskAssignmentsResponse),
    ('TaskAssignments', 'ReportTaskResult',
     '/v1/populations/{population_name}/taskassignments/{session_id}:reportresult',
     T.ReportTaskResultRequest, T.ReportTaskResultResponse),
    ('Aggregations', 'StartAggregationDataUpload',
     '/v1/aggregations/{aggregation_id}/clients/{authorization_token}:startdataupload',
     A.StartAggregationDataUploadRequest, operations_pb2.Operation),
    ('Aggregations', 'SubmitAggregationResult',
     '/v1/aggregations/{aggregation_id}/clients/{client_token}:submit',
     A.SubmitAggregationResultRequest, A.SubmitAggregationResultResponse),
    ('Aggregations', 'AbortAggregation',
     '/v1/aggregations/{aggregation_id}/clients/{client_token}:abort',
     A.AbortAggregationRequest, A.AbortAggregationResponse),
]
RPCS = [(NS + s, m, p, q, a, 'POST', '*') for s, m, p, q, a in RPCS]


def own_service():
  """A service with the kinds of methods that the ones above do not have."""
  f = descriptor_pb2.FileDescriptorProto(
      name='verif_things.proto', package='verif', syntax='proto3',
      dependency=['google/api/annotations.proto'])
  m = f.message_type.add(name='Thing')
  for n, (name, kind) in enumerate([('name', 9), ('part', 9), ('data', 12), ('extra', 9)]):
    m.field.add(name=name, number=n + 1, type=kind, label=1)
  s = f.service.add(name='Things')
  rules = {}
  for name, kind, path, body in (
      ('Get', 'get', '/v1/things/{name}', ''),
      ('GetPart', 'get', '/v1/things/{name}/parts/{part}:get', ''),
      ('Put', 'post', '/v1/things/{name}/parts/{part}', 'data'),
      ('Touch', 'post', '/v1/things/{name}:touch', ''),
      ('Replace', 'put', '/v1/things/{name}', '*'),
      ('Remove', 'delete', '/v1/things/{name}', ''),
      ('Change', 'patch', '/v1/things/{name}', '*'),
  ):
    r = s.method.add(name=name, input_type='.verif.Thing', output_type='.verif.Thing')
    rule = r.options.Extensions[annotations_pb2.http]
    setattr(rule, kind, path)
    rule.body = body
    rules[name] = (kind.upper(), path, body)
  descriptor_pool.Default().AddSerializedFile(f.SerializeToString())
  thing = message_factory.GetMessageClass(
      descriptor_pool.Default().FindMessageTypeByName('verif.Thing'))
  return [('verif.Things', n, p, thing, thing, k, b) for n, (k, p, b) in rules.items()
          if k in ('GET', 'POST')]


RPCS += own_service()
CODES = [c for c in http.HTTPStatus if c >= 400]


def serve(*services):
  handler = http_actions.create_handler(*services)
  handler.log_message = lambda *a: None
  handler.timeout = 30
  s = demo_env.Quiet(('127.0.0.1', 0), handler)
  threading.Thread(target=s.serve_forever, args=(0.02,), daemon=True).start()
  return s


def text(rng, hard=True):
  n = rng.choice([1, 1, 2, 5, 12, 40])
  if rng.random() < 0.1:
    return ''
  pool = 'abcXYZ019-._~'
  if hard and rng.random() < 0.7:
    pool += '/?%&=+#:{} ()[]*$\'"\\<>|^`;,@!äßñ\u4e16\u754c\U0001f600\u0301'
  return ''.join(rng.choice(pool) for _ in range(n))


SAFE = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~'


def quote(rng, s):
  """Percent-encodes; what may stay as it is sometimes does."""
  out = ''
  for c in s:
    keep = c in SAFE and rng.random() < 0.9 or c in '+=:$&,;@!*()\'' and rng.random() < 0.5
    if keep:
      out += c
    else:
      for b in c.encode():
        out += ('%%%02x' if rng.random() < 0.3 else '%%%02X') % b
  return out


def bindings(pattern, path):
  """All ways in which the path is the pattern with its variables filled in."""
  i = pattern.find('{')
  if i < 0:
    if pattern == path:
      yield {}
    return
  j = pattern.index('}', i)
  name, lit, rest = pattern[i + 1:j], pattern[:i], pattern[j + 1:]
  if not path.startswith(lit):
    return
  path = path[len(lit):]
  for k in range(len(path) + 1):
    if k and path[k - 1] in '/?':
      return
    for b in bindings(rest, path[k:]):
      yield {name: path[:k], **b}


def fill(rng, m, depth=0):
  """Sets some fields of a message."""
  for f in m.DESCRIPTOR.fields:
    if f.containing_oneof and any(m.HasField(g.name) for g in f.containing_oneof.fields
                                  if g.message_type or g.containing_oneof):
      continue
    if rng.random() < 0.45:
      continue
    many = f.label == f.LABEL_REPEATED
    if f.message_type:
      if f.message_type.GetOptions().map_entry or depth > 3:
        continue
      if f.message_type.full_name == 'google.protobuf.Any':
        continue
      for _ in range(rng.randint(1, 2) if many else 1):
        sub = getattr(m, f.name).add() if many else getattr(m, f.name)
        if not many:
          sub.SetInParent()
        fill(rng, sub, depth + 1)
      continue
    for _ in range(rng.randint(1, 3) if many else 1):
      t = f.cpp_type
      v = {f.CPPTYPE_STRING: lambda: text(rng) if f.type == f.TYPE_STRING else rng.randbytes(rng.randint(0, 30)),
           f.CPPTYPE_BOOL: lambda: True,
           f.CPPTYPE_DOUBLE: lambda: rng.random(), f.CPPTYPE_FLOAT: lambda: 0.5,
           f.CPPTYPE_ENUM: lambda: rng.choice(f.enum_type.values).number,
           }.get(t, lambda: rng.randint(0, 100))()
      if many:
        getattr(m, f.name).append(v)
      else:
        setattr(m, f.name, v)
  return m


def routing():
  rounds = R.n(320, 4000)
  for i in range(rounds):
    if R.mine(i):
      routing_round(i)


def pattern_of(rng, taken):
  while True:
    segs, k = [], 0
    for _ in range(rng.randint(1, 4)):
      seg = ''
      for _ in range(rng.choice([1, 1, 1, 2])):
        if rng.random() < 0.5 and not seg.endswith('}'):
          seg += '{v%d}' % k
          k += 1
        else:
          seg += rng.choice(['data', 'up.load', 'a+b', 'x(1)', 'v1', '$m', ':go', ':stop', 'a*', '-', '~', '[z]'])
      segs.append(seg)
    p = '/' + '/'.join(segs)
    if rng.random() < 0.3:
      p += rng.choice(['?upload_protocol=raw', '?a=b&c=d', '?x={q}'])
    if p not in taken:
      taken.append(p)
      return p


class Calls:

  def __init__(self):
    self.lock = threading.Lock()
    self.by_tag = {}
    self.script = {}


def routing_round(i):
  rng = R.rng('routing', i)
  calls = Calls()
  actions = []
  taken = []

  def http_fn(k):

    def fn(self, body, **args):
      with calls.lock:
        tag = current(args, body)
        calls.by_tag.setdefault(tag, []).append((k, body, args))
        answer = calls.script.get(tag)
      if answer is None:
        return http_actions.HttpResponse(b'unasked')
      if isinstance(answer, http.HTTPStatus):
        raise http_actions.HttpError(answer)
      return answer

    return fn

  def proto_fn(k):

    def fn(self, request):
      with calls.lock:
        tag = current(None, request)
        calls.by_tag.setdefault(tag, []).append((k, request, None))
        answer = calls.script.get(tag)
      if answer is None:
        return actions[k]['response']()
      if isinstance(answer, http.HTTPStatus):
        raise http_actions.HttpError(answer)
      return answer

    return fn

  # The request says which request it is by the thread's own port, which the
  # handler thread knows.
  local = threading.local()

  def current(args, body):
    return local.peer

  spaces = [{} for _ in range(rng.randint(1, 3))]
  for k in range(rng.randint(3, 8)):
    method = rng.choice(['GET', 'POST', 'POST'])
    p = pattern_of(rng, taken)
    said = rng.choice([method, method.lower()])
    fn = http_actions.http_action(method=said, pattern=p)(http_fn(k))
    actions.append(dict(kind='http', method=method, pattern=p))
    rng.choice(spaces)[f'act{k}'] = fn
  for service, method, p, req, res, verb, field in rng.sample(RPCS, rng.randint(1, len(RPCS))):
    k = len(actions)
    fn = http_actions.proto_action(service=service, method=method)(proto_fn(k))
    actions.append(dict(kind='proto', method=verb, field=field, pattern=p + '?%24alt=proto', bare=p,
                        request=req, response=res))
    rng.choice(spaces)[f'act{k}'] = fn
  # Neither of these is an action.
  spaces[0]['helper'] = lambda self, *a, **k: R.violation('helper-called', 'a plain method was called')
  spaces[0]['number'] = 7
  services = [type(f'S{n}', (), s)() for n, s in enumerate(spaces)]
  server = serve(*services)
  handler = server.RequestHandlerClass
  inner = handler.handle_one_request

  def handle_one_request(self):
    local.peer = self.client_address
    inner(self)

  handler.handle_one_request = handle_one_request

  def client(c):
    crng = R.rng('routing', i, 'client', c)
    for j in range(R.n(40, 60)):
      one_request(i, crng, server, actions, calls, taken)

  try:
    threads = [threading.Thread(target=client, args=(c,)) for c in range(4)]
    for t in threads:
      t.start()
    for t in threads:
      t.join()
    R.count('rounds')
  finally:
    server.shutdown()
    server.server_close()
  refused_at_start(rng)


def refused_at_start(rng):
  """Actions that cannot be served are refused when they are declared."""
  for what, make in (
      ('method', lambda: http_actions.http_action(method=rng.choice(['PUT', 'DELETE', 'x', '']), pattern='/a')),
      ('service', lambda: http_actions.proto_action(service=NS + 'NoSuch', method='M')),
      ('rpc', lambda: http_actions.proto_action(service=NS + 'TaskAssignments', method='NoSuch')),
      ('verb', lambda: http_actions.proto_action(service='verif.Things',
                                                 method=rng.choice(['Replace', 'Remove', 'Change']))),
      ('subfield', lambda: http_actions.http_action(method='GET', pattern='/a/{b.c}')),
  ):
    R.eval()
    R.count('actions refused when declared')
    try:
      make()
    except ValueError:
      continue
    R.violation('bad-action-accepted', f'an action with a bad {what} was accepted')


LOCK = threading.Lock()


def locked(fn, *a):
  with LOCK:
    fn(*a)


def one_request(i, rng, server, actions, calls, taken):
  k = rng.randrange(len(actions))
  act = actions[k]
  proto = act['kind'] == 'proto'
  method = act['method']
  values = {}
  pattern = act['pattern']
  twist = rng.choice(['none'] * 10 + ['method', 'extra', 'less', 'case', 'query', 'other-method'])
  target, rest = '', pattern
  while '{' in rest:
    a, b = rest.index('{'), rest.index('}')
    v = text(rng)
    target += rest[:a] + quote(rng, v)
    rest = rest[b + 1:]
  target += rest
  if twist == 'method':
    method = 'POST' if method == 'GET' else 'GET'
  elif twist == 'other-method':
    method = rng.choice(['PUT', 'DELETE', 'PATCH', 'HEAD'])
  elif twist == 'extra':
    target = rng.choice([target + '/x', '/x' + target, target + '&y=1', target + 'z', target + '?'])
  elif twist == 'less':
    target = target[:-1] or '/'
  elif twist == 'case':
    target = target.swapcase() if '%' not in target else target + '//'
  elif twist == 'query':
    target = target.split('?')[0] + rng.choice(['', '?', '?alt=json', '?%24alt=json'])
  if not target.startswith('/') or target.startswith('//'):
    target = '/' + target.lstrip('/')
  # What should be called, by the text of the patterns alone.
  could = {}
  for n, a in enumerate(actions):
    if a['method'] == method:
      bs = list(bindings(a['pattern'], target))
      if bs:
        could[n] = bs
  body, want_body, headers, cut, bad = b'', b'', [], None, None
  fault = None
  only = [n for n in could if actions[n]['kind'] == 'proto']
  if method == 'GET':
    if only:
      message = actions[only[0]]['request']()
  elif method == 'POST':
    is_proto = bool(only) and len(could) == 1 and actions[only[0]]['field'] == '*'
    if is_proto:
      message = fill(rng, actions[only[0]]['request']())
      want_body = message.SerializeToString()
    else:
      message = None
      if only and actions[only[0]]['field'] != '*':
        message = actions[only[0]]['request']()
      want_body = rng.randbytes(rng.choice([0, 1, 10, 100, 5000, 5000, 70000, 200000]))
      if message is not None and actions[only[0]]['field']:
        setattr(message, actions[only[0]]['field'], want_body)
    body = want_body
    fault = rng.choice([None] * 12 + ['bad-gzip', 'cut-gzip', 'gzip-tail', 'encoding', 'no-length', 'bad-length', 'short', 'bad-proto'])
    if fault == 'bad-proto' and not is_proto:
      fault = None
    if fault == 'bad-proto':
      body = rng.choice([b'\xff\xff\xff', b'\x0a\x7fabc', b'\x0f', want_body + b'\x0a\xff\x01'])
    zipped = fault in ('bad-gzip', 'cut-gzip', 'gzip-tail') or (
        fault != 'encoding' and rng.random() < 0.4)
    if zipped:
      data = body
      if rng.random() < 0.25 and len(data) > 1 and fault is None:
        at = rng.randrange(len(data))
        body = gzip.compress(data[:at], rng.randint(0, 9)) + gzip.compress(data[at:])
        locked(R.count, 'bodies of several gzip members')
      else:
        body = gzip.compress(data, rng.randint(0, 9), mtime=0)
      if fault == 'bad-gzip':
        torn = bytearray(body)
        for _ in range(rng.randint(1, 40)):
          torn[rng.randrange(10, len(torn))] ^= 1 << rng.randrange(8)
        try:
          gzip.decompress(bytes(torn))
          torn = b''
        except (EOFError, OSError, zlib.error):
          pass
        body = rng.choice([bytes(torn) or b'not gzip', bytes(torn) or b'not gzip', b'not gzip at all', body[:-8] + bytes(x ^ 0x5a for x in body[-8:-4]) + body[-4:],
                           b'\x1f\x8c' + body[2:], zlib.compress(data)])
      elif fault == 'cut-gzip':
        body = body[:rng.randint(1, len(body) - 1)]
      elif fault == 'gzip-tail':
        body += b'garbage'
      headers.append((rng.choice(['Content-Encoding', 'content-encoding']), 'gzip'))
    elif fault == 'encoding':
      headers.append(('Content-Encoding', rng.choice(['br', 'compress', 'deflate', 'zstd', 'gzip, br'])))
    if fault == 'no-length':
      pass
    elif fault == 'bad-length':
      headers.append(('Content-Length', rng.choice(['abc', '-1', '-5', '1.5', '0x10', '12 13', ''])))
    elif fault == 'short':
      more = rng.choice([1, 7, 1000])
      headers.append(('Content-Length', str(len(body) + more)))
      cut = len(body)
    else:
      headers.append((rng.choice(['Content-Length', 'content-length']), str(len(body))))
    # Without a handler the body is never looked at.
    bad = fault if could else None
  code, answer = None, None
  if could:
    n = next(iter(could))
    if len(could) == 1 and rng.random() < 0.75:
      if actions[n]['kind'] == 'proto':
        answer = fill(rng, actions[n]['response']())
      else:
        data = rng.randbytes(rng.choice([0, 3, 1000, 100000]))
        hs = {'Content-Length': len(data), 'Content-Type': rng.choice(['a/b', 'application/x-test'])}
        if rng.random() < 0.3:
          hs['X-Extra'] = 'v' + str(rng.randint(0, 99))
        answer = http_actions.HttpResponse(data, hs)
    elif len(could) == 1:
      answer = rng.choice(CODES)
  # One connection per request, bound first so that the handler's thread can
  # tell which request it is working on.
  s = socket.socket()
  s.bind(('127.0.0.1', 0))
  s.settimeout(60)
  me = s.getsockname()
  with calls.lock:
    calls.script[me] = answer
    calls.by_tag.pop(me, None)
  try:
    s.connect(server.server_address)
    lines = [f'{method} {target} HTTP/1.{rng.randint(0, 1)}', 'Host: h', 'Connection: close']
    lines += [f'{a}: {b}' for a, b in headers]
    data = '\r\n'.join(lines).encode('latin-1') + b'\r\n\r\n' + (body if method == 'POST' else b'')
    try:
      if rng.random() < 0.2:
        at = rng.randint(1, len(data) - 1)
        s.sendall(data[:at])
        s.sendall(data[at:])
      else:
        s.sendall(data)
      if cut is not None:
        s.shutdown(socket.SHUT_WR)
    except (BrokenPipeError, ConnectionResetError):
      pass
    out = b''
    while True:
      try:
        b = s.recv(65536)
      except ConnectionResetError:
        break
      if not b:
        break
      out += b
  finally:
    # Before the port can be somebody else's.
    with calls.lock:
      made = calls.by_tag.pop(me, [])
      calls.script.pop(me, None)
    s.close()
  got = Answer(out)
  what = f'{method} {target!r} {headers} fault={fault} twist={twist} body={len(body)}'

  def v(key, detail):
    locked(R.violation, key, f'{what}: {detail}; answer {got.raw[:300]!r}')

  with LOCK:
    R.case(i, what)
    R.eval()
    R.saw((method, act['pattern'], twist, fault, got.status, len(could)))
    R.count('requests')
    if twist != 'none' and not could:
      R.count('requests for nothing')
    if bad:
      R.count('requests with a fault in the body')
    if '%' in target.split('?')[0]:
      R.count('requests with escaped text')
    if any(a[0].lower() == 'content-encoding' and a[1] == 'gzip' for a in headers) and not bad and could:
      R.count('gzip bodies accepted')
    if bad == 'short':
      R.count('bodies cut off')
    if bad == 'cut-gzip':
      R.count('gzip streams cut off')
    if R.evaluations % 300 == 1:
      R.sample(f'{what} -> {got.status}, {len(made)} calls')
  if method not in ('GET', 'POST'):
    if made:
      v('wrong-method-called', 'an action was called')
    if got.status is None or got.status < 400:
      v('wrong-method-status', f'status {got.status}')
    return
  if not could:
    if made:
      v('wrong-action', f'action {actions[made[0][0]]["pattern"]} was called although it does not match')
    if got.status != 404:
      v('not-found-status', f'status {got.status} where nothing matches')
    return
  if bad:
    if made:
      v('bad-body-passed-on', f'an action was called with {made[0][1]!r:.200}')
    if got.status is None or not 400 <= got.status < 500:
      v('bad-body-status', f'status {got.status}')
    elif bad not in ('no-length', 'bad-length') and got.status != 400:
      v('bad-body-status', f'status {got.status}')
    return
  if len(made) != 1:
    v('calls', f'{len(made)} calls; patterns {[actions[n]["pattern"] for n in could]}; '
      f'trouble {server.trouble[-1:]}')
    return
  n, data, args = made[0]
  if n not in could:
    v('wrong-action', f'{actions[n]["pattern"]} was called; {[actions[x]["pattern"] for x in could]} match')
    return
  options = [{k: urllib.parse.unquote_to_bytes(x).decode('utf-8', 'replace') for k, x in b.items()}
             for b in could[n]]
  if actions[n]['kind'] == 'http':
    if args not in options:
      v('variables', f'{actions[n]["pattern"]} got {args!r}, expected {options[:3]!r}')
    if data != (want_body if method == 'POST' else b''):
      v('body', f'{len(data)} bytes {data[:40]!r} reached the action, {len(want_body)} were sent')
  elif len(could) == 1:
    wants = []
    for o in options:
      m = actions[n]['request']()
      m.CopyFrom(message)
      for k2, x in o.items():
        setattr(m, k2, x)
      wants.append(m)
    if data not in wants:
      v('message', f'the action got {data!s:.300}, expected {wants[0]!s:.300}')
  if answer is None:
    return
  if isinstance(answer, http.HTTPStatus):
    if got.status != answer:
      v('error-code', f'status {got.status} where the action said {int(answer)}')
    return
  if got.status != 200:
    v('status', f'status {got.status} after the action answered')
    return
  if actions[n]['kind'] == 'proto':
    if got.headers.get('content-type') != 'application/x-protobuf':
      v('content-type', got.headers.get('content-type'))
    if got.headers.get('content-length') != str(len(got.body)):
      v('content-length', f'{got.headers.get("content-length")} for {len(got.body)} bytes')
    try:
      same = actions[n]['response'].FromString(got.body) == answer
    except Exception as e:  # pylint: disable=broad-except
      same = False
    if not same:
      v('response', f'{got.body!r:.200} is not the action\'s answer')
  else:
    if got.body != answer.body:
      v('response', f'{len(got.body)} bytes, the action gave {len(answer.body)}')
    for a, b in answer.headers.items():
      if got.headers.get(a.lower()) != str(b):
        v('response-header', f'{a}: {got.headers.get(a.lower())!r}, the action said {b!r}')


# --- uploads and downloads ---

INFO = 'http://media.example/'


def fresh_service():
  return media.Service(lambda: common_pb2.ForwardingInfo(target_uri_prefix=INFO))


def upload_body(rng):
  return rng.choice([b'', b'x', rng.randbytes(rng.choice([1, 50, 3000, 100000]))])


def media_histories():
  for i in range(R.n(800, 8000)):
    if R.mine(i):
      media_history(i)


def get_path(url):
  return url[len(INFO) - 1:]


def near(rng, name):
  """Another name that looks much like this one."""
  at = rng.choice([0, len(name) - 1, len(name) // 2, rng.randrange(len(name))])
  other = rng.choice([c for c in '0123456789abcdefxyz' if c != name[at]])
  return rng.choice([name[:at] + other + name[at + 1:], name[:at] + other + name[at + 1:],
                     name[:-1], name[:8], name + '0', name.upper() + 'A', name.replace('-', ''),
                     ' ' + name, name + ' ', name + '.'])


def media_history(i):
  """One client at a time, over HTTP, against a model."""
  rng = R.rng('media', i)
  svc = fresh_service()
  server = serve(svc)
  groups = []  # open: (context, group, {name: (data, type)})
  closed = []  # urls that must be gone
  uploads = {}  # name -> None or bytes
  dead = []
  log = []

  def v(key, detail):
    R.violation(key, f'{detail}; history {log[-12:]}')

  def url_of(url):
    path = get_path(url)
    head, name = path.rsplit('/', 1)
    return head + '/' + quote(rng, name)

  def download(path):
    return talk(server, rng, 'GET', path)

  try:
    for step in range(R.n(40, 60)):
      R.case(i, f'media history step {step}')
      R.eval()
      op = rng.choice(['open', 'add', 'add', 'again', 'get', 'get', 'missing', 'close', 'gone',
                       'register', 'register', 'upload', 'upload', 'upload', 'twice', 'stranger',
                       'finalize', 'finalize', 'late'])
      R.count('media operations')
      if op == 'open' and len(groups) < 4:
        ctx = svc.create_download_group()
        g = ctx.__enter__()
        log.append(('open', g.prefix))
        if any(g.prefix == o[1].prefix for o in groups):
          v('group-prefix', f'{g.prefix} handed out twice')
        if not g.prefix.startswith(INFO):
          v('group-prefix', f'{g.prefix} is not under the service\'s own address')
        groups.append((ctx, g, {}))
      elif op == 'add' and groups:
        _, g, files = rng.choice(groups)
        name = (text(rng).replace('/', '-') or 'f') + str(rng.randint(0, 99))
        data, ctype = upload_body(rng), rng.choice(
            ['', 'text/plain', 'application/x-protobuf+gzip', 'Text/HTML; Charset="UTF-8"', 'a/b;c=D'])
        log.append(('add', g.prefix, name, len(data)))
        if name in files:
          continue
        url = g.add(name, data, ctype) if ctype else g.add(name, data)
        if url != g.prefix + name:
          v('add-url', f'{url!r} for {name!r} in {g.prefix!r}')
        files[name] = (data, ctype or 'application/octet-stream')
      elif op == 'again' and groups:
        _, g, files = rng.choice(groups)
        if files:
          name = rng.choice(list(files))
          log.append(('again', name))
          R.count('names taken already')
          try:
            g.add(name, b'other')
            v('duplicate-file', f'{name!r} was added twice')
          except KeyError:
            pass
      elif op == 'get' and groups:
        _, g, files = rng.choice(groups)
        if files:
          name = rng.choice(list(files))
          log.append(('get', name))
          got = download(url_of(g.prefix + name))
          data, ctype = files[name]
          R.count('downloads')
          R.saw(('get', len(data), ctype))
          if got.status != 200 or got.body != data:
            v('download', f'{name!r}: {got.status}, {len(got.body)} of {len(data)} bytes')
          elif got.headers.get('content-type') != ctype or got.headers.get('content-length') != str(len(data)):
            v('download-headers', f'{name!r}: {got.headers}')
      elif op == 'missing' and groups:
        _, g, files = rng.choice(groups)
        others = [n for _, o, fs in groups if o is not g for n in fs if n not in files]
        name = rng.choice(others) if others else 'nothing-here'
        path = None
        if files and rng.random() < 0.5:
          name = rng.choice(list(files))
          if rng.random() < 0.5:
            head, group, _ = g.prefix.rsplit('/', 2)
            other = near(rng, group)
            path = url_of(f'{head}/{urllib.parse.quote(other)}/{name}')
          else:
            name = near(rng, name).replace('/', '-')
          R.count('names much like others')
        if path is None and name in files:
          continue
        log.append(('missing', name, path))
        got = download(path or url_of(g.prefix + name))
        R.count('downloads refused')
        if got.status != 404:
          v('download-missing', f'{name!r} of another group: {got.status}')
      elif op == 'close' and groups and rng.random() < 0.6:
        ctx, g, files = groups.pop(rng.randrange(len(groups)))
        log.append(('close', g.prefix))
        if rng.random() < 0.5:
          ctx.__exit__(None, None, None)
        else:
          try:
            ctx.__exit__(ValueError, ValueError('stop'), None)
          except ValueError:
            pass
          R.count('groups closed by an error')
        closed += [g.prefix + n for n in files]
      elif op == 'gone' and closed:
        u = rng.choice(closed)
        log.append(('gone', u))
        got = download(url_of(u))
        R.count('downloads after closing')
        if got.status != 404:
          v('download-closed', f'{u!r} still answers {got.status} after its group was closed')
      elif op == 'register':
        name = svc.register_upload()
        log.append(('register', name))
        if name in uploads or name in dead:
          v('upload-name', f'{name} handed out twice')
        uploads[name] = None
      elif op in ('upload', 'twice', 'stranger', 'late'):
        if op == 'upload':
          names = [n for n, d in uploads.items() if d is None]
        elif op == 'twice':
          names = [n for n, d in uploads.items() if d is not None]
        elif op == 'late':
          names = dead
        else:
          names = ['nobody', '', 'x' * 36]
          if uploads and rng.random() < 0.7:
            names = [urllib.parse.quote(near(rng, rng.choice(list(uploads))))]
        if not names:
          continue
        name = rng.choice(names)
        body = upload_body(rng)
        log.append((op, name, len(body)))
        sent, hs = body, []
        kind = rng.choice(['plain', 'gzip', 'broken', 'short'])
        cut = None
        if kind in ('gzip', 'broken'):
          sent = gzip.compress(body)
          hs.append(('Content-Encoding', 'gzip'))
          if kind == 'broken':
            sent = sent[:rng.randint(1, len(sent) - 1)]
        length = len(sent)
        if kind == 'short':
          length += rng.randint(1, 500)
          cut = len(sent)
        hs.append(('Content-Length', str(length)))
        got = talk(server, rng, 'POST', f'/upload/v1/media/{name}?upload_protocol=raw', hs, sent, cut)
        R.count(f'uploads {op}')
        R.saw((op, kind, len(body), got.status))
        if kind in ('broken', 'short'):
          R.count('uploads cut off')
          if got.status is None or got.status < 400:
            v('broken-upload', f'{kind} upload answered {got.status}')
        elif op == 'upload':
          if got.status != 200:
            v('upload', f'upload of {len(body)} bytes answered {got.status}')
          uploads[name] = body
        elif got.status != 401:
          v(f'upload-{op}', f'answered {got.status}')
      elif op == 'finalize' and uploads:
        name = rng.choice(list(uploads))
        want = uploads.pop(name)
        dead.append(name)
        log.append(('finalize', name))
        R.count('uploads taken' if want is not None else 'uploads never made')
        got = svc.finalize_upload(name)
        if got != want:
          v('finalize', f'{name}: {got!r:.60} instead of {want!r:.60}')
        try:
          svc.finalize_upload(name)
          v('finalize-twice', f'{name} could be taken twice')
        except KeyError:
          pass
  finally:
    server.shutdown()
    server.server_close()


def media_threads():
  for i in range(R.n(3200, 30000)):
    if R.mine(i):
      media_race(i)


def media_race(i):
  """Many at once for the same names; every thread may pause between any two
  lines of the service."""
  rng = R.rng('race', i)
  svc = fresh_service()
  R.case(i, 'media race')
  n = rng.randint(2, 5)
  name = svc.register_upload()
  bodies = [b'%d:' % k + rng.randbytes(rng.choice([0, 5, 100])) for k in range(n)]
  if rng.random() < 0.3:
    bodies[0] = b''
  results = [None] * n
  taken = []
  early = rng.random() < 0.5
  group_ctx = svc.create_download_group()
  group = group_ctx.__enter__()
  gid = group.prefix[len(INFO) + len('data/'):].rstrip('/')
  adds = [None] * n
  gets = []
  registered = []
  closed = threading.Event()
  start = threading.Barrier(2 * n + 3)

  def up(k):
    start.wait()
    try:
      svc.upload(bodies[k], name=name)
      results[k] = 200
    except http_actions.HttpError as e:
      results[k] = int(e.code)

  def add(k):
    start.wait()
    try:
      group.add('file', bodies[k])
      adds[k] = 'added'
    except KeyError as e:
      # The group may be closed at any moment; that is not a second adding.
      adds[k] = 'taken' if 'exists' in str(e) or not closing.is_set() else 'closed'

  closing = threading.Event()

  def get():
    start.wait()
    for _ in range(4):
      before = closed.is_set()
      try:
        r = svc.download(b'', group=gid, name='file')
        gets.append((before, r.body))
      except http_actions.HttpError as e:
        gets.append((before, int(e.code)))

  def take():
    start.wait()
    if not early:
      return
    try:
      taken.append(svc.finalize_upload(name))
    except KeyError:
      taken.append(KeyError)

  def register():
    start.wait()
    for _ in range(3):
      registered.append(svc.register_upload())

  trouble = []

  def guarded(fn, *a):
    try:
      fn(*a)
    except BaseException as e:  # pylint: disable=broad-except
      trouble.append(repr(e))

  with demo_env.Shaker(f'{R.seed}/{i}', ('demo/media.py',), p=0.4, longest=0.0004):
    ts = [threading.Thread(target=guarded, args=(up, k)) for k in range(n)]
    ts += [threading.Thread(target=guarded, args=(add, k)) for k in range(n)]
    ts += [threading.Thread(target=guarded, args=(f,)) for f in (get, take, register)]
    for t in ts:
      t.start()
    if rng.random() < 0.5:
      closing.set()
      group_ctx.__exit__(None, None, None)
      closed.set()
      R.count('groups closed in the middle')
    for t in ts:
      t.join()
  if not closed.is_set():
    final = None
    try:
      final = svc.download(b'', group=gid, name='file').body
    except http_actions.HttpError:
      pass
    winners = [k for k in range(n) if adds[k] == 'added']
    if len(winners) != 1:
      R.violation('add-race', f'{len(winners)} of {n} threads added one name: {adds}')
    elif final != bodies[winners[0]]:
      R.violation('add-race', f'the file is {final!r:.60}, thread {winners[0]} added {bodies[winners[0]]!r:.60}')
    group_ctx.__exit__(None, None, None)
  try:
    svc.download(b'', group=gid, name='file')
    R.violation('download-closed', 'a file is still there after its group was closed')
  except http_actions.HttpError:
    pass
  for before, g in gets:
    if before and isinstance(g, bytes):
      R.violation('download-closed', 'a download began after the group was closed and succeeded')
    if isinstance(g, bytes) and g not in bodies:
      R.violation('download-race', f'{g!r:.60} was never added')
  last = svc.finalize_upload(name) if not early else taken[0]
  won = [k for k in range(n) if results[k] == 200]
  R.eval()
  R.count('races')
  R.count('uploads raced', n)
  R.saw((n, early, len(won), last is None, closed.is_set(), len(gets)))
  if i < 4:
    R.sample(f'{n} uploads of one name: {results}, taken {"during" if early else "after"} them: {last!r:.40}; adds {adds}')
  if trouble:
    R.violation('race-exception', f'{trouble}')
  if any(r not in (200, 401) for r in results):
    R.violation('upload-race-status', f'{results}')
  if len(won) > 1:
    R.violation('upload-race', f'{len(won)} of {n} uploads of one single-use name were accepted')
  elif last is KeyError:
    R.violation('finalize-race', 'a registered upload could not be taken')
  elif len(won) == 1 and last != bodies[won[0]]:
    R.violation('upload-race', f'accepted {bodies[won[0]]!r:.60}, taken {last!r:.60}')
  elif not won and (last is not None or not early):
    R.violation('upload-race', f'no upload was accepted ({results}), taken {last!r:.60}')
  if len(set(registered)) != len(registered):
    R.violation('upload-name', f'{registered}')
  for r in registered:
    try:
      if svc.finalize_upload(r) is not None:
        R.violation('upload-race', 'an upload nobody made was taken')
    except KeyError:
      R.violation('finalize-race', 'a registered upload could not be taken')


sys.setswitchinterval(1e-5)
{'routing': routing, 'media': media_histories, 'races': media_threads}[R.mode]()
R.finish()
