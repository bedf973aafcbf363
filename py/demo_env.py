"""Loads the demo server's modules from the repository.

The *_pb2 modules are generated into the scratch directory. TensorFlow, the
aggregation core and pybind11_abseil are not available here; the modules below
stand in for the part of them that the demo calls.
"""
import enum
import http.server
import pathlib
import random
import re
import socket
import subprocess
import sys
import threading
import time
import types

V = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path('/repo')
SITE = '/opt/fcp/pyvenv/lib/python3.12/site-packages'


def closure(names):
  todo, seen = list(names), []
  while todo:
    n = todo.pop()
    if n in seen:
      continue
    for root in (REPO, V / 'shims' / 'protos'):
      p = root / n
      if p.exists():
        seen.append(n)
        todo += re.findall(r'^import (?:public )?"([^"]+)"', p.read_text(), re.M)
        break
  return sorted(seen)


def load(report, modules, protos):
  gen = pathlib.Path(report.scratch or '/tmp/demo_env') / 'gen'
  (gen / 'fcp' / 'demo').mkdir(parents=True, exist_ok=True)
  p = subprocess.run(
      [sys.executable, '-m', 'grpc_tools.protoc', f'-I{REPO}', f'-I{V}/shims/protos',
       f'-I{SITE}', f'--python_out={gen}'] + closure(protos),
      capture_output=True, text=True)
  if p.returncode:
    report.broken('protoc: ' + p.stderr[-2000:])
  # fcp/demo/__init__.py imports TensorFlow Federated, so the modules are
  # linked into a package of their own, as the build of the tests does.
  for m in modules:
    link = gen / 'fcp' / 'demo' / (m + '.py')
    if not link.exists():
      link.symlink_to(REPO / 'fcp' / 'demo' / (m + '.py'))
  sys.path.insert(0, str(gen))
  if 'tensorflow' in sys.modules:
    sys.modules['tensorflow'].__path__ = [str(gen / 'tensorflow')]
  return gen


# --- a server that keeps quiet and a client that can misbehave ---


class Quiet(http.server.ThreadingHTTPServer):
  daemon_threads = True
  request_queue_size = 128

  def __init__(self, *a):
    self.trouble = []
    super().__init__(*a)

  def handle_error(self, request, address):
    self.trouble.append(repr(sys.exc_info()[1]))


class Answer:

  def __init__(self, raw):
    self.raw = raw
    head, _, self.body = raw.partition(b'\r\n\r\n')
    lines = head.decode('latin-1').split('\r\n')
    try:
      self.status = int(lines[0].split()[1])
    except (IndexError, ValueError):
      self.status = None
    self.headers = {}
    for l in lines[1:]:
      k, _, v = l.partition(':')
      self.headers[k.strip().lower()] = v.strip()


def talk(server, rng, method, target, headers=(), body=b'', cut=None):
  """One request over a connection of its own; the body may be cut short."""
  s = socket.create_connection(server.server_address, timeout=60)
  try:
    lines = [f'{method} {target} HTTP/1.{rng.randint(0, 1)}', 'Host: h', 'Connection: close']
    lines += [f'{k}: {v}' for k, v in headers]
    data = '\r\n'.join(lines).encode('latin-1') + b'\r\n\r\n' + (body if cut is None else body[:cut])
    try:
      if rng.random() < 0.2 and len(data) < 2000:
        at = rng.randint(1, len(data) - 1)
        s.sendall(data[:at])
        s.sendall(data[at:])
      else:
        s.sendall(data)
      if cut is not None:
        s.shutdown(socket.SHUT_WR)
    except (BrokenPipeError, ConnectionResetError):
      pass
    out = b''
    while True:
      try:
        b = s.recv(65536)
      except ConnectionResetError:
        break
      if not b:
        break
      out += b
    return Answer(out)
  finally:
    s.close()


# --- what the demo takes from pybind11_abseil ---


class StatusCode(enum.IntEnum):
  OK = 0
  CANCELLED = 1
  UNKNOWN = 2
  INVALID_ARGUMENT = 3
  DEADLINE_EXCEEDED = 4
  NOT_FOUND = 5
  ALREADY_EXISTS = 6
  PERMISSION_DENIED = 7
  RESOURCE_EXHAUSTED = 8
  FAILED_PRECONDITION = 9
  ABORTED = 10
  OUT_OF_RANGE = 11
  UNIMPLEMENTED = 12
  INTERNAL = 13
  UNAVAILABLE = 14
  DATA_LOSS = 15
  UNAUTHENTICATED = 16


class Status:

  def __init__(self, code, message):
    self._code, self._message = StatusCode(code), message

  @staticmethod
  def OkStatus():
    return Status(StatusCode.OK, '')

  def ok(self):
    return self._code == StatusCode.OK

  def code(self):
    return self._code

  def raw_code(self):
    return int(self._code)

  def message(self):
    return self._message


class StatusNotOk(Exception):

  def __init__(self, status):
    super().__init__(f'{status.code().name}: {status.message()}')
    self.status = status


def status_code_from_int(code):
  try:
    return StatusCode(code)
  except ValueError:
    return StatusCode.UNKNOWN


# --- the aggregation protocol: every call is recorded, every client and every
# input is accounted for as the protocol's own status message has it ---


class Message:
  """A stand-in for a proto message: just its fields."""

  def __init__(self, **kw):
    self.__dict__.update(kw)


class Protocol:
  """Aggregates inputs b'ok:...'; anything else is refused as invalid."""
  delay = staticmethod(lambda: None)
  made = []

  def __init__(self, config):
    self.config = config
    self.lock = threading.Lock()
    self.state = 'created'
    self.clients = []  # pending / completed / failed / aborted
    self.close = {}  # client -> code of the close message not polled yet
    self.inputs = {}  # client -> bytes included
    self.discarded = 0
    self.closed_by_server = []  # (client, code) as CloseClient had it
    self.received = []  # (client, bytes)
    self.result_reads = 0
    self.misuse = []
    Protocol.made.append(self)

  def Start(self, n):
    with self.lock:
      self.state = 'started'
      self.clients += ['pending'] * n

  def AddClients(self, n):
    self.delay()
    with self.lock:
      if self.state not in ('started', 'completed', 'aborted'):
        raise StatusNotOk(Status(StatusCode.FAILED_PRECONDITION, 'not started'))
      first = len(self.clients)
      if self.state == 'started':
        self.clients += ['pending'] * n
      else:
        # Late clients are turned away at once.
        for c in range(first, first + n):
          self.clients.append('aborted')
          self.close[c] = StatusCode.ABORTED
    self.delay()
    return first

  def ReceiveClientMessage(self, client, message):
    self.delay()
    data = message.simple_aggregation.input.inline_bytes
    with self.lock:
      self.received.append((client, data))
      if self.state != 'started':
        raise StatusNotOk(Status(StatusCode.FAILED_PRECONDITION, 'not started'))
      if self.clients[client] != 'pending':
        self.misuse.append(f'message from client {client} that is {self.clients[client]}')
        raise StatusNotOk(Status(StatusCode.FAILED_PRECONDITION, 'client is closed'))
      if data.startswith(b'ok:'):
        self.clients[client] = 'completed'
        self.inputs[client] = data
        self.close[client] = StatusCode.OK
      else:
        self.clients[client] = 'failed'
        self.close[client] = StatusCode.INVALID_ARGUMENT
    self.delay()

  def PollServerMessage(self, client):
    self.delay()
    with self.lock:
      if client not in self.close:
        return None
      code = self.close.pop(client)
    return Message(simple_aggregation=Message(close_message=Message(code=int(code))))

  def CloseClient(self, client, message, code):
    self.delay()
    with self.lock:
      self.closed_by_server.append((client, code))
      if self.clients[client] != 'pending':
        return
      if code == 0:
        self.clients[client] = 'completed'
        self.discarded += 1
      else:
        self.clients[client] = 'failed'

  def GetStatus(self):
    with self.lock:
      n = lambda s: sum(c == s for c in self.clients)
      return Message(num_clients_completed=n('completed'), num_clients_failed=n('failed'),
                     num_clients_pending=n('pending'), num_clients_aborted=n('aborted'),
                     num_inputs_aggregated_and_included=len(self.inputs),
                     num_inputs_aggregated_and_pending=0,
                     num_inputs_discarded=self.discarded)

  def _finish(self, state):
    for c, s in enumerate(self.clients):
      if s == 'pending':
        self.clients[c] = 'aborted'
        self.close[c] = StatusCode.ABORTED
    self.state = state

  def Complete(self):
    self.delay()
    with self.lock:
      if self.state != 'started':
        raise StatusNotOk(Status(StatusCode.FAILED_PRECONDITION, 'not started'))
      self._finish('completed')
    self.delay()

  def Abort(self):
    self.delay()
    with self.lock:
      if self.state != 'started':
        raise StatusNotOk(Status(StatusCode.FAILED_PRECONDITION, 'not started'))
      self._finish('aborted')
      self.discarded += len(self.inputs)
      self.inputs = {}

  def GetResult(self):
    with self.lock:
      if self.state != 'completed':
        return Status(StatusCode.FAILED_PRECONDITION, 'not completed')
      self.result_reads += 1
      return self.aggregate()

  def aggregate(self):
    return b'|'.join(sorted(self.inputs.values()))


class PlanSession:
  """plan_utils.Session: the client's files and the final step."""

  def __init__(self, plan, checkpoint):
    self._c = checkpoint

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  @property
  def client_plan(self):
    return b'plan of ' + self._c

  @property
  def client_checkpoint(self):
    return b'checkpoint of ' + self._c * 50

  @property
  def slices(self):
    return {f'{self._c.decode()}_at': [b'slice %d of ' % i + self._c for i in range(14)]}

  def finalize(self, data):
    return b'final of ' + self._c + b':' + data


def stand_ins():
  def mod(name, **kw):
    parts = name.split('.')
    for i in range(1, len(parts) + 1):
      n = '.'.join(parts[:i])
      if n not in sys.modules:
        m = types.ModuleType(n)
        m.__path__ = []
        sys.modules[n] = m
        if i > 1:
          setattr(sys.modules['.'.join(parts[:i - 1])], parts[i - 1], m)
    for k, v in kw.items():
      setattr(sys.modules[name], k, v)

  codes = dict(invalid_argument_error=StatusCode.INVALID_ARGUMENT,
               internal_error=StatusCode.INTERNAL, unknown_error=StatusCode.UNKNOWN,
               not_found_error=StatusCode.NOT_FOUND,
               failed_precondition_error=StatusCode.FAILED_PRECONDITION,
               aborted_error=StatusCode.ABORTED, unavailable_error=StatusCode.UNAVAILABLE)
  mod('pybind11_abseil.status', Status=Status, StatusCode=StatusCode, StatusNotOk=StatusNotOk,
      StatusCodeFromInt=status_code_from_int,
      **{k: (lambda m, c=c: Status(c, m)) for k, c in codes.items()})
  names = 'float32 double string int32 int64 uint64'.split()
  enums = dict(float32=1, double=2, string=7, int32=3, int64=9, uint64=23)
  by_enum = {v: k for k, v in enums.items()}
  mod('tensorflow', **{n: n for n in names})
  mod('tensorflow.dtypes', as_dtype=lambda d: by_enum.get(d, d))
  root = 'tensorflow_federated.cc.core.impl.aggregation.'

  class DataType:
    DT_FLOAT, DT_DOUBLE, DT_STRING, DT_INT32, DT_INT64, DT_UINT64 = names

  class TensorSpecProto:

    def __init__(self, name=''):
      self.name, self.dtype = name, None
      self.shape = Message(dim_sizes=[])

  mod(root + 'core.tensor_pb2', TensorSpecProto=TensorSpecProto, DataType=DataType)
  msg = type('ClientMessage', (Message,), {})
  msg.SimpleAggregation = type('SimpleAggregation', (Message,), {})
  mod(root + 'protocol.aggregation_protocol_messages_pb2', ClientMessage=msg,
      ClientResource=type('ClientResource', (Message,), {}))
  conf = type('Configuration', (Message,), {})
  conf.IntrinsicConfig = type('IntrinsicConfig', (Message,), {})
  conf.IntrinsicConfig.IntrinsicArg = type('IntrinsicArg', (Message,), {})
  mod(root + 'protocol.configuration_pb2', Configuration=conf)
  mod(root + 'protocol.python.aggregation_protocol', AggregationProtocol=Protocol)
  mod(root + 'tensorflow.python.aggregation_protocols',
      create_simple_aggregation_protocol=Protocol)


# --- threads that stop in between any two lines of the demo ---


class Shaker:
  """Puts pauses between the lines of the demo's modules, in every thread."""

  def __init__(self, seed, files, p=0.15, longest=0.0006):
    self.local = threading.local()
    self.seed, self.p, self.longest = seed, p, longest
    self.files = files
    self.next = 0
    self.lock = threading.Lock()

  def rng(self):
    r = getattr(self.local, 'rng', None)
    if r is None:
      with self.lock:
        self.next += 1
        r = self.local.rng = random.Random(f'{self.seed}/{self.next}')
    return r

  def pause(self):
    r = self.rng()
    if r.random() < self.p:
      time.sleep(r.random() * self.longest)

  def trace(self, frame, event, arg):
    return self.line if frame.f_code.co_filename.endswith(self.files) else None

  def line(self, frame, event, arg):
    if event == 'line':
      self.pause()
    return self.line

  def __enter__(self):
    threading.settrace(self.trace)
    return self

  def __exit__(self, *a):
    threading.settrace(None)
