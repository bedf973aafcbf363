"""The demo server: aggregation sessions, task assignment, whole computations."""
import asyncio
import concurrent.futures
import gzip
import http
import logging as stdlog
import pathlib
import sys
import threading
import time
import types
import urllib.parse
import warnings

from absl import logging

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import demo_env
import harness
from demo_env import Protocol, talk

R = harness.Report()
logging.set_verbosity(logging.FATAL)
warnings.simplefilter('ignore')
stdlog.getLogger('asyncio').setLevel(stdlog.CRITICAL)
demo_env.stand_ins()
demo_env.load(
    R, ['http_actions', 'media', 'aggregations', 'task_assignments', 'eligibility_eval_tasks',
        'server'],
    ['fcp/protos/plan.proto', 'fcp/protos/population_eligibility_spec.proto'] +
    ['fcp/protos/federatedcompute/' + n for n in
     ('common.proto', 'eligibility_eval_tasks.proto', 'task_assignments.proto',
      'aggregations.proto')])
plan_utils = types.ModuleType('fcp.demo.plan_utils')
plan_utils.Session = demo_env.PlanSession
import fcp.demo
sys.modules['fcp.demo.plan_utils'] = plan_utils
fcp.demo.plan_utils = plan_utils
from fcp.demo import aggregations
from fcp.demo import eligibility_eval_tasks
from fcp.demo import http_actions
from fcp.demo import media
from fcp.demo import server as demo_server
from fcp.demo import task_assignments
from fcp.protos import plan_pb2
from fcp.protos import population_eligibility_spec_pb2
from fcp.protos.federatedcompute import aggregations_pb2
from fcp.protos.federatedcompute import common_pb2
from fcp.protos.federatedcompute import eligibility_eval_tasks_pb2
from fcp.protos.federatedcompute import task_assignments_pb2
from google.longrunning import operations_pb2

A, E, T = aggregations_pb2, eligibility_eval_tasks_pb2, task_assignments_pb2
Mode = population_eligibility_spec_pb2.PopulationEligibilitySpec.TaskInfo
SINGLE, MULTIPLE = Mode.TASK_ASSIGNMENT_MODE_SINGLE, Mode.TASK_ASSIGNMENT_MODE_MULTIPLE
FILES = tuple(f'demo/{m}.py' for m in
              ('aggregations', 'media', 'task_assignments', 'eligibility_eval_tasks', 'server'))
LOCK = threading.Lock()
AggStatus = aggregations.AggregationStatus


def count(name, n=1):
  with LOCK:
    R.count(name, n)


def violation(key, detail):
  with LOCK:
    R.violation(key, detail)


def make_plan(rng):
  plan = plan_pb2.Plan()
  phase = plan.phase.add()
  phase.server_phase_v2.SetInParent()
  types_ = [1, 2, 3, 7, 9, 23]
  for k in range(rng.randint(0, 3)):
    agg = phase.server_phase_v2.aggregations.add()
    agg.intrinsic_uri = f'intrinsic_{k}'
    for _ in range(rng.randint(1, 2)):
      t = agg.intrinsic_args.add().input_tensor
      t.name, t.dtype = f'in{rng.randint(0, 99)}', rng.choice(types_)
      for _ in range(rng.randint(0, 3)):
        t.shape.dim.add().size = rng.choice([-1, 1, 7])
    t = agg.output_tensors.add()
    t.name, t.dtype = f'out{rng.randint(0, 99)}', rng.choice(types_)
  return plan


def check_config(plan, config):
  """The protocol has to be set up for what the plan says."""
  def spec(t, dims):
    return (t.name, list(dims), {1: 'float32', 2: 'double', 3: 'int32', 7: 'string', 9: 'int64',
                                 23: 'uint64'}.get(t.dtype, t.dtype))
  want = [(a.intrinsic_uri, [spec(x.input_tensor, [d.size for d in x.input_tensor.shape.dim]) for x in a.intrinsic_args],
           [spec(o, [d.size for d in o.shape.dim]) for o in a.output_tensors])
          for a in plan.phase[0].server_phase_v2.aggregations]
  got = [(c.intrinsic_uri, [spec(x.input_tensor, x.input_tensor.shape.dim_sizes) for x in c.intrinsic_args],
          [spec(o, o.shape.dim_sizes) for o in c.output_tensors])
         for c in config.intrinsic_configs]
  if want != got:
    violation('configuration', f'the protocol was set up with {got}, the plan says {want}')


# --- aggregation sessions ---


class Loop:
  """An event loop in a thread of its own, for those who wait."""

  def __init__(self):
    self.errors = []
    self.loop = asyncio.new_event_loop()
    self.loop.set_exception_handler(lambda l, c: self.errors.append(
        f'{c.get("message")} {c.get("exception")!r}'))
    self.thread = threading.Thread(target=self.loop.run_forever, daemon=True)
    self.thread.start()

  def submit(self, coro):
    return asyncio.run_coroutine_threadsafe(coro, self.loop)

  def close(self):
    self.loop.call_soon_threadsafe(self.loop.stop)
    self.thread.join()
    self.loop.close()


def sessions():
  for i in range(R.n(1600, 16000)):
    if R.mine(i):
      session_case(i)


class Session:
  pass


def session_case(i):
  rng = R.rng('sessions', i)
  R.case(i, 'sessions')
  m = media.Service(lambda: common_pb2.ForwardingInfo(target_uri_prefix='http://m/'))
  svc = aggregations.Service(lambda: common_pb2.ForwardingInfo(target_uri_prefix='http://m/'), m)
  shaker = demo_env.Shaker(f'{R.seed}/s/{i}', FILES, p=0.12, longest=0.0005)
  Protocol.delay = staticmethod(shaker.pause)
  Protocol.made.clear()
  loop = Loop()
  all_sessions = []
  for k in range(rng.randint(1, 2)):
    s = Session()
    s.clients = rng.randint(1, 7)
    s.min = rng.choice([0, 1, 1, 2, 3, s.clients])
    s.plan = make_plan(rng)
    s.id = svc.create_session(aggregations.AggregationRequirements(s.min, s.plan))
    s.protocol = Protocol.made[-1]
    check_config(s.plan, s.protocol.config)
    s.break_complete = rng.random() < 0.08
    if s.break_complete:
      def complete(p=s.protocol):
        with p.lock:
          p._finish('aborted')
        raise demo_env.StatusNotOk(demo_env.Status(demo_env.StatusCode.UNKNOWN, 'broken'))
      s.protocol.Complete = complete
    s.ending, s.ended = threading.Event(), threading.Event()
    first = rng.randint(0, s.clients)
    s.tokens = list(svc.pre_authorize_clients(s.id, first))
    s.tokens += list(svc.pre_authorize_clients(s.id, s.clients - first))
    if len(set(s.tokens)) != s.clients:
      violation('tokens', f'{s.tokens}')
    s.starts = {}  # token -> number of admissions
    s.acked, s.uploads, s.ack_before_end = {}, {}, set()
    s.bad_clients = []  # (client, key)
    s.aborts = []
    s.names = []
    s.client_ids = {}
    s.end_after = rng.choice([0, 1, s.clients // 2, s.clients, s.clients, s.clients + 1])
    s.end_how = rng.choice(['complete', 'complete', 'complete', 'abort'])
    s.waits = [(n, loop.submit(svc.wait(s.id, n))) for n in
               [rng.choice([None, 0, 1, 2, s.clients, 50]) for _ in range(rng.randint(0, 3))]]
    s.done = 0
    s.lock = threading.Lock()
    all_sessions.append(s)
  trouble = []

  def call(s, what, fn, request):
    """(status, result); anything but an HttpError is a fault."""
    before, over = s.ending.is_set(), s.ended.is_set()
    try:
      r = fn(request)
      code = 200
    except http_actions.HttpError as e:
      r, code = None, int(e.code)
    except BaseException as e:  # pylint: disable=broad-except
      trouble.append(f'{what}: {e!r}')
      r, code = None, 500
    if over and code != 404:
      violation('after-end', f'{what} answered {code} after the session had ended')
    count('calls')
    if over:
      count('calls after the end')
    return code, r, before

  def start(s, token):
    code, op, before = call(s, 'start', svc.start_aggregation_data_upload,
                            A.StartAggregationDataUploadRequest(
                                aggregation_id=s.id, authorization_token=token))
    if code != 200:
      return code, None, before
    r = A.StartAggregationDataUploadResponse()
    if not op.done or not op.response.Unpack(r):
      violation('start-response', f'{op}')
    with s.lock:
      s.starts[token] = s.starts.get(token, 0) + 1
      if r.resource.resource_name in s.names:
        violation('upload-name', 'one upload was given to two clients')
      s.names.append(r.resource.resource_name)
    return code, r, before

  def client(s, token, seed):
    crng = R.rng('sessions', i, seed)
    time.sleep(crng.random() * 0.003)
    try:
      run_client(s, token, crng, seed)
    except BaseException as e:  # pylint: disable=broad-except
      trouble.append(f'client: {e!r}')
    finally:
      with s.lock:
        s.done += 1

  def run_client(s, token, crng, seed):
    kind = crng.choice(['good'] * 8 + ['no-upload', 'invalid', 'wrong-name', 'abort', 'abort-ok',
                                       'vanish', 'twice', 'upload-vanish', 'double-start', 'stranger', 'thief'])
    count(f'clients: {kind}')
    if kind == 'stranger':
      code, _, _ = start(s, 'no-such-token')
      if code not in (401, 404):
        violation('stranger', f'an unknown token was answered {code}')
      return
    if kind == 'thief' and len(all_sessions) > 1:
      other = all_sessions[0] if s is all_sessions[1] else all_sessions[1]
      code, _, _ = start(other, token)
      if code not in (401, 404):
        violation('stranger', f'the token of another session was answered {code}')
      return
    if kind == 'double-start':
      twin = []
      t = threading.Thread(target=lambda: twin.append(start(s, token)))
      t.start()
      code, r, before = start(s, token)
      t.join()
      codes = sorted([code, twin[0][0] if twin else 0])
      count('tokens used twice')
      if codes.count(200) > 1:
        violation('token-reused', f'both answered {codes}')
      if codes[0] != 200 and not s.ending.is_set():
        violation('token-refused', f'{codes}')
      if code != 200:
        r = twin[0][1] if twin else None
      if r is None:
        return
    else:
      code, r, before = start(s, token)
      if code != 200:
        if not s.ending.is_set():
          violation('token-refused', f'a fresh token was answered {code}')
        return
    data = f'ok:{seed}:'.encode() + crng.randbytes(crng.choice([0, 3, 200]))
    if kind == 'invalid':
      data = b'bad' + data
    name = r.resource.resource_name
    if kind not in ('no-upload', 'vanish'):
      try:
        m.upload(data, name=name)
        s.uploads[seed] = data
      except http_actions.HttpError as e:
        if not s.ending.is_set():
          violation('upload-refused', f'{e.code}')
        # The session is over; the client tries to go on all the same.
    submit = A.SubmitAggregationResultRequest(aggregation_id=s.id, client_token=r.client_token,
                                              resource_name=name)
    if kind in ('vanish', 'upload-vanish'):
      return
    if kind in ('abort', 'abort-ok'):
      status = 0 if kind == 'abort-ok' else crng.choice([1, 3, 4, 10, 13, 14])
      req = A.AbortAggregationRequest(aggregation_id=s.id, client_token=r.client_token)
      req.status.code = status
      code, _, _ = call(s, 'abort', svc.abort_aggregation, req)
      if code == 200:
        s.aborts.append((name, status))
      elif not s.ending.is_set():
        violation('abort-refused', f'{code}')
      code, _, _ = call(s, 'submit', svc.submit_aggregation_result, submit)
      if code == 200:
        violation('submit-after-abort', 'a result was accepted after the client aborted')
      return
    if kind == 'wrong-name':
      others = [n for n in s.names if n != name] + ['nothing', name[:-1], name + '0', name[:1]]
      submit.resource_name = crng.choice(others)
    code, _, _ = call(s, 'submit', svc.submit_aggregation_result, submit)
    late = s.ending.is_set()
    if kind in ('good', 'twice', 'double-start', 'thief'):
      if code == 200:
        s.acked[seed] = data
        if not late:
          s.ack_before_end.add(seed)
      elif not late:
        violation('submit-refused', f'a good result was answered {code}')
      if kind == 'twice':
        code, _, _ = call(s, 'submit', svc.submit_aggregation_result, submit)
        if code == 200:
          violation('submit-twice', 'a result was accepted twice')
        elif code not in (401, 404):
          violation('submit-twice', f'answered {code}')
    else:
      if code < 400:
        violation('bad-submit', f'{kind} was answered {code}')
      with s.lock:
        s.bad_clients.append((kind, late))

  def controller(s):
    crng = R.rng('sessions', i, 'controller', s.id[:0])
    limit = time.time() + 0.02 + crng.random() * 0.03
    while s.done < s.end_after and time.time() < limit + (20 if s.end_after >= s.clients else 0):
      if s.done >= s.clients and s.end_after > s.clients:
        break
      time.sleep(0.0005)
      try:
        st = svc.get_session_status(s.id)
        if st.status != AggStatus.PENDING:
          violation('status', f'{st} while the session is running')
      except BaseException as e:  # pylint: disable=broad-except
        trouble.append(f'status: {e!r}')
    if s.done >= s.clients:
      # Every client has had its answer, so whoever waits for what is there has
      # to be told now, not only when the session ends.
      included = s.protocol.GetStatus().num_inputs_aggregated_and_included
      late = any(v['key'] == 'wait-late' for v in R.violations)
      for w, fut in s.waits:
        if w is not None and w > included:
          continue
        count('waits fulfilled before the end')
        if not concurrent.futures.wait([fut], timeout=0.5 if late else 30).done:
          late = True
          violation('wait-late', f'a wait for {w} inputs goes on with {included} included')
    s.enough = s.protocol.GetStatus().num_inputs_aggregated_and_included >= s.min
    s.ending.set()
    try:
      if s.end_how == 'abort':
        s.final, s.result = svc.abort_session(s.id), None
      else:
        s.final, s.result = svc.complete_session(s.id)
    except BaseException as e:  # pylint: disable=broad-except
      trouble.append(f'{s.end_how}: {e!r}')
      s.final, s.result = None, None
    s.counts = s.protocol.GetStatus()
    s.ended.set()

  with shaker:
    threads = []
    for k, s in enumerate(all_sessions):
      for c, token in enumerate(s.tokens):
        threads.append(threading.Thread(target=client, args=(s, token, f'{k}.{c}')))
      threads.append(threading.Thread(target=controller, args=(s,)))
    rng.shuffle(threads)
    for t in threads:
      t.start()
    for t in threads:
      t.join(120)
      if t.is_alive():
        R.broken('a thread did not end')
  for s in all_sessions:
    R.eval()
    p = s.protocol
    R.saw((s.min, s.clients, s.end_how, s.end_after, len(s.acked), s.final and s.final.status, len(s.starts)))
    if i < 3:
      R.sample(f'{s.clients} clients, minimum {s.min}, {s.end_how} after {s.end_after}: '
               f'{s.final}, accepted {sorted(s.acked)}, result {s.result!r:.60}')
    for w, fut in s.waits:
      try:
        st = fut.result(10)
      except KeyError:
        # It came after the session had ended.
        if not s.ended.is_set():
          violation('wait', f'a wait for {w} inputs did not find the session')
        continue
      except Exception as e:  # pylint: disable=broad-except
        violation('wait', f'a wait for {w} inputs ended with {e!r}')
        continue
      count('waits')
      if (w is not None and st.num_inputs_aggregated_and_included < w and
          st.status == AggStatus.PENDING):
        violation('wait-early', f'a wait for {w} inputs ended with {st}')
    if any(n > 1 for n in s.starts.values()):
      violation('token-reused', f'{s.starts}')
    if p.misuse:
      violation('protocol-misuse', f'{p.misuse}')
    # What the protocol was given is what the clients uploaded, once each.
    got = [d for _, d in p.received]
    if len(set(c for c, _ in p.received)) != len(p.received) or len(set(got)) != len(got):
      violation('input-twice', f'{p.received!r:.500}')
    for d in got:
      if d not in s.uploads.values():
        violation('foreign-input', f'{d!r:.80} was never uploaded to this session')
    included = set(p.inputs.values())
    if s.final is None:
      continue
    if s.end_how == 'abort':
      count('sessions aborted')
      if s.final.status != AggStatus.ABORTED or p.state != 'aborted':
        violation('abort-status', f'{s.final} {p.state}')
    elif s.result is not None:
      count('results released')
      if s.final.status != AggStatus.COMPLETED:
        violation('complete-status', f'{s.final}')
      if len(included) < s.min:
        violation('released-too-early', f'{len(included)} inputs, {s.min} are required')
      if s.result != p.aggregate():
        violation('result', f'{s.result!r:.100} is not the aggregate {p.aggregate()!r:.100}')
      if set(s.acked.values()) != included:
        violation('acknowledged-lost', f'acknowledged {sorted(s.acked)}; included {len(included)}')
    else:
      count('sessions without a result')
      if s.final.status != AggStatus.FAILED:
        violation('complete-status', f'{s.final}')
      if p.result_reads and not s.break_complete:
        violation('released-too-early', 'the aggregate was read although it is not to be released')
      if s.enough and not s.break_complete:
        violation('not-released', f'{s.final}, {s.min} required')
    if not s.break_complete:
      pairs = [(f, getattr(s.final, f), getattr(s.counts, f)) for f in
               ('num_clients_completed', 'num_clients_failed', 'num_inputs_aggregated_and_included',
                'num_inputs_discarded')]
      for f, a, b in pairs:
        if a != b:
          violation('final-status', f'{f} is {a}, the protocol says {b}')
    for key in (lambda: svc.get_session_status(s.id), lambda: svc.complete_session(s.id),
                lambda: svc.pre_authorize_clients(s.id, 1)):
      try:
        key()
        violation('after-end', 'the session is still there')
      except KeyError:
        pass
    # Nothing that a client of the session may upload is kept any longer.
    for n in s.names:
      try:
        m.upload(b'late', name=n)
        violation('upload-kept', 'an upload of a session that has ended is still taken')
      except http_actions.HttpError:
        count('uploads refused after the end')
    # Clients that failed are no longer waited for.
    with p.lock:
      for c, st in enumerate(p.clients):
        if st == 'pending':
          violation('client-pending', f'client {c} is still pending')
    want = sorted(code for _, code in s.aborts)
    bad = [k for k, late in s.bad_clients if not late and k in ('no-upload', 'wrong-name')]
    closed = sorted(code for _, code in p.closed_by_server)
    if [c for c in want if closed.count(c) < want.count(c)]:
      violation('abort-not-passed-on', f'clients aborted with {want}, the protocol was told {closed}')
    if len([c for c in closed if c]) < len([c for c in want if c]) + len(bad):
      violation('failure-not-passed-on', f'aborted {want}, failed {bad}; the protocol was told {closed}')
    if len(set(c for c, _ in p.closed_by_server)) != len(p.closed_by_server):
      violation('closed-twice', f'{p.closed_by_server}')
  if trouble:
    violation('exception', f'{trouble[:4]}')
  loop.close()
  if loop.errors:
    violation('loop-error', f'{loop.errors[:3]}')


# --- task assignment ---


def rpc(srv, rng, target, request, response):
  body = request.SerializeToString()
  hs = []
  if rng.random() < 0.3:
    body = gzip.compress(body)
    hs.append(('Content-Encoding', 'gzip'))
  hs.append(('Content-Length', str(len(body))))
  got = talk(srv, rng, 'POST', target + '?%24alt=proto', hs, body)
  if got.status != 200:
    return got.status, None
  return 200, response.FromString(got.body)


def q(s):
  return urllib.parse.quote(s, safe='')


def assignments():
  for i in range(R.n(640, 6000)):
    if R.mine(i):
      assignment_case(i)


class Tokens:
  """An aggregation service that only hands out tokens."""

  def __init__(self):
    self.given = {}
    self.n = 0

  def pre_authorize_clients(self, session_id, num_tokens):
    out = []
    for _ in range(num_tokens):
      self.n += 1
      t = f'token-{self.n}'
      self.given[t] = session_id
      out.append(t)
    return out


def assignment_case(i):
  rng = R.rng('assignments', i)
  R.case(i, 'assignments')
  population = rng.choice(['pop', 'a/b', 'p?x=1', 'größe', 'p p%'])
  forwarding = f'http://agg.example/{rng.randint(0, 99)}/'
  info = lambda: common_pb2.ForwardingInfo(target_uri_prefix=forwarding)
  tokens = Tokens()
  ts = task_assignments.Service(population, info, tokens)
  es = eligibility_eval_tasks.Service(population, info)
  handler = http_actions.create_handler(ts, es)
  handler.log_message = lambda *a: None
  srv = demo_env.Quiet(('127.0.0.1', 0), handler)
  threading.Thread(target=srv.serve_forever, args=(0.02,), daemon=True).start()
  tasks = []  # in the order in which they were added
  used = set()
  seen_sessions = set()
  log = []

  def v(key, detail):
    violation(key, f'{detail}; history {log[-10:]}')

  def judge(t, a, session):
    want = T.TaskAssignment(
        aggregation_data_forwarding_info=info(), aggregation_info=T.TaskAssignment.AggregationInfo(),
        session_id=session, aggregation_id=t['session'], authorization_token=a.authorization_token,
        task_name=t['name'], init_checkpoint=t['checkpoint'], plan=t['plan'],
        federated_select_uri_info=T.FederatedSelectUriInfo(uri_template=t['select']))
    if a != want:
      v('assignment', f'{a!s:.500} instead of {want!s:.500}')
    if tokens.given.get(a.authorization_token) != t['session'] or a.authorization_token in used:
      v('assignment-token', f'{a.authorization_token} for {t["session"]}')
    used.add(a.authorization_token)

  try:
    for step in range(R.n(30, 50)):
      R.eval()
      op = rng.choice(['add', 'add', 'remove', 'start', 'start', 'start', 'many', 'many', 'eligible',
                       'eligible', 'wrong', 'report', 'absent', 'badmode'])
      session = rng.choice(['s', 'x/y', 'ß']) + str(step)
      if op == 'add' and len(tasks) < 6:
        n = f'{step}'
        t = dict(name=rng.choice(['task/', 'z ', 'ü']) + n, mode=rng.choice([SINGLE, MULTIPLE]),
                 session='agg-' + n, plan=common_pb2.Resource(uri='http://p/' + n),
                 checkpoint=common_pb2.Resource(uri='http://c/' + n),
                 select='http://s/' + n + '/{served_at_id}_{key_base10}')
        ts.add_task(t['name'], t['mode'], t['session'], t['plan'], t['checkpoint'], t['select'])
        es.add_task(t['name'], t['mode'])
        tasks.append(t)
        log.append(('add', t['name'], t['mode']))
        count('tasks added')
      elif op == 'remove' and tasks:
        t = tasks.pop(rng.randrange(len(tasks)))
        ts.remove_task(t['session'])
        es.remove_task(t['name'])
        log.append(('remove', t['name']))
        count('tasks removed')
      elif op == 'absent':
        for fn in (ts.remove_task, es.remove_task):
          try:
            fn('no-such')
            v('remove-absent', 'removing a task that is not there was accepted')
          except KeyError:
            pass
      elif op == 'badmode':
        try:
          ts.add_task('bad', Mode.TASK_ASSIGNMENT_MODE_UNSPECIFIED, 'bad', common_pb2.Resource(),
                      common_pb2.Resource(), '')
          v('bad-mode', 'a task without a mode of assignment was accepted')
        except ValueError:
          pass
      elif op == 'start':
        log.append(('start', session))
        code, r = rpc(srv, rng, f'/v1/populations/{q(population)}/taskassignments/{q(session)}:start',
                      T.StartTaskAssignmentRequest(), operations_pb2.Operation())
        resp = T.StartTaskAssignmentResponse()
        if code != 200 or not r.done or not r.response.Unpack(resp):
          v('start', f'{code} {r}')
          continue
        single = [t for t in tasks if t['mode'] == SINGLE]
        if single:
          count('single assignments')
          R.saw(('single', len(single), single[0]['name'][:2]))
          if not resp.HasField('task_assignment'):
            v('start', f'{resp} although {single[0]["name"]} is waiting')
          else:
            judge(single[0], resp.task_assignment, session)
        else:
          count('rejections')
          if not resp.HasField('rejection_info'):
            v('start', f'{resp} without any task')
      elif op == 'many':
        have = [t['name'] for t in tasks]
        names = rng.sample(have + ['nothing', 'task/'], rng.randint(0, len(have) + 1))
        log.append(('many', names))
        code, r = rpc(srv, rng, f'/v1/populations/{q(population)}/taskassignments/{q(session)}:performmultiple',
                      T.PerformMultipleTaskAssignmentsRequest(task_names=names),
                      T.PerformMultipleTaskAssignmentsResponse())
        if code != 200:
          v('many', f'{code}')
          continue
        want = {t['name']: t for t in tasks if t['mode'] == MULTIPLE and t['name'] in names}
        got = [a.task_name for a in r.task_assignments]
        count('multiple assignments', len(got))
        R.saw(('many', len(names), len(want)))
        if sorted(got) != sorted(want):
          v('many', f'assigned {got}, asked for {names}, on offer {sorted(want)}')
        else:
          for a in r.task_assignments:
            judge(want[a.task_name], a, session)
      elif op == 'eligible':
        multi = rng.random() < 0.6
        req = E.EligibilityEvalTaskRequest()
        req.eligibility_eval_task_capabilities.supports_multiple_task_assignment = multi
        log.append(('eligible', multi))
        code, r = rpc(srv, rng, f'/v1/eligibilityevaltasks/{q(population)}:request', req,
                      E.EligibilityEvalTaskResponse())
        if code != 200:
          v('eligible', f'{code}')
          continue
        count('eligibility requests')
        if r.task_assignment_forwarding_info != info():
          v('eligible-forwarding', f'{r}')
        if not r.session_id or r.session_id in seen_sessions:
          v('session-id', f'{r.session_id!r}')
        seen_sessions.add(r.session_id)
        for w in (r.retry_window_if_accepted, r.retry_window_if_rejected):
          lo, hi = w.delay_min.ToMilliseconds(), w.delay_max.ToMilliseconds()
          if not 0 < lo <= hi:
            v('retry-window', f'{w}')
        if multi:
          spec = population_eligibility_spec_pb2.PopulationEligibilitySpec.FromString(
              r.eligibility_eval_task.population_eligibility_spec.inline_resource.data)
          got = sorted((t.task_name, t.task_assignment_mode) for t in spec.task_info)
          want = sorted((t['name'], t['mode']) for t in tasks)
          if not r.HasField('eligibility_eval_task') or got != want:
            v('eligible-tasks', f'{got} instead of {want}')
        elif not r.HasField('no_eligibility_eval_configured'):
          v('eligible', f'{r}')
      elif op == 'wrong':
        other = rng.choice([population + 'x', population[:-1] or 'y', 'other', population.upper()])
        if other == population:
          continue
        for target, req, res in (
            (f'/v1/populations/{q(other)}/taskassignments/{session[0]}:start', T.StartTaskAssignmentRequest(), operations_pb2.Operation()),
            (f'/v1/populations/{q(other)}/taskassignments/{session[0]}:performmultiple', T.PerformMultipleTaskAssignmentsRequest(), T.PerformMultipleTaskAssignmentsResponse()),
            (f'/v1/eligibilityevaltasks/{q(other)}:request', E.EligibilityEvalTaskRequest(), E.EligibilityEvalTaskResponse()),
            (f'/v1/populations/{q(other)}/taskassignments/{session[0]}:reportresult', T.ReportTaskResultRequest(), T.ReportTaskResultResponse()),
            (f'/v1/populations/{q(other)}/eligibilityevaltasks/{session[0]}:reportresult', E.ReportEligibilityEvalTaskResultRequest(), E.ReportEligibilityEvalTaskResultResponse()),
        ):
          # The body may name the right population; the path decides.
          req.population_name = population
          code, _ = rpc(srv, rng, q2(target), req, res)
          count('requests of another population')
          if code != 404:
            v('population', f'{target} answered {code}')
      elif op == 'report':
        log.append(('report',))
        code, _ = rpc(srv, rng, f'/v1/populations/{q(population)}/taskassignments/{q(session)}:reportresult',
                      T.ReportTaskResultRequest(computation_status_code=rng.choice([0, 0, 1, 13])),
                      T.ReportTaskResultResponse())
        code2, _ = rpc(srv, rng, f'/v1/populations/{q(population)}/eligibilityevaltasks/{q(session)}:reportresult',
                       E.ReportEligibilityEvalTaskResultRequest(status_code=rng.choice([0, 0, 1, 13])),
                       E.ReportEligibilityEvalTaskResultResponse())
        count('reports')
        if (code, code2) != (200, 200):
          v('report', f'{code} {code2}')
  finally:
    srv.shutdown()
    srv.server_close()


def q2(target):
  return ''.join(c if ord(c) < 128 else urllib.parse.quote(c) for c in target)


# --- whole computations ---


class Server(demo_server.InProcessServer):
  daemon_threads = True
  request_queue_size = 128

  def handle_error(self, request, address):
    self.trouble.append(repr(sys.exc_info()[1]))


def computations():
  for i in range(R.n(480, 5000)):
    if R.mine(i):
      computation_case(i)


class Task:
  pass


def computation_case(i):
  rng = R.rng('computations', i)
  R.case(i, 'computations')
  shaker = demo_env.Shaker(f'{R.seed}/c/{i}', FILES, p=0.05, longest=0.0004)
  Protocol.delay = staticmethod(shaker.pause)
  Protocol.made.clear()
  srv = Server(population_name='pop', host='127.0.0.1', port=0)
  srv.trouble = []
  srv.RequestHandlerClass.log_message = lambda *a: None
  tasks = []
  for k in range(rng.randint(1, 4)):
    t = Task()
    t.k, t.name = k, f'task{k}'
    t.mode = rng.choice([SINGLE, SINGLE, MULTIPLE])
    t.need = rng.randint(1, 4)
    t.cancel = rng.random() < 0.15
    t.acked, t.sent = {}, set()
    t.result = t.error = None
    t.done = threading.Event()
    t.names, t.urls = [], set()
    tasks.append(t)
  by_name = {t.name: t for t in tasks}
  lock = threading.Lock()
  stop = threading.Event()
  serial = [0]
  trouble = []
  launched = threading.Event()

  async def run(t):
    plan = make_plan(R.rng('computations', i, t.k))
    try:
      t.result = await srv.run_computation(t.name, plan, t.name.encode(), t.mode, t.need)
    except asyncio.CancelledError:
      t.error = 'cancelled'
    except BaseException as e:  # pylint: disable=broad-except
      t.error = repr(e)
    t.done.set()

  async def everything():
    jobs = []
    for t in tasks:
      jobs.append(asyncio.create_task(run(t)))
    await asyncio.sleep(0)
    for t, p in zip(tasks, Protocol.made):
      t.protocol = p
    launched.set()
    for t, j in zip(tasks, jobs):
      if t.cancel:
        await asyncio.sleep(0.01)
        j.cancel()
        count('computations cancelled')
    await asyncio.gather(*jobs)

  def client(c):
    crng = R.rng('computations', i, 'client', c)
    launched.wait(20)
    quit_at = time.time() + 60
    while not stop.is_set() and time.time() < quit_at:
      try:
        one(crng)
      except BaseException as e:  # pylint: disable=broad-except
        trouble.append(repr(e))
        return

  def fetch(url):
    path = urllib.parse.urlparse(url).path
    g = talk(srv, rng2, 'GET', path)
    return g.status, g.body

  rng2 = R.rng('computations', i, 'net')

  def one(crng):
    if crng.random() < 0.5:
      code, r = rpc(srv, crng, '/v1/populations/pop/taskassignments/s:start',
                    T.StartTaskAssignmentRequest(), operations_pb2.Operation())
      if code != 200:
        # The computation ended while the request was looked at.
        count('assignments lost to the end')
        return
      resp = T.StartTaskAssignmentResponse()
      r.response.Unpack(resp)
      if not resp.HasField('task_assignment'):
        time.sleep(0.001)
        return
      got = [resp.task_assignment]
      t = by_name[got[0].task_name]
      if t.mode != SINGLE:
        violation('mode', f'{t.name} was assigned singly')
      # Those before it have what they need, or are over.
      for e in tasks[:t.k]:
        if (e.mode == SINGLE and not e.cancel and
            e.protocol.GetStatus().num_inputs_aggregated_and_included < e.need and not e.done.is_set()):
          violation('order', f'{t.name} was assigned while {e.name} had too few inputs')
    else:
      req = E.EligibilityEvalTaskRequest()
      req.eligibility_eval_task_capabilities.supports_multiple_task_assignment = True
      code, r = rpc(srv, crng, '/v1/eligibilityevaltasks/pop:request', req, E.EligibilityEvalTaskResponse())
      if code != 200:
        violation('eligible', f'{code}')
        return
      spec = population_eligibility_spec_pb2.PopulationEligibilitySpec.FromString(
          r.eligibility_eval_task.population_eligibility_spec.inline_resource.data)
      names = [x.task_name for x in spec.task_info if x.task_assignment_mode == MULTIPLE]
      if not names:
        time.sleep(0.001)
        return
      code, r = rpc(srv, crng, '/v1/populations/pop/taskassignments/s:performmultiple',
                    T.PerformMultipleTaskAssignmentsRequest(task_names=names),
                    T.PerformMultipleTaskAssignmentsResponse())
      if code != 200:
        count('assignments lost to the end')
        return
      got = list(r.task_assignments)
      for a in got:
        if a.task_name not in names or by_name[a.task_name].mode != MULTIPLE:
          violation('mode', f'{a.task_name} was assigned among {names}')
    for a in got:
      count('assignments')
      t = by_name[a.task_name]
      over = t.done.is_set()
      select = a.federated_select_uri_info.uri_template
      key = crng.choice([0, 1, 9, 10, 11, 13])
      slice_url = select.replace('{served_at_id}', t.name + '_at').replace('{key_base10}', str(key))
      with lock:
        t.urls |= {a.plan.uri, a.init_checkpoint.uri, slice_url}
      ref = demo_env.PlanSession(None, t.name.encode())
      for url, want in ((a.plan.uri, ref.client_plan), (a.init_checkpoint.uri, ref.client_checkpoint),
                        (slice_url, ref.slices[t.name + '_at'][key])):
        code, body = fetch(url)
        if code == 200:
          if gzip.decompress(body) != want:
            violation('files', f'{url}: {body!r:.100}')
          if over:
            violation('files-kept', f'{url} is still there after the computation ended')
          count('files fetched')
        elif t.protocol.state == 'started' and not t.cancel:
          if not t.done.is_set() and code == 404 and len(t.protocol.inputs) < t.need:
            violation('files', f'{url} answered {code}')
      if crng.random() < 0.1:
        continue
      code, op = rpc(srv, crng, f'/v1/aggregations/{a.aggregation_id}/clients/{a.authorization_token}:startdataupload',
                     A.StartAggregationDataUploadRequest(), operations_pb2.Operation())
      if code != 200:
        continue
      r = A.StartAggregationDataUploadResponse()
      op.response.Unpack(r)
      with lock:
        serial[0] += 1
        data = b'ok:%s:%d' % (t.name.encode(), serial[0])
        t.sent.add(data)
        t.names.append(r.resource.resource_name)
      kind = crng.choice(['good'] * 6 + ['bad', 'abort', 'vanish', 'twice', 'cut'])
      body = b'bad' if kind == 'bad' else data
      hs = []
      if crng.random() < 0.5:
        body = gzip.compress(body)
        hs.append(('Content-Encoding', 'gzip'))
      hs.append(('Content-Length', str(len(body) + (kind == 'cut'))))
      up = talk(srv, crng, 'POST', f'/upload/v1/media/{r.resource.resource_name}?upload_protocol=raw',
                hs, body, len(body) if kind == 'cut' else None)
      if kind == 'vanish':
        continue
      tail = f'/v1/aggregations/{a.aggregation_id}/clients/{r.client_token}'
      if kind == 'abort':
        rpc(srv, crng, tail + ':abort', A.AbortAggregationRequest(), A.AbortAggregationResponse())
        continue
      for turn in range(2 if kind == 'twice' else 1):
        code, _ = rpc(srv, crng, tail + ':submit',
                      A.SubmitAggregationResultRequest(resource_name=r.resource.resource_name),
                      A.SubmitAggregationResultResponse())
        if code == 200:
          count('results accepted')
          if kind in ('bad', 'cut') or turn:
            violation('bad-submit', f'{kind} was accepted')
          with lock:
            t.acked[data] = 1

  thread = threading.Thread(target=srv.serve_forever, args=(0.02,), daemon=True)
  with shaker:
    thread.start()
    threads = [threading.Thread(target=client, args=(c,)) for c in range(4)]
    for t in threads:
      t.start()
    loop_errors = []

    def runner():
      asyncio.run(asyncio.wait_for(everything(), 60))

    main = threading.Thread(target=runner)
    main.start()
    main.join()
    stop.set()
    for t in threads:
      t.join(120)
      if t.is_alive():
        R.broken('a client did not end')
  for t in tasks:
    R.eval()
    R.saw((t.mode, t.need, t.cancel, t.error, len(t.acked)))
    p = t.protocol
    if t.error == 'cancelled' and t.cancel:
      if p.state != 'aborted':
        violation('cancel', f'the aggregation of a cancelled computation is {p.state}')
    elif t.error:
      violation('computation-failed', f'{t.name}: {t.error}; {p.clients} {p.state}')
    else:
      count('computations finished')
      want = b'final of ' + t.name.encode() + b':' + p.aggregate()
      if t.result != want:
        violation('result', f'{t.result!r:.200} instead of {want!r:.200}')
      got = set(p.inputs.values())
      if len(got) < t.need or len(got) != len(p.inputs):
        violation('too-few', f'{len(got)} inputs, {t.need} asked for')
      if got != set(t.acked):
        violation('acknowledged-lost', f'included {sorted(got)}, acknowledged {sorted(t.acked)}')
      if not got <= t.sent:
        violation('foreign-input', f'{sorted(got - t.sent)}')
      if i < 3:
        R.sample(f'{t.name} for {t.need} clients: {t.result!r:.150}')
    for u in sorted(t.urls):
      code, _ = fetch(u)
      count('files asked for after the end')
      if code != 404:
        violation('files-kept', f'{u} answered {code} after the end')
    for n in t.names:
      got = talk(srv, rng, 'POST', f'/upload/v1/media/{n}?upload_protocol=raw', [('Content-Length', '1')], b'x')
      count('uploads tried after the end')
      if got.status != 401:
        violation('upload-kept', f'an upload after the end answered {got.status}')
  code, r = rpc(srv, rng, '/v1/populations/pop/taskassignments/s:start',
                T.StartTaskAssignmentRequest(), operations_pb2.Operation())
  resp = T.StartTaskAssignmentResponse()
  if code != 200 or not r.response.Unpack(resp) or not resp.HasField('rejection_info'):
    violation('tasks-kept', f'a task is still assigned after the end: {code} {resp}')
  req = E.EligibilityEvalTaskRequest()
  req.eligibility_eval_task_capabilities.supports_multiple_task_assignment = True
  code, r = rpc(srv, rng, '/v1/eligibilityevaltasks/pop:request', req, E.EligibilityEvalTaskResponse())
  if code != 200 or r.eligibility_eval_task.population_eligibility_spec.inline_resource.data:
    violation('tasks-kept', f'tasks are still announced after the end: {code} {r}')
  if trouble:
    violation('client-trouble', f'{trouble[:3]} {srv.trouble[-3:]}')
  odd = [x for x in srv.trouble if not x.startswith(('KeyError', 'BrokenPipe', 'ConnectionReset'))]
  if odd:
    violation('server-trouble', f'{odd[:3]}')
  srv.shutdown()
  srv.server_close()


sys.setswitchinterval(1e-5)
{'sessions': sessions, 'assignments': assignments, 'computations': computations}[R.mode]()
R.finish()
