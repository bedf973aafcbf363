"""What each check runs, and how its evidence is to be read."""

ASSUMPTIONS = [
    'the real code of /repo is compiled with the sanitizers named in the '
    'harness variant (asan: AddressSanitizer and UndefinedBehaviorSanitizer; '
    'tsan: ThreadSanitizer)',
    'libraries missing from the sandbox are replaced by the stand-ins in '
    '/verif/shims',
]

CHECKS = {}
# Properties this family cannot decide, with the reason.
NOT_APPLICABLE = {}


def check(prop, rule, runs, **kw):
  CHECKS[prop] = dict(rule=rule, runs=runs, **kw)


def asan(target, mode, shards=8, **kw):
  return dict(target=target, variant='asan', mode=mode, shards=shards, **kw)


def tsan(target, mode, shards=8, **kw):
  return dict(target=target, variant='tsan', mode=mode, shards=shards, **kw)


def py(target, mode, shards=4, **kw):
  return dict(target=target, variant='py', mode=mode, shards=shards, **kw)


check('C01',
      'an evaluation is a completed session whose released sum was compared '
      'with the reference sum; distinct counts session outcomes (graph kind, '
      'who was taken, who unmasked, who was out, final state)',
      [asan('h_secagg', 'sum')],
      must_observe=['sessions completed', 'silent dropouts', 'client aborts',
                    'server drops', 'dropouts after answering'])
check('C02',
      'an evaluation is one comparison of the server\'s own account with the '
      'reference account after a move; distinct counts session outcomes',
      [asan('h_secagg', 'progress')],
      must_observe=['sessions completed', 'sessions aborted',
                    'dropouts after answering'])

check('C03',
      'an evaluation is one message of the client opened and compared with '
      'what the protocol allows at that point; distinct counts rounds by '
      'neighbourhood, threshold and kind of request',
      [asan('h_secagg_adv', 'privacy')],
      must_observe=['secrets opened by collusion', 'masked inputs opened',
                    'unmasking responses judged', 'hostile requests'])
check('C04',
      'an evaluation is one call into the client judged by state, messages '
      'sent and status; distinct counts state transitions seen',
      [asan('h_secagg_adv', 'client')],
      must_observe=['client aborts', 'out-of-turn messages',
                    'bad inputs offered', 'ended aborted', 'ended completed'])
check('C05',
      'an evaluation is one hostile message judged, or one sum compared '
      'after hostile messages; distinct counts kinds of message by round',
      [asan('h_secagg_adv', 'server')],
      must_observe=['hostile messages', 'sums compared', 'nonsense calls',
                    'second messages'])
check('C06',
      'an evaluation is one sharing or reconstruction compared with '
      'independent field arithmetic; distinct counts (shares, threshold, '
      'shares present, length)',
      [asan('h_secagg_math', 'shamir')],
      must_observe=['secrets reconstructed', 'too few shares', 'legacy keys',
                    'coefficients looked at', 'shares of different sizes'])
check('C07',
      'an evaluation is one vector or map compared with a bit-by-bit '
      'reference; distinct counts (bit width, alignment, kind of modulus)',
      [asan('h_secagg_math', 'vector')],
      must_observe=['vectors of more than 32000 elements',
                    'foreign bytes read'])
check('C08',
      'an evaluation is one vector of masks from all three generators '
      'compared with an independent derivation; distinct counts (bit width, '
      'keys added and subtracted, kind of modulus, buffer refills)',
      [asan('h_secagg_math', 'masks')], must_observe=['elements compared',
                                                   'vectors of more than 65000 elements'])
check('C09',
      'an evaluation is one graph walked completely or one set of parameters '
      'judged by exact tail sums; distinct counts graphs and parameters',
      [asan('h_secagg_math', 'graph')],
      must_observe=['parameters judged', 'parameters refused',
                    'distinct graphs drawn', 'servers with a partial graph'])
check('C10',
      'an evaluation is one ciphertext, key agreement, key stream or session '
      'identifier compared with an independent computation; distinct counts '
      'plaintext sizes',
      [asan('h_secagg_math', 'crypto')],
      must_observe=['tampered ciphertexts', 'invalid points refused'])
check('C11',
      'an evaluation is one session run on thread pools and judged at its '
      'end; distinct counts sessions by size, graph, inputs taken and outcome',
      [tsan('h_secagg_mt', 'server', shards=4, timeout=120),
       asan('h_secagg_mt', 'server', shards=4, timeout=120),
       asan('h_secagg', 'callback')],
      must_observe=['callbacks of failed work', 'aborts while unmasking', 'aborts while collecting',
                    'sum compared', 'callbacks awaited',
                    'schedule perturbations'])
check('C12',
      'an evaluation is one task accounted for, or one meeting, wait or '
      'take-down of a pool; distinct counts workloads',
      [tsan('h_threads', 'pool', shards=4, timeout=120),
       asan('h_threads', 'pool', shards=4, timeout=120)],
      must_observe=['tasks run', 'tasks on workers', 'meetings of all threads',
                    'waits for held tasks', 'pools taken down', 'tasks waiting at once',
                    'schedule perturbations'])
check('C13',
      'an evaluation is one future taken and judged; distinct counts mixes '
      'of givers and takers',
      [tsan('h_threads', 'future', shards=4, timeout=120),
       asan('h_threads', 'future', shards=4, timeout=120)],
      must_observe=['values taken', 'abandoned promises seen',
                    'waits that ran out', 'promises replaced', 'schedule perturbations'])
check('C14',
      'an evaluation is one step or wake-up compared with the model; '
      'distinct counts histories',
      [tsan('h_threads', 'clock', shards=4, timeout=120),
       asan('h_threads', 'clock', shards=4, timeout=120)],
      must_observe=['steps that woke somebody', 'wake-ups by the real clock',
                    'wake-ups with threads', 'sleeps', 'times set back',
                    'steps from several threads',
                    'waiters registered twice',
                    'schedule perturbations'])
check('C15',
      'an evaluation is one session in which a client is stopped by another '
      'thread; distinct counts moments by messages sent and final state',
      [tsan('h_secagg_mt', 'client', shards=4, timeout=120),
       asan('h_secagg_mt', 'client', shards=4, timeout=120)],
      must_observe=['clients stopped', 'clients stopped in the middle',
                    'clients stopped while masking',
                    'sums compared', 'schedule perturbations'])
check('C16',
      'an evaluation is one compression or expansion compared with zlib; '
      'distinct counts kinds and sizes of input',
      [asan('h_base', 'compress')],
      must_observe=['round trips', 'foreign', 'cut short', 'two members', 'large contents'])
check('C17',
      'an evaluation is one conversion compared with exact integer '
      'arithmetic; distinct counts magnitudes and signs',
      [asan('h_base', 'time')],
      must_observe=['times before the epoch', 'negative durations'])
check('C18',
      'an evaluation is one reading of a stopwatch compared with the bounds '
      'the start and stop calls allow; distinct counts nestings',
      [tsan('h_base', 'stopwatch', shards=4), asan('h_base', 'stopwatch', shards=4)],
      must_observe=['overlapping uses', 'inactive stopwatches'])
check('C19',
      'an evaluation is one file operation compared with what is on disk; '
      'distinct counts operations by outcome',
      [asan('h_base', 'files')],
      must_observe=['files written and read', 'writes to a full device', 'writes cut short',
                    'temporary files', 'clean-ups that fail', 'paths joined',
                    'odd names left behind', 'stores with many files'])
check('C20',
      'an evaluation is one traced event, begin or end of a span found in '
      'the logs and judged; distinct counts workloads',
      [tsan('h_tracing', 'global', shards=2), tsan('h_tracing', 'local', shards=2),
       asan('h_tracing', 'global', shards=2), asan('h_tracing', 'local', shards=2)],
      must_observe=['lines compared', 'events on spans of others',
                    'spans below spans of others', 'recorders given up in use',
                    'recorders installed again', 'schedule perturbations'])
check('C21',
      'an evaluation is one table of a generated schema asked about through '
      'its compiled traits, one of its buffers shown as text, or one faulty '
      'schema judged; distinct counts shapes of tables and kinds of fault',
      [py('codegen', '', shards=8)],
      builds={'asan': ['tracing_traits_generator', 'fcp_tracing', 'fcp_base']},
      must_observe=['schemas compiled', 'tables asked', 'tables with a severity',
                    'tables in a namespace', 'tables shown as json',
                    'faulty schemas'])
check('C22',
      'an evaluation is one lookup, put or opening of the cache judged '
      'against the model; distinct counts histories',
      [asan('h_cache', 'history'), tsan('h_cache', 'threads', shards=4),
       asan('h_cache', 'threads', shards=2)],
      must_observe=['hits', 'misses', 'resources overwritten', 'expired',
                    'evicted', 'expiry times renewed', 'cache opened again',
                    'files deleted from outside', 'stray files',
                    'oversized resources', 'gets beside puts',
                    'schedule perturbations'])
check('C23',
      'an evaluation is one lookup after the process was stopped, or a '
      'change of the file system failed, at a chosen point; distinct counts '
      'points by workload',
      [asan('h_crash', 'cache-crash'), asan('h_crash', 'cache-fault')],
      must_observe=['stopped', 'failed change', 'found after crash',
                    'found after fault', 'opened at the second attempt',
                    'operations that reported the failure'])
check('C24',
      'an evaluation is one reading of the database compared with the model, '
      'or one attempt to open it; distinct counts histories',
      [asan('h_opstats', 'db'), tsan('h_opstats', 'db-threads', shards=4),
       asan('h_opstats', 'db-threads', shards=2)],
      must_observe=['damaged files', 'opened again', 'runs dropped for room',
                    'runs past their time', 'runs rewritten', 'second openers',
                    'second openers in another process', 'races to open',
                    'changes by several threads', 'schedule perturbations'])
check('C25',
      'an evaluation is one stored record compared with the calls that made '
      'it; distinct counts sequences of calls',
      [asan('h_opstats', 'logger'), tsan('h_opstats', 'logger-threads', shards=4),
       asan('h_opstats', 'logger-threads', shards=2)],
      must_observe=['commits', 'commits that fail', 'dataset reads recorded',
                    'errors recorded', 'network use recorded', 'phases started',
                    'runs', 'runs with threads', 'schedule perturbations'])
check('C26',
      'an evaluation is one answer about the stored runs, or one example made '
      'of them, compared with a reference; distinct counts contents of the store',
      [asan('h_opstats', 'query')],
      must_observe=['contributions found', 'no contribution', 'examples compared',
                    'policy indices found', 'runs selected by time'])
check('C27',
      'an evaluation is the state after one line of a response; distinct '
      'counts sequences of responses',
      [asan('h_wire', 'headers')],
      must_observe=['final responses', 'headers hidden', 'headers kept',
                    'provisional responses', 'redirects',
                    'responses followed though final'])
check('C28',
      'an evaluation is one time or window drawn; distinct counts requested '
      'ranges',
      [asan('h_wire', 'retry')],
      must_observe=['spreads judged', 'times ahead', 'times past',
                    'times drawn', 'windows from a target'])
check('C29',
      'an evaluation is one payload decoded, or encoded, by both the code and '
      'a reference; distinct counts payloads before they were damaged',
      [asan('h_wire', 'payload')],
      must_observe=['payloads accepted', 'payloads refused'])
check('C30',
      'an evaluation is one code, address or header compared with a '
      'reference; distinct counts addresses',
      [asan('h_http', 'uri')],
      must_observe=['addresses encoded', 'addresses refused', 'headers found',
                    'headers missing'])
check('C31',
      'an evaluation is one request made, or one side of an exchange compared '
      'with its script; distinct counts shapes of batches',
      [asan('h_http', 'request'), tsan('h_http', 'request', shards=4)],
      must_observe=['failed as a whole', 'failures reported', 'interrupted',
                    'requests refused', 'responses compared',
                    'responses refused', 'schedule perturbations'])
check('C32',
      'an evaluation is one resource or batch compared with what was served; '
      'distinct counts shapes of batches',
      [asan('h_http', 'fetch')],
      must_observe=['fetched compressed', 'fetched plain', 'from the cache',
                    'inline compressed', 'inline plain', 'resources that fail'])
check('C33',
      'an evaluation is one request, or one operation polled to its end, '
      'compared with its script; distinct counts lengths and ends',
      [asan('h_http', 'operations')],
      must_observe=['operations that fail', 'polls', 'requests created'])
check('C34',
      'an evaluation is one aspect of an exchange with the loopback server; '
      'distinct counts batches of requests',
      [asan('h_curl', 'client', timeout=300),
       asan('h_curl', 'client-threads', shards=2, timeout=300),
       tsan('h_curl', 'client-threads', shards=4, timeout=300)],
      must_observe=['bodies that cannot be read', 'broken responses',
                    'cancelled at some time', 'cancelled beforehand',
                    'cancelled in a callback', 'cancelled while waiting',
                    'refused by the callback', 'requests seen by the server',
                    'traffic judged', 'unsupported methods',
                    'whole responses'])
check('C35',
      'an evaluation is one specification evaluated, or the weight of one of '
      'its tasks; distinct counts kinds of policies and numbers of tasks',
      [asan('h_client', 'eligibility')],
      must_observe=['policies not implemented', 'policy errors reported',
                    'tasks eligible', 'tasks not eligible'])
check('C36',
      'an evaluation is one report, its announcement and its record; distinct '
      'counts sequences of reports',
      [asan('h_client', 'phases')],
      must_observe=['errors reported', 'runs', 'uploads recorded',
                    'uploads that could not be recorded'])
check('C37',
      'an evaluation is the result, or the diagnosis, of one piece of work; '
      'distinct counts runners',
      [asan('h_client', 'runner', shards=4),
       tsan('h_client', 'runner-threads', shards=4)],
      must_observe=['aborted', 'aborted late', 'endless work', 'finished',
                    'schedule perturbations', 'stopped beforehand'])
check('C38',
      'an evaluation is one request seen by the server, or one outcome '
      'compared with what the server said; distinct counts courses of sessions',
      [asan('h_protocol', 'checkin', shards=2)],
      must_observe=['assignments', 'check-ins that succeed',
                    'eligibility errors', 'eligibility tasks', 'failed calls',
                    'operations abandoned', 'rejections', 'requests judged',
                    'sessions interrupted'])
check('C39',
      'an evaluation is one request seen by the server, or one outcome '
      'compared with what the server said; distinct counts courses of sessions',
      [asan('h_protocol', 'upload', shards=2)],
      must_observe=['aborts', 'confidential uploads', 'failures reported',
                    'plain uploads', 'requests judged', 'sessions interrupted',
                    'untrusted configurations', 'unusable results'])
check('C40',
      'an evaluation is one window asked for after some step of a session; '
      'distinct counts courses of sessions',
      [asan('h_protocol', 'windows', shards=2)],
      must_observe=['accepted windows', 'permanent windows',
                    'windows judged'])
check('C41',
      'an evaluation is one request seen by the server, or one outcome '
      'compared with what the server said; distinct counts courses of sessions',
      [asan('h_protocol', 'secure', shards=2)],
      must_observe=['requests judged', 'secure rounds', 'secure uploads',
                    'sessions interrupted'])
check('C42',
      'an evaluation is one key or token written, read or damaged; distinct '
      'counts the random draws',
      [asan('h_cc', 'cose', shards=4)],
      must_observe=['keys', 'tokens of wrong shape',
                    'tokens with many signatures', 'tokens with one signature'])
check('C43',
      'an evaluation is one recipient with the messages for it; distinct '
      'counts the random draws',
      [asan('h_cc', 'messages', shards=6), tsan('h_cc', 'shared', shards=2)],
      must_observe=['changed messages', 'messages', 'odd recipients',
                    'odd symmetric keys', 'shared sessions'])
check('C44',
      'an evaluation is one pair of keys with its signatures; distinct counts '
      'the random draws',
      [asan('h_cc', 'signatures', shards=4)],
      must_observe=['bad signatures', 'signatures', 'signatures with padding'])
check('C45',
      'an evaluation is one session with all its blobs; distinct counts the '
      'random draws',
      [asan('h_cc', 'nonces', shards=4)],
      must_observe=['long sessions', 'right nonces', 'unencrypted',
                    'wrong nonces'])
check('C46',
      'an evaluation is one configuration put before the verifiers; distinct '
      'counts the random draws',
      [asan('h_cc', 'attestation', shards=4)],
      must_observe=['accepted'] + [f'refused {k}' for k in range(1, 17)])
check('C47',
      'an evaluation is one log written and read; distinct counts the random '
      'draws',
      [asan('h_cc', 'records', shards=4)],
      must_observe=['records found', 'records in old form', 'records logged',
                    'records lost', 'records of whole lines',
                    'records written'])
check('C48',
      'an evaluation is one HTTP request judged against the text of the '
      'declared patterns; distinct counts (method, pattern, twist, fault, '
      'status, number of matches)',
      [py('demo_http', 'routing', shards=8)],
      must_observe=['actions refused when declared', 'bodies cut off',
                    'bodies of several gzip members', 'gzip bodies accepted',
                    'gzip streams cut off', 'requests for nothing',
                    'requests with a fault in the body',
                    'requests with escaped text'])
check('C49',
      'an evaluation is one operation of a history judged against the model, '
      'or one race over the same names; distinct counts kinds of operations '
      'and outcomes',
      [py('demo_http', 'media', shards=4), py('demo_http', 'races', shards=4)],
      must_observe=['downloads', 'downloads after closing',
                    'downloads refused', 'groups closed by an error',
                    'groups closed in the middle', 'names much like others',
                    'names taken already',
                    'races', 'uploads cut off', 'uploads late',
                    'uploads never made', 'uploads raced', 'uploads stranger',
                    'uploads taken', 'uploads twice'])
check('C50',
      'an evaluation is one aggregation session with all its clients; distinct '
      'counts (minimum, clients, way and time of the end, accepted results, '
      'final state)',
      [py('demo_server', 'sessions', shards=8)],
      must_observe=['calls after the end', 'clients: abort',
                    'clients: double-start', 'clients: good',
                    'clients: invalid', 'clients: no-upload',
                    'clients: stranger', 'clients: thief', 'clients: twice',
                    'clients: vanish', 'clients: wrong-name',
                    'results released', 'sessions aborted',
                    'sessions without a result',
                    'waits fulfilled before the end',
                    'uploads refused after the end', 'waits'])
check('C51',
      'an evaluation is one step of a history judged against the model; '
      'distinct counts sizes of queues and requests',
      [py('demo_server', 'assignments', shards=4)],
      must_observe=['eligibility requests', 'multiple assignments', 'rejections',
                    'reports', 'requests of another population',
                    'single assignments', 'tasks added', 'tasks removed'])
check('C52',
      'an evaluation is one computation with all its clients; distinct counts '
      '(mode, number of clients asked for, end, accepted results)',
      [py('demo_server', 'computations', shards=8)],
      must_observe=['assignments', 'computations cancelled',
                    'computations finished', 'files asked for after the end',
                    'files fetched', 'results accepted',
                    'uploads tried after the end'])
RUN_SEEN = ['contexts', 'contributions', 'eligibility-contexts', 'full-disks',
            'outcome-1', 'outcome-2', 'outcome-3', 'queries-failed',
            'recordings', 'results-reported', 'runs', 'tasks-not-run',
            'tasks-run', 'tokens']
for pid, mode in (('C53', 'runs'), ('C54', 'contexts'), ('C55', 'queries'),
                  ('C56', 'history')):
  check(pid,
        'an evaluation is a history of one to three runs of the client; '
        'distinct counts (conditions, eligibility, requests, tasks due, tasks '
        'contributed, outcome)',
        [asan('h_runner', mode, shards=8)], must_observe=RUN_SEEN)
check('C57',
      'an evaluation is up to three queries for slices, opened together and '
      'read in turns; distinct counts (queries, slice, full disk)',
      [asan('h_data', 'slices', shards=4), tsan('h_data', 'slices', shards=4)],
      must_observe=['queries', 'queries served', 'slices', 'ends',
                    'full disks'])
check('C58',
      'an evaluation is one set of collections read by several threads, or one '
      'set of registrations; distinct counts their sizes',
      [asan('h_data', 'datasets', shards=2), tsan('h_data', 'datasets', shards=4),
       asan('h_data', 'registry', shards=2), tsan('h_data', 'registry', shards=4)],
      must_observe=['examples', 'failing data', 'lookups', 'registrations'])
check('C59',
      'an evaluation is one description and all look-ups in it; distinct counts '
      '(tokens, special ids, filtered ids)',
      [asan('h_util', 'dictionary', shards=4)],
      must_observe=['dictionaries', 'ids of no token', 'senseless descriptions',
                    'unknown tokens'])
check('C60',
      'an evaluation is one digest or token; distinct counts (size, chunks) of '
      'digested data',
      [asan('h_util', 'tokens', shards=4), tsan('h_util', 'tokens', shards=4)],
      must_observe=['digests', 'forms', 'names', 'numbers', 'tokens'])
check('C61',
      'an evaluation is a history of holders, a chain of steps and a round of '
      'expectations and matches; distinct counts (calls, errors)',
      [asan('h_util', 'values', shards=4)],
      must_observe=['chains with a value', 'chains with an error',
                    'errors traced', 'expectations', 'lambdas copied', 'matches',
                    'processes stopped', 'steps with values'])
check('C62',
      'an evaluation is one cast or span; distinct counts (inside, size of the '
      'space)',
      [asan('h_util', 'bounds', shards=4)],
      must_observe=['casts that do not fit', 'casts that fit',
                    'processes stopped', 'spans inside', 'spans outside'])
check('C63',
      'an evaluation is one status and one function of several steps; distinct '
      'counts (code, steps evaluated, steps)',
      [asan('h_util', 'statuses', shards=4)],
      must_observe=['processes stopped', 'statuses'])
check('C64',
      'an evaluation is one set of threads calling one guarded method; distinct '
      'counts (calls let in, calls refused)',
      [asan('h_util', 'guards', shards=2), tsan('h_util', 'guards', shards=4)],
      must_observe=['guarded calls', 'guarded calls refused'])
check('C65',
      'an evaluation is one local computation, with the history it leaves; '
      'distinct counts (kind of plan, queries, resources, outcome)',
      [asan('h_local', 'computations', shards=4)],
      must_observe=['examples read', 'runs without a history',
                    'runs: ComputationCompleted',
                    'runs: ComputationExampleIteratorError',
                    'runs: ComputationIOError', 'runs: ComputationInterrupted',
                    'runs: ComputationInvalidArgument',
                    'runs: ComputationTensorflowError', 'runs: TaskNotStarted'])
