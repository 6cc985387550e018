"""Writes /verif/properties.jsonl (run by hand when the property list changes)."""
import json
import pathlib

P = []


def p(id, title, statement, over, text, why, files, mechanism, observe=None,
      state=None):
    assert len(title) <= 80, title
    anchors = {'files': [f if f.startswith('src_') else f'src_py/hat/event/{f}' for f in files],
               'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w}
                            for n, m, w in state]
    if observe:
        anchors['observe_at'] = observe
    anchors['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': anchors})


p('C01', 'Event type matching and subscription algebra are exact',
  "An event type matches a query type exactly when the segments correspond one to one, with '?' standing for exactly one segment and a final '*' for zero or more, and a subscription matches an event type exactly when at least one of the query types it was built from does. The union of subscriptions matches what any operand matches, the intersection matches what both match, two subscriptions are reported disjoint exactly when no event type matches both, and the query types a subscription lists describe the same set of event types, for any number and length of query types.",
  ['inputs', 'programs'],
  'all sets of query types (empty type, literals, ? at any position, * as last segment, mixtures), all event types, and all nestings of union/intersection',
  'Tests list a couple of dozen hand-picked pairs; the claim is over every combination of wildcards, including the empty type and a type that is both a leaf and a * prefix.',
  ['common/matches.py', 'common/subscription/common.py',
   'common/subscription/pysubscription.py'],
  [('matches_query_type', 'common/matches.py'),
   ('node tree construction, union, intersection, isdisjoint',
    'common/subscription/common.py, pysubscription.py')],
  ['create_subscription(...).matches/union/intersection/isdisjoint/get_query_types'])

p('C02', 'Event type collections return exactly the matching values',
  "After any sequence of adding values with subscriptions and removing values, looking up an event type yields exactly the values having at least one added, not yet removed, subscription that matches the event type, each of them once.",
  ['histories', 'inputs'],
  'all sequences of add/remove/get over values with overlapping wildcard subscriptions, including a value added repeatedly',
  'Tests add a handful of values with fixed types and never re-add or overlap subscriptions of one value.',
  ['common/collection/pytree.py', 'common/collection/pylist.py',
   'common/collection/common.py'],
  [('tree of nodes with values', 'common/collection/pytree.py'),
   ('value to subscription list', 'common/collection/pylist.py')],
  ['create_event_type_collection / EventTypeCollection.add/remove/get'])

p('C03', 'Timestamp arithmetic and conversions are exact and order preserving',
  "Converting a timestamp to bytes and back is lossless for the whole supported range and the byte form sorts in timestamp order; converting to and from datetime is lossless for every representable datetime including those before 1970, and to and from float seconds is accurate to the microsecond within float precision. Adding seconds gives a normalised timestamp equal to the arithmetic sum to the microsecond.",
  ['inputs'],
  'all timestamps (negative seconds, all microseconds, both ends of the range), all datetimes of years 1 to 9999 in any fixed offset, all float offsets of sane magnitude',
  'Tests use a few fixed timestamps; sign, rounding and carry errors live at values nobody listed.',
  ['common/encoder.py', 'common/common.py'],
  [('timestamp_to_bytes/from_bytes, to/from float, datetime, sbs',
    'common/encoder.py'), ('Timestamp.add', 'common/common.py')],
  ['hat.event.common.timestamp_* and Timestamp.add'])

p('C04', 'Every transferred structure survives its wire encoding unchanged',
  "Any event, register event, query parameter set, query result, server status and event id that the API can express is decoded from its serialised form equal to the original, including absent optional fields, empty collections, JSON payloads of any shape, binary payloads of any bytes, negative timestamps and non-ASCII type segments. The serialised form itself conforms to the published message schema.",
  ['inputs'],
  'all values of the exchanged data structures, encoded to the published SBS schema and decoded again (also through the binary message form)',
  'Tests round-trip a few examples; a field swapped or defaulted only for certain combinations of optional fields is not sampled.',
  ['common/encoder.py'],
  [('*_to_sbs / *_from_sbs', 'common/encoder.py'),
   ('HatEventer module', '../../../schemas_sbs/eventer.sbs')],
  ['hat.event.common.*_to_sbs/*_from_sbs, sbs_repo'])

p('C05', 'Natural event ordering is consistent with the documented definition',
  "Two events with the same id are never ordered before or after one another; events of one server are ordered by session and then instance regardless of their timestamps; events of different servers are ordered by timestamp, and when these are equal the event on the left is taken to be the earlier one.",
  ['inputs'],
  'all pairs of events over small domains of ids, timestamps and types (dense collisions)',
  'Tests check a few pairs; the order has six cases and ties that matter only in combination.',
  ['common/common.py'],
  [('Event.__lt__/__gt__', 'common/common.py')],
  ['comparison of Event values'])

p('C06', 'LMDB latest query returns the greatest event of every queried type',
  "A latest query returns, for each event type that is covered by the configured latest subscription and matches the queried types, exactly one event: the naturally greatest of the accepted registered events of that type; nothing else is returned. This holds immediately after registration, after flush and after the database is closed and reopened.",
  ['histories', 'configurations'],
  'all histories of registrations by several servers, flushes, reopens and latest queries with any event type filter, for any latest configuration',
  'Tests register a few events of one server and query once; timing of flush, several servers racing for one type, and wildcard versus exact query paths are not combined.',
  ['backends/lmdb/latestdb.py', 'backends/lmdb/backend.py'],
  [('in-memory map of latest events and change set',
    'backends/lmdb/latestdb.py')],
  ['Backend.register, Backend.query(QueryLatestParams)'])

p('C07', 'LMDB time series query returns exactly the filtered ordered events',
  "A time series query answers from the first configured partition with the requested ordering whose subscription can overlap the queried types, and returns exactly the accepted events of that partition that satisfy all time, source time and type filters, ordered by the chosen timestamp (ties in natural order of a server's events) in the chosen direction and cut at the result limit, with more_follows telling truthfully whether something was cut. The answer does not depend on whether the events have been flushed to disk, are still cached, or are being written at that moment.",
  ['histories', 'configurations', 'schedules'],
  'all histories of registrations (several servers, arbitrary source timestamps), flushes and queries with any parameter combination, for any partition configuration',
  'Tests register in timestamp order from one server and query after a fixed number of flushes; ordering and filtering of cached plus stored events depends on where the flush happened.',
  ['backends/lmdb/timeseriesdb.py', 'backends/lmdb/backend.py'],
  [('partition choice and query', 'backends/lmdb/timeseriesdb.py query'),
   ('merge of cached changes with stored events',
    'backends/lmdb/timeseriesdb.py')],
  ['Backend.query(QueryTimeseriesParams)'])

p('C08', 'Paging through a query returns every event exactly once',
  "Repeating a time series or server query with the last event id of the previous answer while more_follows is set visits exactly the events the unlimited query would return, in the same order, without repetition or omission, for any sequence of page sizes, and ends; this also holds over the network protocol and when flushes or retention-neutral writes happen between pages.",
  ['histories', 'inputs', 'schedules'],
  'all stored data sets, page sizes, query directions and orderings, with flushes between pages',
  'Tests page through one fixed data set at a single page size.',
  ['backends/lmdb/timeseriesdb.py', 'backends/lmdb/refdb.py',
   'backends/memory.py'],
  [('last_event_id sentinel filter', 'backends/lmdb/timeseriesdb.py _Filter'),
   ('range scan from last_event_id', 'backends/lmdb/refdb.py')],
  ['Backend.query with max_results and last_event_id'])

p('C09', 'LMDB server query lists one server\'s stored events in id order',
  "A server query returns the events of exactly the requested server that are still stored anywhere in the database (latest or time series), each once, strictly ascending by event id and after the given last event id; asked for persisted events only, it returns exactly those of them that have been written to disk, otherwise also those still cached. An event that was superseded as latest and is in no time series, or that was removed by retention, is not returned.",
  ['histories', 'configurations'],
  'all histories of registrations, flushes, retention and reopens (also with changed storage configuration), for any server, limit and last event id',
  'Tests look at short histories with a single configuration; stale references after supersession, cleanup or configuration change need longer ones.',
  ['backends/lmdb/refdb.py', 'backends/lmdb/backend.py',
   'backends/lmdb/latestdb.py'],
  [('event id to storage references', 'backends/lmdb/refdb.py')],
  ['Backend.query(QueryServerParams)'])

p('C10', 'LMDB registration accepts exactly the valid events',
  "An event is stored exactly when its id is greater than the last stored id of its server, its timestamp is not older than the last stored timestamp of its server, it satisfies the configured conditions and some configured storage covers it; registering the same or older events again therefore changes nothing. The reported last event id of a server is that of its most recently stored event (or session and instance zero), and survives flush and reopen.",
  ['histories', 'configurations'],
  'all sequences of batches of events from several servers with ids and timestamps going forward, repeated and backwards, with flush and reopen in between',
  'Tests submit one bad event at a time; interplay between servers, conditions, coverage and reopen is not sampled.',
  ['backends/lmdb/backend.py', 'backends/lmdb/systemdb.py'],
  [('register checks', 'backends/lmdb/backend.py register'),
   ('last event id / timestamp per server', 'backends/lmdb/systemdb.py')],
  ['Backend.register, Backend.get_last_event_id, queries'])

p('C11', 'Configured conditions filter events on registration and on query',
  "An event whose type is covered by a configured condition is stored and returned only if every such condition holds for its payload, where all/any combine, and a JSON condition holds exactly when the payload is JSON and the addressed value has the required type and value (a boolean is not a number). After reopening with different conditions, latest and time series queries return only events that satisfy the new ones.",
  ['inputs', 'configurations', 'histories'],
  'all nested conditions, subscriptions and payloads; condition changes across reopen',
  'Tests evaluate a few conditions; nesting, missing paths and type/value combinations multiply.',
  ['backends/lmdb/conditions.py', 'backends/lmdb/backend.py',
   'backends/lmdb/timeseriesdb.py', 'backends/lmdb/latestdb.py'],
  [('Conditions.matches', 'backends/lmdb/conditions.py')],
  ['Backend.register followed by queries'])

p('C12', 'LMDB reopen preserves everything flushed or cleanly closed',
  "Everything accepted before a flush completed, or before the backend was closed, is found again with identical content by every kind of query after reopening the database, and nothing else is found. Reopening with a changed storage configuration shows of the old data what the new configuration covers, never mixes events of different partitions and never loses the record of the last registered ids; opening with a wrong identifier is refused and leaves the database untouched and closed.",
  ['histories', 'configurations'],
  'all histories with several close/reopen cycles, payloads of every kind and sequences of configurations',
  'Tests reopen once with the same configuration and a few events.',
  ['backends/lmdb/backend.py', 'backends/lmdb/latestdb.py',
   'backends/lmdb/timeseriesdb.py', 'backends/lmdb/systemdb.py',
   'backends/lmdb/common.py'],
  [('flush transaction', 'backends/lmdb/backend.py _ext_flush'),
   ('partition id assignment', 'backends/lmdb/timeseriesdb.py'),
   ('settings validation', 'backends/lmdb/systemdb.py')],
  ['info.create on an existing database file, queries'])

p('C13', 'A crash or failed write never leaves the LMDB store half-written',
  "Whatever instant the process dies, power is lost or a write transaction fails, reopening the database finds a state in which every query agrees with one and the same prefix of the accepted registration batches (less what retention removed), with each batch entirely present or entirely absent, containing at least everything whose flush had been reported complete. Last event ids never run ahead of or behind the stored events, so synchronisation and id assignment resume exactly where the surviving prefix ends.",
  ['crash_points', 'fault_sequences', 'histories'],
  'every committed on-disk state reachable between two write transactions, and every single failing write transaction, for all histories of register/flush/cleanup/close',
  'Tests never kill the backend between writes nor let a transaction fail.',
  ['backends/lmdb/backend.py', 'backends/lmdb/environment.py'],
  [('single write transaction per flush', 'backends/lmdb/backend.py'),
   ('flush loop error handling', 'backends/lmdb/backend.py _flush_loop')],
  ['database file contents at every transaction boundary, reopened'])

p('C14', 'Time series retention removes exactly the oldest excess entries',
  "Cleanup removes entries of a partition only from its oldest end, only while an entry count, age or size limit is exceeded, and never below the configured minimum number of entries; once cleanup has caught up no limit is exceeded other than because of that minimum. Partitions without limits and the latest storage lose nothing, and removed events vanish from server queries unless they are still stored elsewhere.",
  ['histories', 'configurations'],
  'all histories of registrations, clock advances, flushes, reopens and cleanups for any combination of limits and partitions',
  'Tests set one limit at a time on one partition with a handful of events.',
  ['backends/lmdb/timeseriesdb.py', 'backends/lmdb/backend.py',
   'backends/lmdb/refdb.py'],
  [('cleanup of partition', 'backends/lmdb/timeseriesdb.py'),
   ('cleanup loop', 'backends/lmdb/backend.py'),
   ('reference cleanup', 'backends/lmdb/refdb.py')],
  ['queries after cleanup periods of virtual time'])

p('C15', 'Backend callbacks report each batch once, in order, and when durable',
  "For every registered batch the registered callback runs exactly once, before registration returns, and the flushed callback runs exactly once, in registration order and only when the batch is on disk; flush and close complete only after the flushed callbacks of everything registered before have run. Events are available to queries from the moment they are reported. Overlapping register, query, flush and close calls never lose, duplicate or reorder events, and calls on a closing backend are rejected rather than left waiting.",
  ['schedules', 'histories'],
  'all interleavings of concurrent register, query, flush, timer flush and close with any executor delays',
  'Tests run operations one at a time on a quiet event loop.',
  ['backends/lmdb/backend.py', 'backends/lmdb/environment.py'],
  [('flush loop and queues', 'backends/lmdb/backend.py'),
   ('single-thread executor', 'backends/lmdb/environment.py')],
  ['registered/flushed callbacks, futures of calls, database file at callback time'])

p('C16', 'Engine assigns gapless ids and one timestamp per session',
  "Every register request is one session: sessions are numbered consecutively after the last one stored, events of a session get instances 1, 2, 3 ... in creation order, the local server id and one common timestamp, and carry type, source timestamp and payload unchanged. Sessions are handed to the backend whole and in order, also across engine restarts, with a STARTED event in the first session of an engine and exactly one STOPPED event in its last; only sessions interrupted by a failure or by closing of the engine may leave their numbers unused.",
  ['histories', 'schedules', 'configurations'],
  'all sequences of concurrent register requests of any sources and modules over several engine lifetimes',
  'Tests check single sessions; consecutive numbering under concurrency, restarts and module-created events is not sampled.',
  ['server/engine.py', 'server/engine_runner.py'],
  [('session and event creation', 'server/engine.py'),
   ('register loop', 'server/engine.py')],
  ['batches passed to Backend.register'])

p('C17', 'Modules see every session and matching event exactly once, in order',
  "For each session every module gets session start, then each event of the session its subscription matches exactly once in order of creation with the source that produced it (including its own and other modules' events), then session stop; calls to modules never overlap. Events a module returns join the session after all existing ones, processing goes on until no module returns any, and module registrations outside processing form sessions of their own. The closing session with the STOPPED event is not processed by modules.",
  ['programs', 'histories', 'schedules'],
  'all sets of modules with terminating rewrite rules and subscriptions, synchronous or asynchronous, and all request sequences',
  'Tests use one or two fixed modules.',
  ['server/engine.py'],
  [('_process_sessions', 'server/engine.py')],
  ['calls received by modules'])

p('C18', 'Each engine registration gets its own answer, none hangs',
  "A successful registration returns exactly the events created for that request's register events, in request order and without module events, and an unsuccessful one returns no events or raises; an empty request returns an empty list. When the engine, a module or the backend fails or is closed, every waiting request is released, later requests are rejected, and all modules are closed.",
  ['schedules', 'fault_sequences', 'histories'],
  'all interleavings of concurrent requests, cancellations, module and backend failures and close',
  'Tests await one request at a time and close an idle engine.',
  ['server/engine.py'],
  [('register queue and futures', 'server/engine.py')],
  ['results of Engine.register'])

p('C19', 'Server status always follows the engine lifecycle',
  "Clients see status changes only along standby, starting, operational, stopping, standby (an interrupted start goes from starting directly to stopping); operational means registrations work, and no event is registered by the engine outside starting to stopping. A restart request or end of service brings the server through stopping (with everything flushed before standby is announced) and, for a restart, back to operational with a new engine, while a server whose peer is active stays in standby until the peer leaves.",
  ['histories', 'schedules', 'fault_sequences'],
  'all sequences of restart requests, engine/module failures, peer activity changes and close, at any moment of the cycle',
  'Tests follow one start/stop sequence with mocked parts.',
  ['server/engine_runner.py', 'server/eventer_server.py'],
  [('runner loop', 'server/engine_runner.py _run/_close'),
   ('set_status', 'server/eventer_server.py')],
  ['status notifications received by clients, backend contents'])

p('C20', 'Clients are notified of exactly the events they subscribed to, in order',
  "Each connected client receives every event that matches its subscriptions and optional server filter exactly once, in registration order, unchanged, with all of a session's events for it in one notification and no empty notifications: right after registration when it asked for that, or after the flush when it asked for persisted events. A notification with acknowledgement completes once every notified client has acknowledged or disconnected, and not before.",
  ['histories', 'schedules', 'inputs'],
  'all sets of clients and subscriptions, event streams, network chunking and delays, client disconnects and slow clients',
  'Tests use one client over loopback with immediate delivery.',
  ['eventer/server.py', 'eventer/client.py', 'server/eventer_server.py'],
  [('notify_events', 'eventer/server.py'),
   ('receive loop', 'eventer/client.py')],
  ['events_cb of clients, completion of notify_events'])

p('C21', 'Every request over a connection gets the answer meant for it',
  "Concurrent register and query requests of any number of clients each receive the response belonging to that request, equal to what the server-side handler returned (a failed registration as no result), also when some callers give up waiting; requests are handled in the order sent on each connection. If the connection is lost every outstanding and later call fails with a connection error instead of hanging, and the server stays available for others.",
  ['schedules', 'fault_sequences', 'histories'],
  'all interleavings of requests, cancellations, network delays and disconnects at any byte',
  'Tests issue one request at a time over loopback and never cut the connection mid-message.',
  ['eventer/client.py', 'eventer/server.py', 'eventer/common.py'],
  [('conversation futures', 'eventer/client.py'),
   ('connection loop', 'eventer/server.py')],
  ['results of Client.register/query'])

p('C22', 'Connections are admitted by token and reported exactly once each way',
  "A client without token, or with the server's token, is accepted and told the current status, and one with a different token is refused with an error; accepted clients are exactly the ones listed with their names while connected. While the engine is operational each accepted connection produces exactly one CONNECTED and, when it ends for whatever reason, one DISCONNECTED event under the client's name, and the ids identifying connections as event sources are never reused.",
  ['histories', 'schedules', 'fault_sequences', 'configurations'],
  'all sequences of connects with any names and tokens, orderly and abrupt disconnects, with or without an engine',
  'Tests connect one client with a right or wrong token.',
  ['server/eventer_server.py', 'eventer/server.py'],
  [('_on_connected/_on_disconnected', 'server/eventer_server.py'),
   ('init handshake', 'eventer/server.py')],
  ['connect results, registered events, get_client_names'])

p('C23', 'Synchronisation makes the local copy equal to the remote server\'s events',
  "A server that connects to a remote one ends up with exactly the remote server's persisted events, registered whole session by session in id order without gap or repetition, whatever was already present locally and whatever is registered and flushed remotely while synchronisation is running, and keeps following afterwards. If the connection breaks at any point, the events held locally are a prefix of the remote sequence at a session boundary and the next connection continues from there.",
  ['schedules', 'fault_sequences', 'histories'],
  'all remote histories, initial local prefixes, query page limits, network delays, disconnects and interleavings with remote activity',
  'Tests synchronise a fixed list of events with a quiet remote.',
  ['server/eventer_client.py', 'eventer/client.py'],
  [('_synchronize and cached notifications', 'server/eventer_client.py')],
  ['batches passed to the local Backend.register'])

p('C24', 'Synchronisation progress is reported by the documented synced events',
  "During each connection to a remote server, CONNECTED is reported first, SYNCING exactly when the first query returned at least one event, and SYNCED exactly once after all remote events were obtained with their exact number, both as events registered on the remote server and to the local callback. Each time the remote becomes operational later, the last state is registered there again, with a null count for SYNCED.",
  ['histories', 'schedules'],
  'all remote histories, page limits and remote status change sequences at any moment',
  'Tests check one synchronisation with a constant status.',
  ['server/eventer_client.py', 'server/engine_runner.py'],
  [('_set_synced/_on_status', 'server/eventer_client.py')],
  ['register requests received by the remote server, synced callback calls'])

p('C25', 'A server knows exactly which eligible peers exist and are active',
  "From every reported monitor state, connections are established to exactly the other servers of the same group whose data is valid and whose token equals the configured one if any, and are re-established after failures while the peer remains listed. The remote-active flag is set exactly while some connected peer reports a status other than standby, and every change of it is announced.",
  ['histories', 'schedules', 'fault_sequences', 'inputs'],
  'all sequences of monitor states (including malformed component data), peer status changes, peer crashes and unreachable peers',
  'Tests use one peer and one state change.',
  ['server/eventer_client_runner.py'],
  [('set_monitor_state, _client_loop, _set_client_status',
    'server/eventer_client_runner.py')],
  ['connections seen by peers, remote_active and its callbacks'])

p('C26', 'Administration requests read and replace the logging configuration',
  "Getting the logging configuration returns the one last set successfully (initially the configured one), setting applies and stores any JSON value the server-side handler accepts, and a failing handler is reported to exactly that caller as an error without changing anything or disturbing the connection. Concurrent and abandoned requests each get their own answer, and outstanding ones fail with a connection error when the connection is lost.",
  ['histories', 'schedules', 'fault_sequences', 'inputs'],
  'all sequences of get/set by several concurrent clients with failures, cancellations and disconnects',
  'Tests perform single requests in sequence.',
  ['adminer/client.py', 'adminer/server.py', 'server/adminer_server.py'],
  [('conversation futures', 'adminer/client.py'),
   ('request processing', 'adminer/server.py')],
  ['results of get_log_conf/set_log_conf'])

p('C27', 'A component always works with the currently active event server',
  "While the monitor designates an active event server with valid data and suitable token, the component keeps one connection to that server and one runner made for it, and none otherwise; a change of active server or loss of connection closes the runner and its client before the next runner is created, with reconnection for as long as that server stays active. Events, statuses, monitor states and close requests of the monitor are passed on with the client they belong to, and a runner that ends by itself closes the component.",
  ['histories', 'schedules', 'fault_sequences'],
  'all sequences of monitor states, server crashes, restarts and runner terminations at any moment',
  'Tests go through one change of the active server.',
  ['component.py'],
  [('_server_data_loop and _client_loop', 'component.py')],
  ['runner_cb calls, runner lifetimes, connections seen by servers'])

p('C28', 'The memory and dummy backends behave as their documentation says',
  "The memory backend keeps every registered event and answers last event id, latest, time series and server queries with all documented filters, ordering, paging and more_follows semantics over that list; the dummy backend stores nothing and answers with empty results. Both report every batch to the registered and the flushed callback exactly once per registration, the memory backend at the time when the events can already be queried.",
  ['histories', 'inputs'],
  'all event lists of several servers with and without source timestamps and all query parameters',
  'No test queries the memory backend at all.',
  ['backends/memory.py', 'backends/dummy.py'],
  [('query functions', 'backends/memory.py')],
  ['Backend methods'])

p('C29', 'Database tools copy, convert and print exactly what is stored',
  "Copying an LMDB database, optionally without some stores, gives a database in which every kept store has identical content; converting an older database version keeps all latest and time series events with their content, types, timestamps and payloads. The query tool prints exactly the stored settings, events, references, partitions and counts it is asked for.",
  ['inputs', 'histories', 'configurations'],
  'all database contents produced by any history, all tool option combinations, and all well-formed databases of older versions',
  'The tools have no tests beyond one conversion.',
  ['backends/lmdb/manager/copy.py', 'backends/lmdb/manager/query.py',
   'backends/lmdb/convert/main.py', 'backends/lmdb/convert/convert_v06_to_v07.py',
   'backends/lmdb/convert/convert_v07_to_v09.py'],
  [('copy', 'backends/lmdb/manager/copy.py'),
   ('query', 'backends/lmdb/manager/query.py'),
   ('convert', 'backends/lmdb/convert/main.py')],
  ['output files and printed lines of the command line tools'])

p('C30', 'The event manager command line does what its options say',
  "Each command of the event manager sends to the server exactly the request its options describe (event types, payload, source timestamp, query bounds, ordering, paging, server) and prints exactly the events the server answers or notifies, succeeding exactly when the server does.",
  ['inputs', 'programs'],
  'all option combinations of register, query and subscribe commands and all server answers',
  'The command line tool has no tests.',
  ['manager/main.py', 'manager/common.py'],
  [('argument parsing and commands', 'manager/main.py')],
  ['requests received by an eventer server, printed output, exit status'])

p('C31', 'One misbehaving peer never affects the service for others',
  "Whatever bytes, messages, message order or connection aborts a peer produces, the server keeps running, other connections keep getting correct answers and notifications, a peer that was not accepted has no effect on stored events, each valid request of any accepted peer is answered exactly once in its own conversation (a registration not asking for an answer gets none), and a client facing a misbehaving server ends with an error instead of hanging or delivering invalid data.",
  ['inputs', 'fault_sequences', 'schedules'],
  'all byte strings and message sequences at every stage of the protocol, from peers on both sides, for the eventer and the administration protocol',
  'Tests speak only well-formed protocol.',
  ['eventer/server.py', 'eventer/client.py', 'adminer/server.py',
   'adminer/client.py'],
  [('exception handling of connection loops', 'eventer/server.py, adminer/server.py')],
  ['behaviour of a well-behaved client next to the misbehaving one'])

p('C32', 'A complete server accepts, notifies, persists and restores end to end',
  "With a complete server process, every registration acknowledged to a client is notified to the subscribed clients and, where the configured storage covers it, is visible to queries from then on, notified as persisted after a flush, and present after an orderly stop and start with the same database, with ids continuing where they ended. A failure of any part of the server closes the whole server in an orderly way with all accepted events flushed; an orderly stop that takes time is announced to the connected clients as stopping.",
  ['histories', 'schedules', 'fault_sequences', 'configurations'],
  'all sequences of client activity, server stops, restarts and part failures for any backend configuration',
  'Tests start and stop the whole server with mocked or idle parts.',
  ['server/main_runner.py', 'server/eventer_server.py', 'server/engine_runner.py',
   'backends/lmdb/backend.py'],
  [('start/stop order', 'server/main_runner.py')],
  ['clients connected to the server, database after stop'])

p('C33', 'Of redundant servers at most one engine works, and all events survive',
  "With several redundant servers under one monitor, every event accepted by whichever server was active reaches every other server that stays connected, under its original id and without duplicates, and after a takeover clients of the new active server can query events accepted by the previous one. A standby server starts its engine only when designated by the monitor and when no connected peer is still starting, operational or stopping.",
  ['histories', 'schedules', 'fault_sequences'],
  'all sequences of designation changes, stops, restarts and client activity over two servers with any network delays',
  'Tests never run two complete servers.',
  ['server/main_runner.py', 'server/engine_runner.py',
   'server/eventer_client_runner.py', 'server/eventer_client.py'],
  [('wait while remote active', 'server/engine_runner.py'),
   ('synchronisation', 'server/eventer_client.py')],
  ['contents of all databases, statuses over time'])

p('C34', 'A server takes up, gives up and regains its designation correctly',
  "A server with monitor reports itself ready once started, runs an engine exactly while its designation is requested and confirmed by the monitor, and reports not ready only when a module asks for it: its engine is then stopped and it is ready again as soon as the monitor confirms the release, at the latest after 30 seconds. A close request or loss of the monitor ends the whole server within bounded time with modules closed and every event of the engine, including STOPPED, stored.",
  ['histories', 'schedules', 'fault_sequences'],
  'all sequences of designations, delayed confirmations, module requests and close requests at any moment',
  'Tests use stand-ins of the monitor and never let confirmations come late.',
  ['server/main_runner.py', 'server/engine_runner.py', 'server/engine.py'],
  [('reset of readiness', 'server/main_runner.py'),
   ('close request', 'server/main_runner.py')],
  ['reports received by the monitor, lifetimes of modules, stored events'])

p('C35', 'A server process starts exactly with valid configurations and applies them',
  "The event server process refuses a configuration that violates the server, backend or module schemas, or names something that is not a backend or module, before it opens its database or accepts connections; any valid one, in each supported file format, starts it. The running server has the configured addresses, token, identifier, backend, modules with their own configurations, and logging, and a termination signal ends it successfully with everything stored that a restart finds again.",
  ['inputs', 'histories'],
  'all configuration documents, valid or invalid at any level, and restarts with the same configuration',
  'Tests never start the process or validate configurations.',
  ['server/main.py', 'server/main_runner.py', 'common/backend.py',
   'common/module.py'],
  [('validation of configuration', 'server/main.py'),
   ('import of backends and modules', 'common/module.py')],
  ['exit codes of processes, existence of the database, answers of the running server'])

p('C36', 'Compiled subscriptions and collections are exact and memory safe',
  "The C implementations of event type subscriptions and collections, which the package prefers whenever they are available, decide matching, disjointness, set operations and lookups exactly as documented and as the Python implementations, also when operands of both kinds are mixed. Whatever sequence of creations, additions, removals, lookups and invalid arguments is used, they never access invalid memory, and everything they allocated or referenced is released with them.",
  ['inputs', 'histories'],
  'all query type sets and event types with arbitrary names, all add/remove/lookup histories, all invalid argument types',
  'Tests of the extensions list a few types and can not see memory errors.',
  ['src_c/py/subscription/_csubscription.c',
   'src_c/py/collection/_ctree.c',
   'common/subscription/csubscription.py', 'common/collection/ctree.py'],
  [('tree of nodes', 'src_c/py/subscription/_csubscription.c'),
   ('tree of values with references', 'src_c/py/collection/_ctree.c')],
  ['results of CSubscription and CTreeEventTypeCollection, reference counts, address sanitizer'])

p('C37', 'LMDB database files of version 0.9 are interchangeable between releases',
  "A database file of version 0.9 written by any release is shown by this one with exactly its content - latest events, time series of each configured partition, events of each server, last event ids and timestamps - whatever references of event types and partitions, order of references and JSON formatting it contains, and can be extended further. After each flush and clean closing the file contains, in the same layout (keys, encodings, names of databases, settings, partition definitions, references and counts of events), everything the backend holds and nothing else, so any other release of that version finds the same. A file of any other version is refused and left untouched and closed.",
  ['histories', 'inputs', 'configurations'],
  'all histories of registrations, flushes and reopening interleaved with replacing the file by an equivalent one of other writer, arbitrary event content',
  'Tests create and read files by the same code, so any symmetric change of the layout passes.',
  ['backends/lmdb/common.py', 'backends/lmdb/environment.py',
   'backends/lmdb/systemdb.py', 'backends/lmdb/latestdb.py',
   'backends/lmdb/timeseriesdb.py', 'backends/lmdb/refdb.py'],
  [('encodings of keys and values', 'backends/lmdb/common.py db_defs'),
   ('partition definitions', 'backends/lmdb/timeseriesdb.py _ext_init_partitions'),
   ('references', 'backends/lmdb/refdb.py')],
  ['content of the database file, queries after opening'])

out = pathlib.Path(__file__).parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(i, ensure_ascii=False) + '\n' for i in P))
print(len(P))
for i in P:
    n = i['statement'].count('. ') + 1
    assert n <= 3, (i['id'], n)
