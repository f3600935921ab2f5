import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
S='teleprox/server.py';C='teleprox/client.py';X='teleprox/proxy.py';Z='teleprox/serializer.py';R='teleprox/process.py'
L='teleprox/log/remote.py';H='teleprox/log/handler.py';IO='teleprox/log/stdio.py';T='teleprox/timer.py';M='teleprox/shmem.py';UT='teleprox/util.py'
p('C01','A reply completes exactly the request it answers',
  'Every request that wants a reply gets an id its client has never used before, and an incoming reply completes only the still-pending request with that id, at most once: with exactly the returned value, or, for an error reply, with RemoteCallException carrying the remote exception type name and traceback text. Replies that match no pending request (late, duplicate, unknown id) change nothing. Other pending requests and their outcomes are never affected by a reply that is not theirs.',
  ['histories','inputs'],'all sequences of requests (sync, async, no-reply) and of incoming replies in any order, with duplicates, late and unknown ids, any value or error payload',
  'test_rpc completes two async requests out of order; it never sees duplicates, late replies after a timeout interleaved with new requests, or unknown ids.',
  [C],[('id allocation and future registration','RPCClient.send'),('reply dispatch','RPCClient.process_msg'),('result delivery','Future.result')],
  [('futures','pending requests by id','RPCClient.futures'),('next_request_id','id counter','RPCClient.next_request_id')],['Future.result','Future.done'])
p('C02','Exactly one reply per request, whatever the request does',
  'For every well-formed request the server sends its caller exactly one reply carrying the request id: the outcome of the requested action, or an error naming the exception type with its traceback when decoding, executing, or sending the result of the request fails; a request that asked for no reply gets none. A request using an unsupported serializer, an invalid action, or an action that raises anything never stops the server from handling later requests. Only a close request closes the server socket, and it does so after the reply has been sent.',
  ['inputs','fault_sequences'],'all actions, options, return types, serializer names, request ids, and all outcomes (return or any exception) of decoding, executing and encoding',
  'the tests exercise a handful of failing calls; they never make encoding of the result fail, use an unknown serializer, raise from decoding, or check that no-reply requests stay silent.',
  [S],[('dispatch and reply','RPCServer._process_one'),('error formatting','RPCServer._send_error'),('reply encoding','RPCServer._send_result'),('request parsing','RPCServer._read_one')],
  [('_clients','callers seen and their serializer','RPCServer._clients')],['server socket traffic'])
p('C03','Remote references keep an object alive exactly as long as needed',
  'Every proxy a server hands out is a separate reference to its object, identified by an object id and a reference id that no other reference of that server ever carries. The server keeps the object until every reference handed out for it has been deleted and releases it as soon as the last one is; deleting one reference never affects other references or other objects. Using a reference after it was deleted fails with an error, and deriving attribute proxies from a proxy, or discarding those derived proxies, never releases the reference.',
  ['histories'],'all interleaved sequences of handing out, using, deleting and re-handing-out proxies for any set of objects, including reuse of memory addresses',
  'test_rpc creates and deletes one object once; it never holds two references at once across deletions, re-exports a released object or uses attributes of an auto-deleting proxy.',
  [S,X,C],[('reference creation','RPCServer.get_proxy'),('release','RPCServer.process_action delete'),('lookup','RPCServer.unwrap_proxy'),('client-side release','RPCClient.delete, ObjectProxy._delete, ObjectProxy.__del__')],
  [('_proxy_refs','object and outstanding reference ids per object id','RPCServer._proxy_refs'),('_proxy_id_map','live python id to object id','RPCServer._proxy_id_map')],['proxy ids','object lifetime'])
p('C04','A proxy always denotes the same object',
  'Proxies handed out for one live object share one object id and proxies of different objects never share one, even after objects were released and memory reused. A proxy that reaches its owning server is replaced by the very object it denotes (identity, not a copy), with its attribute path looked up one attribute after the other in order; a proxy that reaches any other node stays a proxy with the same address, object id, reference id and attribute path. A proxy whose object was released yields an error, never another object.',
  ['histories','inputs'],'all histories of exports and deletions, all proxies and attribute paths of any length, all receiving nodes',
  'tests pass one proxy between two servers and resolve paths of length two.',
  [S,Z,X],[('object ids','RPCServer._get_object_id'),('resolution','RPCServer.unwrap_proxy'),('wire form','ObjectProxy.__getstate__, Serializer.encode, Serializer.decode')],
  [('_proxy_id_map','python id to object id','RPCServer._proxy_id_map')],['unwrap result','decoded proxy'])
p('C05','Results travel by value or by proxy as requested',
  "With return type 'auto' a result is sent by value if its type is one of the server's serializable types and by proxy otherwise; with 'proxy' it is always sent as a new proxy to that very result. With 'value' it is handed to the serializer unchanged. Anywhere in the lists, tuples and dicts of a message, an object outside the sender's serializable types (which include the basic Python types and proxies) is replaced by a proxy made by the sender's server, or rejected with TypeError when the sender has no server.",
  ['inputs','configurations'],'all results and arguments of any type, every configured set of serializable types, all return types, senders with and without a server',
  'the tests check a few built-in types with the default configuration.',
  [S,Z],[('auto proxy','RPCServer.auto_proxy'),('return type handling','RPCServer._process_one'),('encode hook','Serializer.encode')],[],['reply payload'])
p('C06','msgpack transport preserves values',
  'A value built from None, booleans, integers, floats, text, bytes, lists, tuples, dicts (keys text, bytes or integers, the reserved type marker aside), datetimes with or without time zone, dates, plain and structured numpy arrays without object fields, numpy booleans, integers and floats of at most 64 bits and numpy dtypes decodes to an equal value of the same type (arrays: same dtype, shape and contents) after encoding with the default serializer. Nesting, memory layout and emptiness do not matter. Numbers that cannot be represented raise an error at one of the two ends rather than arriving changed.',
  ['inputs'],'all values of the listed types, all nestings, any array shape, byte order and memory layout',
  'test_serializer checks one sample per type.',
  [Z],[('encode hook','Serializer.encode'),('decode hook','Serializer.decode'),('packing','MsgpackSerializer.dumps, loads')],[],['loads(dumps(x))'])
p('C07','JSON transport preserves values',
  'With the JSON serializer a value built from None, booleans, integers, floats, text, bytes, lists, dicts with text keys (the reserved type marker aside), datetimes with or without time zone, dates, numpy arrays (plain or structured, of types that expose a buffer), numpy booleans and integers, float16/float32 scalars and numpy dtypes decodes to an equal value of the same type after encoding. Tuples arrive as lists of the same items. Nesting, memory layout and emptiness do not matter.',
  ['inputs'],'all values of the listed types, all nestings, any array shape, byte order and memory layout',
  'test_serializer checks one sample per type.',
  [Z],[('encode hook','JsonSerializer.encode'),('decode hook','JsonSerializer.decode'),('text conversion','JsonSerializer.dumps, loads')],[],['loads(dumps(x))'])
p('C08','Operators on a proxy run the same operator on the remote object',
  'Every arithmetic, bitwise or in-place operator, comparison, item get or set, or length that proxies define calls, when applied to a proxy, exactly the corresponding special method of the remote object, with the same operands in the same order, and yields what that call returns; reflected operators call the reflected special method. Setting an attribute on a proxy sets that attribute on the remote object and never changes the proxy itself.',
  ['inputs'],'all special methods a proxy defines, all operands',
  'tests use item access, len and == only.',
  [X],[('special methods','ObjectProxy.__getitem__ .. ObjectProxy.__rmod__'),('remote setattr','ObjectProxy.__setattr__')],[],['remote call issued'])
p('C09','Attribute proxies address the right attribute and keep their settings',
  'Taking an attribute of a proxy yields, without contacting the server unless immediate lookup was requested, a proxy to the same remote object and reference whose attribute path is extended by exactly that name; it starts with the same option values but changing options of one proxy never changes another, and it keeps its parent alive. Copying a proxy for another thread yields a proxy to the same object, path and options, without contacting the server. Setting an unknown option raises KeyError and changes no option.',
  ['inputs','histories'],'all attribute names and path lengths, all option settings, chains and copies of proxies',
  'tests use two-level paths and one option.',
  [X],[('deferred attribute','ObjectProxy._deferred_attr, __getattr__, _undefer'),('options','ObjectProxy._set_proxy_options'),('copy','ObjectProxy._copy')],
  [('_attributes','attribute path','ObjectProxy'),('_proxy_options','per-proxy options','ObjectProxy')],['proxy state'])
p('C10','Proxy equality and hashing agree',
  'Two proxies with the same server address, object id and attribute path are equal without contacting the server and have equal hashes, whatever their reference ids; a proxy hash never changes and never depends on the remote object. Comparing with anything else, including a proxy for another attribute of the same object, is decided by the remote object.',
  ['inputs'],'all pairs of proxies and values',
  'one pair of duplicate proxies is compared.',
  [X],[('equality','ObjectProxy.__eq__'),('hash','ObjectProxy.__hash__')],[('_hash','cached hash','ObjectProxy')],['==, hash()'])
p('C11','A remote call runs once, with exactly the arguments given',
  "Calling a proxy sends one request naming that proxy, all positional and keyword arguments unchanged, except that _sync, _timeout and _return_type are removed and, for this call only, override the proxy's own settings; the server calls the denoted object exactly once with exactly those arguments. 'sync' returns the result or raises, 'async' immediately returns a future for it, 'off' asks for no reply and returns None. A call without arguments is sent as such.",
  ['inputs','configurations'],'all argument lists, keyword dictionaries, option settings and overrides',
  'tests call with few positional arguments and no keyword arguments.',
  [X,C,S],[('proxy call','ObjectProxy.__call__'),('request','RPCClient.call_obj, RPCClient.send'),('invocation','RPCServer.process_action call_obj')],[],['request frames','callable invocation'])
p('C12','One client per thread and address',
  'Looking up a client yields the one registered for the calling thread and that address (text or bytes form alike) or makes a new one; a second direct construction for the same thread and address is refused with KeyError and leaves the registered one in place. A construction that fails (connection refused, unknown serializer, no answer in time) raises and leaves no registration behind, and closing a client removes exactly its own registration. Clients of other threads and addresses are never returned or changed.',
  ['histories','fault_sequences'],'all sequences of lookups, constructions, failures at any step of construction, and closes, over any threads and addresses',
  'tests look up one client twice and construct one duplicate; no failing construction is tested.',
  [C,UT],[('lookup','RPCClient.get_client'),('construction','RPCClient.__init__'),('removal','RPCClient.close, RPCClient.forget_client'),('reachability','RPCClient.check_address, check_tcp_port')],
  [('clients_by_thread','clients by thread and address','RPCClient.clients_by_thread')],['client registry'])
p('C13','At most one server per thread',
  'A thread has at most one registered server: registering a second one fails with KeyError and leaves the first in place, registering the same server again in its thread does nothing, and a server registered in one thread cannot be registered in another. Looking up the server of the current thread yields exactly the one registered there or None; unregistering removes exactly that server.',
  ['histories'],'all sequences of registering, looking up and unregistering any servers from any threads',
  'no test registers two servers in one thread or unregisters and re-registers.',
  [S],[('registry','RPCServer.register_server, unregister_server, get_server')],[('servers_by_thread','server by thread id','RPCServer.servers_by_thread')],['get_server'])
p('C14','Server shutdown reaches every client',
  'When a server closes it sends exactly one disconnect notice, in the serializer of that client, to every client it has heard from except the one that asked, to whom it replies True, and it is then neither running nor registered. A client that learns its server is gone fails every pending request with RuntimeError, reports itself disconnected from then on, refuses further requests with RuntimeError before sending anything, and treats a further close request as already done. A client that requested the close itself ends in the same state.',
  ['histories','configurations'],'any number and mix of clients and serializers, any set of pending requests, any order of notice, replies and further calls',
  'test_disconnect uses one or two msgpack clients without pending requests.',
  [S,C],[('broadcast','RPCServer.process_action close'),('client reaction','RPCClient._server_disconnected, process_msg, _close_request_returned, disconnected, close_server, send')],
  [('_clients','clients to notify','RPCServer._clients'),('_disconnected','client knows the server is gone','RPCClient')],['notices sent','pending futures'])
p('C15','Waiting for a result ends when it should',
  'Waiting on a pending result returns only once that result is there, and gives up with TimeoutError only when the given timeout (within one millisecond) has really elapsed; without a timeout it never gives up. No single blocking step waits past the remaining time (beyond the fixed Qt polling slice), and while waiting, requests arriving for a server in the same thread are served unless the client is non-reentrant. A server that has been closed refuses to read further requests.',
  ['inputs','schedules'],'all timeouts (none, zero, positive), all arrival orders of replies and local requests, clients with and without a local server or Qt server',
  'tests use three fixed timeouts.',
  [C,S],[('wait loop','RPCClient.process_until_future'),('bounded receive','RPCClient._read_and_process_one'),('poller choice','RPCClient._get_poller'),('Future.result','Future.result')],[],['TimeoutError, elapsed time'])
p('C16','Published names and imports deliver what was asked for',
  'Getting a name from a server yields the object last published under that exact name by any client or by the server itself, publishing one name changes no other name, and an unpublished name is an error. Importing a dotted module name yields that very module, reached part by part, not its top-level package.',
  ['histories','inputs'],'all sequences of publishing and getting, all names, dotted names of any depth',
  'tests publish three names and import modules of depth one and two.',
  [S,C],[('namespace','RPCServer.__getitem__, __setitem__, process_action get_item/set_item'),('import','process_action import'),('client side','RPCClient.__getitem__, __setitem__, _import, transfer, get_obj')],
  [('_namespace','published objects','RPCServer._namespace')],['returned object'])
p('C17','A started process gets exactly the configuration asked for',
  'Starting a process runs the chosen interpreter on the bootstrap module with the given name (prefixed), listen address, log address, Qt and daemon flags and name prefix, whether addresses are given as text or bytes, with standard streams as requested (none for daemons, pipes when stdio is logged); the child interprets that command line back into the same settings. The returned handle is connected to the address the child reported and has its pid and name; a child that reports an error or does not report in time makes the start raise, with the reported error text, and a child still running after reporting an error is killed.',
  ['inputs','configurations','fault_sequences'],'all combinations of the parameters, all child reports (address, error, silence)',
  'tests use a few parameter combinations and no failing child.',
  [R,'teleprox/bootstrap.py'],[('launch','start_process'),('child side','bootstrap.py argument parser')],[],['Popen arguments','returned handle'])
p('C18','Stopping a child process really ends it',
  'stop() asks the child server to close and returns only after the process has exited, giving its exit code; kill() returns only after the process has exited; both do nothing for a process that has already exited. wait() returns nothing but the exit code of an exited process and raises TimeoutError otherwise, only after the timeout has elapsed. A refused close is an error, and a daemon handle acts on exactly the daemon pid.',
  ['histories','fault_sequences'],'all exit times, timeouts, results of the close request and errors of the underlying process calls',
  'tests stop and kill processes that exit promptly.',
  [R,UT],[('stop/kill/wait/poll','ChildProcess'),('daemon stop/kill','DaemonProcess'),('kill_pid','util.kill_pid')],[],['return values','signals sent'])
p('C19','Forwarded log records arrive complete, once and in order',
  'Every record handed to a log sender before it is closed is sent to the connected log server exactly once, in order, with its message already formatted, its level, and its origin (host, process and thread name), whatever its arguments, attached exception or extra attributes; one record never prevents later ones from being sent. The receiving side hands every record at or above the level of its logger to that logger exactly once, and drops lower ones only if filtering is on.',
  ['inputs','histories'],'all records (message, arguments, level, exception info, extra attributes), all sequences of records, all logger levels',
  'the logging tests send a few plain records, and are excluded from the stable suite.',
  [L],[('sender queue','LogSender.handle, run, _handle, close'),('receiver','LogServer.run'),('names','get/set_host_name, _process_name, _thread_name')],[],['socket traffic','records handled'])
p('C20','The sorting log handler prints every record once, in time order',
  'Every record given to the handler is printed exactly once, whether by the background printer or by the final flush, and the records printed in one batch are in creation-time order; the printer takes only records older than its holding delay. The header of a record names the host, process and thread the record came from.',
  ['histories','schedules'],'all sequences and creation times of records, all interleavings of emit, the printer and flush at lock granularity',
  'no test checks ordering or loss.',
  [H],[('buffering','RPCLogHandler.emit'),('printer','RPCLogHandler.poll_records'),('flush','RPCLogHandler.flush_records'),('header','RPCLogHandler.get_thread_header')],[('records','buffered records, sorted by creation time','RPCLogHandler.records')],['output order'])
p('C21','A timer keeps its interval, its limit and its stop',
  'Between two calls of start(), a timer never starts a callback less than its interval after the previous callback start, never runs it more often than its limit since it was last started, and starts no callback after stop() has returned (one already being started may finish). It reports itself not running once it has ended for whatever reason, and starting it again after it ended makes it run again.',
  ['schedules','inputs'],'all intervals, limits (including zero and none), callback durations and exceptions, and start/stop calls between any two steps of the timer thread at lock granularity',
  'no test covers the timer.',
  [T],[('loop','Timer._run'),('control','Timer.start, Timer.stop')],[('_call_count','callbacks since start','Timer'),('running','timer active','Timer')],['callback times'])
p('C22','Shared arrays share memory and clean up only what they own',
  'A shared array created as zeros or as a copy has the requested shape and dtype and the requested contents, in memory large enough to hold it; sending it to another process yields an array over the same memory with the same shape, dtype and strides, so both see the same elements. Closing all shared memory unlinks exactly the memory blocks whose arrays were created with cleanup requested, each once, never those received from elsewhere.',
  ['inputs','histories'],'all shapes (including zero-dimensional), dtypes, memory layouts, and sequences of creation, transfer and cleanup',
  'no test covers shared arrays.',
  [M],[('creation','SharedNDArray.zeros, copy'),('transfer','SharedNDArray.__reduce__, __reload__'),('cleanup','close_all')],[('all_shmem','blocks to clean up','shmem.all_shmem')],['array contents','unlink calls'])
p('C23','Process cleanup touches only the processes it was asked about',
  'Searching processes finds exactly those whose command line contains the given text; killing by search kills and reports exactly the processes that a second search still finds after the grace period, and nothing if the first search finds nothing. Checking that pids are dead kills every one that is still alive and then fails naming exactly those; the cleanup context does so for every registered process on exit, and raises only if its body did not already fail.',
  ['inputs','fault_sequences'],'all process lists, search texts, sets of registered processes, and outcomes of each kill',
  'the helpers are only used by tests for cleanup, always with the one prefix.',
  [UT],[('search','find_procs, kill_procs'),('check','assert_pids_dead, assert_pid_dead, ProcessCleaner')],[],['signals sent'])
p('C24','Captured output is logged line by line, complete',
  'Each line a child writes to its standard output or error becomes exactly one log message, in order, with the process and stream as prefix and the line content otherwise unchanged, including a last line without newline and bytes that are not valid text; output goes to info level, errors to warning level. With a log server address, these messages go to that server only.',
  ['inputs'],'all byte streams on the two pipes',
  'tests write a single newline-terminated line.',
  [IO],[('pipe reader','PipePoller.run'),('wiring','StdioLogSender.__init__')],[],['log calls'])
p('C25','The Qt poll thread relays every message unchanged',
  'Every request received on the RPC socket of a Qt server is handed to the Qt thread exactly once, with the caller and content it arrived with, and every reply from the Qt thread is sent on the RPC socket to exactly the caller it names, unchanged and in order. Asking the poll thread to stop ends it, without sending anything to a client.',
  ['schedules','inputs'],'all arrival orders of requests and replies, including both at once',
  'one Qt test makes a few calls from one thread.',
  ['teleprox/qt_poll_thread.py','teleprox/qt_server.py'],[('relay loop','QtPollThread.run'),('stop','QtPollThread.stop')],[],['socket traffic, signal emissions'])
p('C26','Mutually calling servers always make progress',
  'When servers in several threads or processes call each other recursively to any depth, every call eventually completes; no cycle of reentrant clients deadlocks.',
  ['schedules'],'all call graphs and schedules of reentrant clients and servers',
  'one ping-pong of depth seven is tested.',
  [C,S],[('reentrant polling','RPCClient.process_until_future')],[],['completion'])
p('C27','A daemon outlives its parent and its terminal',
  'A process started as daemon keeps running and serving after its parent exits, is killed, or its terminal closes, and holds none of the parent streams open.',
  ['fault_sequences','crash_points'],'all moments of parent exit or death',
  'test_daemon stops the parent once, after start-up has finished.',
  [R,'teleprox/bootstrap.py'],[('double fork, setsid, stdio redirection','bootstrap.py')],[],['process liveness'])
with open('properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
