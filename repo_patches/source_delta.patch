From cd4950714b40633b130f6a5bf8b0243def55aeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 01/56] fix: reflected xor on a proxy calls __rxor__ of the
 remote object

---
 teleprox/proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index f448af1..235f048 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -507,7 +507,7 @@ class ObjectProxy(object):
         return self._deferred_attr('__ror__')(*args)
         
     def __rxor__(self, *args):
-        return self._deferred_attr('__ror__')(*args)
+        return self._deferred_attr('__rxor__')(*args)
         
     def __rmod__(self, *args):
         return self._deferred_attr('__rmod__')(*args)
-- 
2.43.0


From a79bac9b9a7ebb266eab24a25b607389e8a67365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 02/56] fix: proxies to different attributes of one object are
 not equal by default

---
 teleprox/proxy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index 235f048..5bb5d76 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -433,7 +433,8 @@ class ObjectProxy(object):
         # we can immediately return True.
         if (isinstance(args[0], ObjectProxy) and 
             args[0]._rpc_addr == self._rpc_addr and
-            args[0]._obj_id == self._obj_id):
+            args[0]._obj_id == self._obj_id and
+            args[0]._attributes == self._attributes):
             return True
         return self._deferred_attr('__eq__')(*args)
     
-- 
2.43.0


From 1f5c35d79ec552704352acb0667cd9c8a33a35ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 03/56] fix: collecting an attribute proxy must not release the
 reference of its parent

---
 teleprox/proxy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index 5bb5d76..5e45d88 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -98,6 +98,7 @@ class ObjectProxy(object):
             _type_str=type_str,
             _attributes=attributes,
             _parent_proxy=None,
+            _owns_ref=True,
             _hash=None,
             _client_=None,
             _server_=None,
@@ -265,7 +266,7 @@ class ObjectProxy(object):
         self._client().delete(self, sync=sync, **kwds)
         
     def __del__(self):
-        if self._proxy_options['auto_delete'] is True:
+        if self._proxy_options['auto_delete'] is True and self._owns_ref:
             self._delete()
         
     def __getattr__(self, attr):
@@ -297,6 +298,8 @@ class ObjectProxy(object):
         # Keep a reference to the parent proxy so that the remote object cannot be
         # released as long as this proxy is alive.
         proxy.__dict__['_parent_proxy'] = self
+        # ..and leave it to the parent proxy to release the reference
+        proxy.__dict__['_owns_ref'] = False
         return proxy
     
     def __call__(self, *args, **kwargs):
-- 
2.43.0


From e1b1ae22a07dc1c5d9560ff9da2e35c7852b4328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 04/56] fix: copying an attribute proxy must not access the
 remote object

---
 teleprox/proxy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/teleprox/proxy.py b/teleprox/proxy.py
index 5e45d88..1315008 100644
--- a/teleprox/proxy.py
+++ b/teleprox/proxy.py
@@ -143,8 +143,10 @@ class ObjectProxy(object):
         # ObjectProxy should only be used in one thread.
         prox = ObjectProxy(self._rpc_addr, self._obj_id, self._ref_id, self._type_str, 
                            self._attributes, **self._proxy_options)
+        # the copy shares our reference; do not release it a second time
+        prox.__dict__['_owns_ref'] = False
         if self._parent_proxy is not None:
-            prox._parent_proxy = self._parent_proxy.copy()
+            prox.__dict__['_parent_proxy'] = self._parent_proxy._copy()
         return prox
 
     def _client(self):
-- 
2.43.0


From 2be26ff7ca802100e1cc41952e07d986ada91b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 05/56] fix: call_obj() without args or kwargs sends an empty
 argument list

---
 teleprox/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 87d1f16..37892eb 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -332,7 +332,11 @@ class RPCClient(object):
         kwds :
             All extra keyword arguments are passed to :func:`send() <RPCClient.send>`.
         """
-        opts = {'obj': obj, 'args': args, 'kwargs': kwargs} 
+        opts = {
+            'obj': obj, 
+            'args': () if args is None else args, 
+            'kwargs': {} if kwargs is None else kwargs,
+        }
         return self.send('call_obj', opts=opts, **kwds)
 
     def get_obj(self, obj, **kwds):
-- 
2.43.0


From 490953747c9df97a994080e75637f7a2277a028b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 06/56] fix: a request with an unsupported serializer is
 answered instead of ending the server loop

---
 teleprox/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 1fce84d..7dccdca 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -272,7 +272,8 @@ class RPCServer(object):
         return_type = msg.get('return_type', 'auto')
         
         # remember this caller so we can deliver a disconnect message later
-        self._clients[caller] = ser_type
+        # (if we don't have the requested serializer, then answer with one that we do have)
+        self._clients[caller] = ser_type if ser_type in self._serializers else next(iter(self._serializers))
         
         # Attempt to read message and invoke requested action
         try:
-- 
2.43.0


From b3760297cb49f7bc36acfa568c5af7fbc68d138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 07/56] fix: an exception message with lone surrogates is sent
 instead of ending the server loop

---
 teleprox/server.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/teleprox/server.py b/teleprox/server.py
index 7dccdca..3383e98 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -328,6 +328,8 @@ class RPCServer(object):
         exc_str += traceback.format_stack()
         exc_str += [" < exception caught here >\n"]
         exc_str += traceback.format_exception(*exc)
+        # exception messages may contain characters that cannot be sent
+        exc_str = [line.encode('utf-8', 'backslashreplace').decode('utf-8') for line in exc_str]
         self._send_result(caller, req_id, error=(exc[0].__name__, exc_str))
     
     def _send_result(self, caller, req_id, rval=None, error=None):
-- 
2.43.0


From 681898d8232ad666b900ffdf7707caccd9d06a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 08/56] fix: an error while making a proxy to a result is
 reported to the caller

---
 teleprox/server.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 3383e98..93cd531 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -300,12 +300,12 @@ class RPCServer(object):
         if req_id >= 0:
             if exc is None:
                 #print "returnValue:", returnValue, result
-                if return_type == 'auto':
-                    result = self.auto_proxy(result, self.serialize_types)
-                elif return_type == 'proxy':
-                    result = self.get_proxy(result)
-                
                 try:
+                    if return_type == 'auto':
+                        result = self.auto_proxy(result, self.serialize_types)
+                    elif return_type == 'proxy':
+                        result = self.get_proxy(result)
+                
                     self._send_result(caller, req_id, rval=result)
                 except:
                     logger.warning("    => Failed to send result for %d", req_id) 
-- 
2.43.0


From 51131f23bab0cdd9c7e25701fececb92ae785f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 09/56] fix: using a deleted proxy reference is an error even
 if the object is still alive

---
 teleprox/server.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index 93cd531..d67dde8 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -218,10 +218,13 @@ class RPCServer(object):
         """
         try:
             oid = proxy._obj_id
-            obj = self._proxy_refs[oid][0]
+            obj, refs = self._proxy_refs[oid]
         except KeyError:
             raise KeyError("Invalid proxy object ID %r. The object may have "
-                           "been released already." % proxy.obj_id)
+                           "been released already." % proxy._obj_id)
+        if proxy._ref_id not in refs:
+            raise KeyError("Invalid proxy reference ID %r. The reference has "
+                           "been deleted already." % proxy._ref_id)
         for attr in proxy._attributes:
             obj = getattr(obj, attr)
         #logger.debug("server %s unwrap proxy %d: %s", self.address, oid, obj)
-- 
2.43.0


From 0faeda7da9aa5be7f2ba13dd29fb2824707dc380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 10/56] fix: a closed server refuses to read further requests

---
 teleprox/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index d67dde8..53becc7 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -256,7 +256,7 @@ class RPCServer(object):
         """Read one message from the rpc socket and invoke the requested
         action.
         """
-        if not self.running:
+        if self._closed is True:
             raise RuntimeError("RPC server socket is already closed.")
             
         name, msg = self._read_one(self._socket)
-- 
2.43.0


From 7aa3c93e94d1581e729328997fc802c70d3a6314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 11/56] fix: an unregistered server can be registered again

---
 teleprox/server.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/teleprox/server.py b/teleprox/server.py
index 53becc7..c0fe5c7 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -123,6 +123,7 @@ class RPCServer(object):
         with RPCServer.servers_by_thread_lock:
             assert RPCServer.servers_by_thread[key] is srv
             RPCServer.servers_by_thread.pop(key)
+        srv._thread = None
 
     @staticmethod
     def local_client():
-- 
2.43.0


From 53c8efe567c80fb62b0d6288f2ecf30065a58aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 12/56] fix: datetimes keep their time zone and early years in
 transport

---
 teleprox/serializer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 109d2c2..2a6cf59 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -119,10 +119,10 @@ class Serializer:
             return ser
         elif isinstance(obj, datetime.datetime):
             return {encode_key: 'datetime',
-                    'data': obj.strftime('%Y-%m-%dT%H:%M:%S.%f')}
+                    'data': obj.isoformat(timespec='microseconds')}
         elif isinstance(obj, datetime.date):
             return {encode_key: 'date',
-                    'data': obj.strftime('%Y-%m-%d')}
+                    'data': obj.isoformat()}
         elif isinstance(obj, tuple):
             return {encode_key: 'tuple', 'data': list(obj)}
         elif obj is None:
@@ -175,9 +175,9 @@ class Serializer:
             elif type_name == 'np_number':
                 return dct['dtype'].type(dct['value'])
             elif type_name == 'datetime':
-                return datetime.datetime.strptime(dct['data'], '%Y-%m-%dT%H:%M:%S.%f')
+                return datetime.datetime.fromisoformat(dct['data'])
             elif type_name == 'date':
-                return datetime.datetime.strptime(dct['data'], '%Y-%m-%d').date()
+                return datetime.date.fromisoformat(dct['data'])
             elif type_name == 'tuple':
                 return tuple(dct['data'])
             elif type_name == 'none':
-- 
2.43.0


From ef132c3810d8d12a9439487d35927d11bf14549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 13/56] fix: dicts with integer keys can be received with
 msgpack

---
 teleprox/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 2a6cf59..5f52755 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -256,7 +256,7 @@ class MsgpackSerializer(Serializer):
         #return msgpack.loads(msg, encoding='utf8', use_list=False, object_hook=self.decode)
 
         #Return lists/tuples as lists because json can't be configured otherwise
-        return msgpack.loads(msg, object_hook=self.decode)
+        return msgpack.loads(msg, object_hook=self.decode, strict_map_key=False)
 
 if HAVE_MSGPACK:
     all_serializers[MsgpackSerializer.type] = MsgpackSerializer
-- 
2.43.0


From 84e81010b92f7a828cc1e0ddcb28946ab99c5198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 14/56] fix: structured and aligned numpy dtypes survive
 transport with both serializers

---
 teleprox/serializer.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 5f52755..357dedf 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -153,6 +153,15 @@ class Serializer:
                 'pickle_str': pickle.dumps(obj),
             }
 
+    def _decode_dtype(self, dt):
+        # structured dtypes are sent as the text of a list or a dict
+        if dt.startswith(('[', '{')):
+            #small hack to have a list
+            d = {}
+            exec('dtype='+dt, None, d)
+            dt = d['dtype']
+        return dt
+
     def decode(self, dct):
         """Convert from serializable objects back to original types.
         """
@@ -164,12 +173,7 @@ class Serializer:
                 if not HAVE_NUMPY:
                     raise ImportError("numpy is required to deserialize ndarray.")
                 dt = dct['dtype']
-                if dt.startswith('['):
-                    #small hack to have a list
-                    d = {}
-                    exec('dtype='+dt, None, d)
-                    dt = d['dtype']
-                return np.frombuffer(dct['data'], dtype=dt).reshape(dct['shape'])
+                return np.frombuffer(dct['data'], dtype=self._decode_dtype(dt)).reshape(dct['shape'])
             elif type_name == 'pickle':
                 return pickle.loads(dct['pickle_str'])
             elif type_name == 'np_number':
@@ -315,7 +319,7 @@ class JsonSerializer(Serializer):
                 if not HAVE_NUMPY:
                     raise ImportError("numpy is required to deserialize ndarray.")
                 data = base64.b64decode(dct['data'])
-                return np.frombuffer(data, dct['dtype']).reshape(dct['shape'])
+                return np.frombuffer(data, dtype=self._decode_dtype(dct['dtype'])).reshape(dct['shape'])
             elif type_name == 'bytes':
                 return base64.b64decode(dct['data'])
             
-- 
2.43.0


From 488c3c568fc133908e32672e5d77084ee086abd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 15/56] fix: numpy scalars that cannot be sent exactly are
 refused instead of changed

---
 teleprox/serializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 357dedf..62e6f45 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -130,9 +130,9 @@ class Serializer:
         elif HAVE_NUMPY and isinstance(obj, (np.number, np.bool_)):
             if isinstance(obj, np.bool_):
                 val = bool(obj)
-            elif isinstance(obj, np.integer):
+            elif isinstance(obj, np.integer) and not isinstance(obj, np.timedelta64):
                 val = int(obj)
-            elif isinstance(obj, np.floating):
+            elif isinstance(obj, np.floating) and obj.itemsize <= 8:
                 val = float(obj)
             else:
                 raise TypeError("Unhandled numpy scalar type: %s" % type(obj))
-- 
2.43.0


From 72a8f0ae7a99d0ebf1bf72c2f1df608ab35be8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 16/56] fix: a timer can be started again after it ended, and
 honours limit=0

---
 teleprox/timer.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/teleprox/timer.py b/teleprox/timer.py
index 501396a..1d3c71d 100644
--- a/teleprox/timer.py
+++ b/teleprox/timer.py
@@ -24,7 +24,8 @@ class Timer(object):
         Whether to immediately start the timer.
     """
     def __init__(self, callback, interval, limit=None, start=False):
-        self.thread = threading.Thread(target=self._run, daemon=True)
+        self.thread = None  # the thread that currently runs this timer, if any
+        self.running = False
         self.callback = callback
         self.interval = float(interval)
         self.limit = limit
@@ -45,11 +46,9 @@ class Timer(object):
             self.running = True
             self._last_call_time = None
             self._call_count = 0
-        
-        if self.thread.is_alive():
-            return
-        else:
-            self.thread.start()
+            if self.thread is None:
+                self.thread = threading.Thread(target=self._run, daemon=True)
+                self.thread.start()
         
     def stop(self):
         """Stop the timer.
@@ -74,7 +73,8 @@ class Timer(object):
                     time.sleep(sleep_time)
                     
                 with self._lock:
-                    if not self.running:
+                    if not self.running or self._limit_reached():
+                        self._ended()
                         return
                     self._last_call_time = time.perf_counter()
                     
@@ -82,8 +82,19 @@ class Timer(object):
                 
                 with self._lock:
                     self._call_count += 1
-                    if self.limit is not None and self._call_count >= self.limit:
+                    if self._limit_reached():
+                        self._ended()
                         return
         finally:
             with self._lock:
-                self.running = False
+                # do nothing if we have already been replaced by a new thread
+                if self.thread is threading.current_thread():
+                    self._ended()
+
+    def _limit_reached(self):
+        return self.limit is not None and self._call_count >= self.limit
+
+    def _ended(self):
+        # called with the lock held by the thread that is about to end
+        self.running = False
+        self.thread = None
-- 
2.43.0


From 5b10aa50fe9a00b0ea68e35c2a8b52b31bff143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 17/56] fix: start_process() accepts addresses given as text or
 bytes

---
 teleprox/process.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/teleprox/process.py b/teleprox/process.py
index a904f1f..2478cfc 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -118,6 +118,10 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     assert log_addr is None or isinstance(log_addr, (str, bytes)), f"log_addr must be str or None; got {repr(log_addr)}"
     if log_addr is None and not daemon:
         log_addr = get_logger_address()
+    if isinstance(log_addr, str):
+        log_addr = log_addr.encode()
+    if isinstance(address, bytes):
+        address = address.decode()
     assert log_level is None or isinstance(log_level, (int, str)), f"log_level must be int, str, or None; got {repr(log_level)}"
     if log_level is None:
         log_level = logger.getEffectiveLevel()
-- 
2.43.0


From 12e3fdbd396bb9ff06860318207c944d561cc5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 18/56] fix: start_process() passes log_level on without a log
 address

---
 teleprox/process.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 2478cfc..7275c32 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -155,11 +155,9 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     if daemon is True:
         bootstrap_args.append('--daemon')
     if log_addr is not None:
-        bootstrap_args.extend([
-            f'--logaddr={log_addr.decode()}',
-            f'--loglevel={log_level}',
-        ])
+        bootstrap_args.append(f'--logaddr={log_addr.decode()}')
     bootstrap_args.extend([
+        f'--loglevel={log_level}',
         f'--listen_addr={address}',
         f'--bootstrap_addr={bootstrap_addr.decode()}',
     ])
-- 
2.43.0


From d81d1556c03591cb525f718e66a62f53d46ae4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 19/56] fix: a child that is still running after reporting a
 startup error is killed

---
 teleprox/process.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 7275c32..99668b2 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -233,7 +233,12 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
         client = RPCClient(address.encode(), serializer=serializer, start_local_server=start_local_server)
     else:
         err = ''.join(status['error'])
-        if proc is not None and proc.poll() is not None:
+        if proc is None:
+            try:
+                kill_pid(status['pid'])
+            except (OSError, ProcessLookupError):
+                pass
+        elif proc.poll() is None:
             proc.kill()
         raise RuntimeError(f"Error while spawning process:\n{err}")
 
-- 
2.43.0


From 286c6ee587f6310e444babdb92236f822bae3bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 20/56] fix: an error while creating the server of a child
 process is reported to the parent

---
 teleprox/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/bootstrap.py b/teleprox/bootstrap.py
index 0ed3594..77d9a4f 100644
--- a/teleprox/bootstrap.py
+++ b/teleprox/bootstrap.py
@@ -91,7 +91,7 @@ try:
     server = server_class(conf['listen_addr'])
     status = {'address': server.address.decode(), 'pid': os.getpid()}
 except:
-    logger.error("Error starting {class_name} with args: {args}:".format(**conf))
+    logger.error("Error starting {class_name} with args: {args}:".format(args=sys.argv[1:], **conf))
     status = {'error': traceback.format_exception(*sys.exc_info()), 'pid': os.getpid()}
     
 # Report server status to spawner
-- 
2.43.0


From cce4b9b803f62a02c158115f0cc6a7fc015538b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 21/56] fix: waiting for a child must not swallow output that
 should be logged

---
 teleprox/process.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 99668b2..b7ffb13 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -292,8 +292,12 @@ class ChildProcess:
         # Using proc.wait() can deadlock; use communicate() instead.
         # see: https://docs.python.org/2/library/subprocess.html#subprocess.Popen.wait
         try:
-            # Turns out communicate() can deadlock too
-            self.proc.communicate(timeout=timeout)
+            if self.stdio_logger is None:
+                # Turns out communicate() can deadlock too
+                self.proc.communicate(timeout=timeout)
+            else:
+                # The stdio logger reads all output of this process; do not take it away.
+                self.proc.wait(timeout=timeout)
         except (AttributeError, ValueError):
             # Python bug: http://bugs.python.org/issue30203
             # Calling communicate on process with closed i/o can generate
-- 
2.43.0


From 6d014838991a1bedd025c87ae3399fa9cbf4f66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 22/56] fix: the Qt poll thread recognises the request to stop

---
 teleprox/qt_poll_thread.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/qt_poll_thread.py b/teleprox/qt_poll_thread.py
index 80095a1..6eb8aab 100644
--- a/teleprox/qt_poll_thread.py
+++ b/teleprox/qt_poll_thread.py
@@ -51,7 +51,7 @@ class QtPollThread(qt.QThread):
             if self.return_socket in socks:
                 name, data = self.return_socket.recv_multipart()
                 #logger.debug("poller return %s %s", name, data)
-                if name == 'STOP':
+                if name == b'STOP':
                     break
                 self.rpc_socket.send_multipart([name, data])
                 
-- 
2.43.0


From 51ac9d927acf3d4a8f06c1045f472fa6322073e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 23/56] fix: log records with exceptions, other extra
 attributes or bad arguments are forwarded

---
 teleprox/log/remote.py | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index f486ab5..978cccc 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -10,6 +10,7 @@ import zmq
 import logging
 import atexit
 import json
+import traceback
 
 logger = logging.getLogger(__name__)
 
@@ -114,6 +115,24 @@ def set_logger_address(addr):
     server_addr = addr
 
 
+def _safe_repr(obj):
+    try:
+        return repr(obj)
+    except Exception:
+        return '<%s object>' % type(obj).__name__
+
+
+def _is_plain(obj):
+    return obj is None or isinstance(obj, (bool, int, float, str))
+
+
+def _exception_text(exc_info):
+    try:
+        return ''.join(traceback.format_exception(*exc_info)).rstrip('\n')
+    except Exception:
+        return _safe_repr(exc_info)
+
+
 class LogSender(logging.Handler):
     """Handler for forwarding log messages to a remote LogServer via zmq socket.
     
@@ -173,14 +192,27 @@ class LogSender(logging.Handler):
         if self.socket is None:
             return
         rec = record.__dict__.copy()
-        args = rec.pop('args')
-        if len(args) > 0:
-            rec['msg'] = rec['msg'] % args
+        rec.pop('args')
+        try:
+            rec['msg'] = record.getMessage()
+        except Exception:
+            # message and args do not fit together; show them as they are
+            rec['msg'] = '%s %s' % (_safe_repr(record.msg), _safe_repr(record.args))
+        # exceptions can only be sent as text
+        exc_info = rec.get('exc_info')
+        rec['exc_info'] = None
+        if exc_info and not rec.get('exc_text'):
+            rec['exc_text'] = _exception_text(exc_info)
         if process_name is not None:
             rec['process_name'] = process_name
         rec['thread_name'] = thread_names.get(rec['thread'], rec['threadName'])
         rec['host_name'] = host_name
-        self.socket.send(json.dumps(rec).encode('utf-8'))
+        try:
+            data = json.dumps(rec, default=_safe_repr)
+        except Exception:
+            # extra attributes that cannot be converted even with the help of repr()
+            data = json.dumps({k: v if _is_plain(v) else _safe_repr(v) for k, v in rec.items()})
+        self.socket.send(data.encode('utf-8'))
         
     def connect(self, addr):
         """Set the address of the LogServer to which log messages should be
-- 
2.43.0


From d42a614a9ce44f36075f916336552ec897ddd8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 24/56] fix: closing a log sender sends the records it has
 received before

---
 teleprox/log/remote.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index 978cccc..43dd77e 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -230,6 +230,9 @@ class LogSender(logging.Handler):
         # if this socket is left open when the process exits, it can lead to
         # deadlock.
         self.record_queue.put(None)
+        # give the background thread time to send all records it has received so far
+        if self.thread is not threading.current_thread():
+            self.thread.join(timeout=1.0)
         socket, self.socket = self.socket, None
         if socket is not None:
             socket.close()
-- 
2.43.0


From 634fab984c4d3abe2e901ee47f7f6d687bb75ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 25/56] fix: log headers show the host that a forwarded record
 came from

---
 teleprox/log/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/log/handler.py b/teleprox/log/handler.py
index a612dd7..b3d8fa9 100644
--- a/teleprox/log/handler.py
+++ b/teleprox/log/handler.py
@@ -103,7 +103,7 @@ class RPCLogHandler(logging.StreamHandler):
         return header + ' ' + message
 
     def get_thread_header(self, record):
-        hid = getattr(record, 'hostname', get_host_name())
+        hid = getattr(record, 'host_name', get_host_name())
         pid = getattr(record, 'process_name', get_process_name())
         tid = getattr(record, 'thread_name', get_thread_name(record.thread))
         key = (hid, pid, tid)
-- 
2.43.0


From 2e81db48b0c39925f00e2934932f364207e4b7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 26/56] fix: the final flush waits for records that are just
 being printed

---
 teleprox/log/handler.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/teleprox/log/handler.py b/teleprox/log/handler.py
index b3d8fa9..27eeb12 100644
--- a/teleprox/log/handler.py
+++ b/teleprox/log/handler.py
@@ -60,6 +60,9 @@ class RPCLogHandler(logging.StreamHandler):
         # by creation time.
         self.delay = 0.2
         self.record_lock = threading.Lock()
+        # held while records are being printed, so that flush_records() also waits
+        # for those that have been picked up by the polling thread
+        self.print_lock = threading.Lock()
         self.records = []
         self.thread = threading.Thread(target=self.poll_records, daemon=True)
         self.thread.start()
@@ -81,15 +84,13 @@ class RPCLogHandler(logging.StreamHandler):
             # collect all records more than 0.5 sec old
             limit = time.time() - self.delay
             recs = []
-            with self.record_lock:
-                while len(self.records) > 0 and self.records[0].created < limit:
-                    recs.append(self.records.pop(0))
-                    
-            # emit records or sleep
-            if len(recs) > 0:
+            with self.print_lock:
+                with self.record_lock:
+                    while len(self.records) > 0 and self.records[0].created < limit:
+                        recs.append(self.records.pop(0))
                 for rec in recs:
                     logging.StreamHandler.emit(self, rec)
-            else:
+            if len(recs) == 0:
                 time.sleep(0.2)
 
     def format(self, record):
@@ -117,11 +118,12 @@ class RPCLogHandler(logging.StreamHandler):
         return header
 
     def flush_records(self):
-        with self.record_lock:
-            recs = self.records[:]
-            self.records = []
-        for rec in recs:
-            logging.StreamHandler.emit(self, rec)
+        with self.print_lock:
+            with self.record_lock:
+                recs = self.records[:]
+                self.records = []
+            for rec in recs:
+                logging.StreamHandler.emit(self, rec)
 
 
 _sys_excepthook = None
-- 
2.43.0


From f62fa04c9c6c3eb1deadb9bdb7b8107463643140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 27/56] fix: captured output keeps an unterminated last line
 and survives invalid utf-8

---
 teleprox/log/stdio.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/teleprox/log/stdio.py b/teleprox/log/stdio.py
index 4d99c5d..a775ae1 100644
--- a/teleprox/log/stdio.py
+++ b/teleprox/log/stdio.py
@@ -18,10 +18,12 @@ class PipePoller(threading.Thread):
         prefix = self.prefix
         pipe = self.pipe
         while True:
-            line = pipe.readline().decode()
-            if line == '':
+            line = pipe.readline()
+            if line == b'':
                 break
-            callback(prefix + line[:-1])
+            if line.endswith(b'\n'):
+                line = line[:-1]
+            callback(prefix + line.decode('utf-8', 'backslashreplace'))
 
 
 class StdioLogSender:
-- 
2.43.0


From 7e7c6c3f3b964c32cf48b0a5282241345016bc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 28/56] fix: captured output of a process never goes to the log
 server of an earlier one

---
 teleprox/log/stdio.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/teleprox/log/stdio.py b/teleprox/log/stdio.py
index a775ae1..b43cb87 100644
--- a/teleprox/log/stdio.py
+++ b/teleprox/log/stdio.py
@@ -1,8 +1,11 @@
-import logging, threading
+import itertools, logging, threading
 
 from teleprox.log.remote import LogSender, set_thread_name
 
 
+_logger_ids = itertools.count()
+
+
 class PipePoller(threading.Thread):    
     def __init__(self, pipe, callback, prefix, name):
         threading.Thread.__init__(self, daemon=True)
@@ -37,8 +40,8 @@ class StdioLogSender:
         self.log_addr = log_addr
 
         # create a logger for handling stdout/stderr and forwarding to log server
-        # TODO id(proc) is not id(self), so this behavior is changed from before. is that okay?
-        self.logger = logging.getLogger(__name__ + '.' + str(id(proc)))
+        # (with a unique name, so that we never inherit the handlers of another process)
+        self.logger = logging.getLogger(__name__ + '.' + str(next(_logger_ids)))
         if log_addr is not None:
             self.logger.propagate = False
             self.log_handler = LogSender(log_addr, self.logger)
-- 
2.43.0


From 8bc46586ea1c1e39f4e32e1d0512f36eb3298b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 29/56] fix: kill_procs() looks for the given text instead of
 the process name prefix

---
 teleprox/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/teleprox/util.py b/teleprox/util.py
index 257ef56..ec4dc36 100644
--- a/teleprox/util.py
+++ b/teleprox/util.py
@@ -49,7 +49,7 @@ def find_procs(search):
         found_procs = []
         for line in processes:
             pid, _, cmd = line.lstrip().partition(' ')
-            if search in cmd:
+            if pid.isdigit() and search in cmd:
                 found_procs.append((int(pid), line))
         return found_procs
     elif sys.platform == 'win32':
@@ -66,11 +66,11 @@ def kill_procs(search, wait=5):
 
     return (pid, command) for each killed process
     """
-    procs = find_procs(teleprox.process.PROCESS_NAME_PREFIX)    
+    procs = find_procs(search)
     if not procs:
         return []
     time.sleep(wait)  # wait a little longer for cleanup..
-    procs = find_procs(teleprox.process.PROCESS_NAME_PREFIX)
+    procs = find_procs(search)
     if not procs:
         return []
     for pid, line in procs:
-- 
2.43.0


From 29d46f1cdc945818fdf7b84def22c32b867ba754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 30/56] fix: kill_procs() goes on if a process exits by itself

---
 teleprox/util.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/teleprox/util.py b/teleprox/util.py
index ec4dc36..b2c210f 100644
--- a/teleprox/util.py
+++ b/teleprox/util.py
@@ -73,9 +73,14 @@ def kill_procs(search, wait=5):
     procs = find_procs(search)
     if not procs:
         return []
+    killed = []
     for pid, line in procs:
-        kill_pid(pid)
-    return procs
+        try:
+            kill_pid(pid)
+            killed.append((pid, line))
+        except ProcessLookupError:
+            pass  # has exited meanwhile
+    return killed
 
 
 class ProcessCleaner:
-- 
2.43.0


From db73778012d6c058fb41edc843756ca5c5ad95fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 31/56] fix: closing shared memory leaves blocks alone that are
 owned by someone else

---
 teleprox/shmem.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/teleprox/shmem.py b/teleprox/shmem.py
index fde3480..d495760 100644
--- a/teleprox/shmem.py
+++ b/teleprox/shmem.py
@@ -43,7 +43,8 @@ class SharedNDArray:
         self.shmem = shmem
         self.data = data
         self.close = close
-        all_shmem.append(shmem)
+        if close:
+            all_shmem.append(shmem)
 
     @classmethod
     def zeros(cls, shape, dtype, close=True):
@@ -73,12 +74,11 @@ class SharedNDArray:
 def close_all():
     global all_shmem
     for shmem in all_shmem:
-        if shmem.close:
-            shmem.close()
-            try:
-                shmem.unlink()
-            except FileNotFoundError:
-                pass
+        shmem.close()
+        try:
+            shmem.unlink()
+        except FileNotFoundError:
+            pass
     all_shmem = []
 
 atexit.register(close_all)
-- 
2.43.0


From 2a50f9790579e9853c15aadc58f910ce57482731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 32/56] fix: shared arrays may be empty or have no dimensions

---
 teleprox/shmem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/teleprox/shmem.py b/teleprox/shmem.py
index d495760..7694f45 100644
--- a/teleprox/shmem.py
+++ b/teleprox/shmem.py
@@ -49,7 +49,8 @@ class SharedNDArray:
     @classmethod
     def zeros(cls, shape, dtype, close=True):
         """Create a SharedNDArray filled with zeros."""
-        shmem = mp_shm.SharedMemory(create=True, size=np.prod(shape) * np.dtype(dtype).itemsize)
+        nbytes = int(np.prod(shape)) * np.dtype(dtype).itemsize
+        shmem = mp_shm.SharedMemory(create=True, size=max(1, nbytes))
         data = np.ndarray(shape, dtype=dtype, buffer=shmem.buf)
         data.fill(0)
         return cls(shmem, data, close)
@@ -57,9 +58,9 @@ class SharedNDArray:
     @classmethod
     def copy(cls, arr, close=True):
         """Create a SharedNDArray containing a copy of the given array."""
-        shmem = mp_shm.SharedMemory(create=True, size=arr.nbytes)
+        shmem = mp_shm.SharedMemory(create=True, size=max(1, arr.nbytes))
         data = np.ndarray(arr.shape, dtype=arr.dtype, buffer=shmem.buf)
-        data[:] = arr[:]
+        data[...] = arr
         return cls(shmem, data, close)
         
     def __reduce__(self):
-- 
2.43.0


From 5af72c571a78af106a88ebb201c6f091fe88faf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 33/56] fix: a waiting client serves the current server of its
 thread, not an earlier one

---
 teleprox/client.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 37892eb..1ce690c 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -144,6 +144,7 @@ class RPCClient(object):
             assert reentrant in (True, False)
             self._reentrant = reentrant
             self._poller = None
+            self._poller_server = None  # the server that _poller was made for
             
             logger.info("RPC connect to %s", address.decode())
             self._socket.connect(address)
@@ -198,10 +199,11 @@ class RPCClient(object):
         if not self._reentrant:
             return None
         
-        if self._poller is None:
-            server = RPCServer.get_server()
-            if server is None:
-                return None
+        server = RPCServer.get_server()
+        if server is None:
+            return None
+        if self._poller is None or self._poller_server is not server:
+            self._poller_server = server
             if isinstance(server, QtRPCServer):
                 self._poller = 'qt'
             else:
-- 
2.43.0


From 7f3b6ac7b34f914fc4a07a2027f76d27eba138b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 34/56] fix: closing a client never forgets another client

---
 teleprox/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 1ce690c..a34628b 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -92,9 +92,10 @@ class RPCClient(object):
     def forget_client(client):
         """Forget a client that is no longer needed.
         """
-        key = (threading.current_thread().ident, client.address)
         with RPCClient.clients_by_thread_lock:
-            RPCClient.clients_by_thread.pop(key, None)
+            for key, cli in list(RPCClient.clients_by_thread.items()):
+                if cli is client:
+                    del RPCClient.clients_by_thread[key]
     
     def __init__(self, address, reentrant=True, start_local_server=False, serializer='msgpack', serialize_types=None):
         if isinstance(address, str):
-- 
2.43.0


From 513d1c9549c2fa70b523a6421397290345844d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:29 +0000
Subject: [PATCH 35/56] fix: a proxy returned to its owning server does not
 release its reference when auto_delete is a default option

---
 teleprox/serializer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 62e6f45..43692e1 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -190,12 +190,12 @@ class Serializer:
                 if 'attributes' in dct:
                     dct['attributes'] = tuple(dct['attributes'])
                 proxy = ObjectProxy(**dct)
-                if self._proxy_opts is not None:
-                    proxy._set_proxy_options(**self._proxy_opts)
                 if self.server is not None and proxy._rpc_addr == self.server.address:
                     return self.server.unwrap_proxy(proxy)
-                else:
-                    return proxy
+                # (options like auto_delete are only for proxies that stay proxies)
+                if self._proxy_opts is not None:
+                    proxy._set_proxy_options(**self._proxy_opts)
+                return proxy
         return dct
 
 
-- 
2.43.0


From 5e9a701ec0bea26c78329e9e95b3b717921da601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:58 +0000
Subject: [PATCH 36/56] fix: registering a server is one step for other threads

---
 teleprox/server.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index c0fe5c7..d7a6eac 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -106,24 +106,24 @@ class RPCServer(object):
         this thread.
         """
         key = threading.current_thread().ident
-        if srv._thread == key:
-            return
-        assert srv._thread is None, "Server has already been registered."
         with RPCServer.servers_by_thread_lock:
+            if srv._thread == key:
+                return
+            assert srv._thread is None, "Server has already been registered."
             if key in RPCServer.servers_by_thread:
                 raise KeyError("An RPCServer is already running in this thread.")
             RPCServer.servers_by_thread[key] = srv
-        srv._thread = key
+            srv._thread = key
 
     @staticmethod
     def unregister_server(srv):
         """Unregister a server from this thread.
         """
-        key = srv._thread
         with RPCServer.servers_by_thread_lock:
+            key = srv._thread
             assert RPCServer.servers_by_thread[key] is srv
             RPCServer.servers_by_thread.pop(key)
-        srv._thread = None
+            srv._thread = None
 
     @staticmethod
     def local_client():
-- 
2.43.0


From 576476d709857fff7f535dbdd33804b6fd2e25fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:12 +0000
Subject: [PATCH 37/56] fix: json serializer sends arrays by proxy when arrays
 are not serializable types

---
 teleprox/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/serializer.py b/teleprox/serializer.py
index 43692e1..e6a02be 100644
--- a/teleprox/serializer.py
+++ b/teleprox/serializer.py
@@ -295,7 +295,7 @@ class JsonSerializer(Serializer):
         return json.loads(msg.decode(), object_hook=self.decode)
 
     def encode(self, obj):
-        if HAVE_NUMPY and isinstance(obj, np.ndarray):
+        if HAVE_NUMPY and isinstance(obj, np.ndarray) and isinstance(obj, self._serialize_types):
             # JSON doesn't support bytes, so we use base64 encoding instead:
             if not obj.flags['C_CONTIGUOUS']:
                 obj = np.ascontiguousarray(obj)
-- 
2.43.0


From 348e0e9b0a365e276efe15ea4f084ebeb828b09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 38/56] fix: start_process(shell=True) quotes the arguments of
 the child for the shell

---
 teleprox/process.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index b7ffb13..32bdb6a 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -4,6 +4,7 @@
 
 import sys
 import json
+import shlex
 import subprocess
 import atexit
 from teleprox.log.remote import get_process_name, set_thread_name
@@ -26,6 +27,10 @@ logger = logging.getLogger(__name__)
 PROCESS_NAME_PREFIX = ''
 
 
+def _quote_windows(arg):
+    return subprocess.list2cmdline([arg])
+
+
 def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=None, 
                  log_level=None, log_stdio=None, executable=None, shell=False, conda_env=None, 
                  serializer='msgpack', start_local_server=False, daemon=False,
@@ -174,13 +179,17 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
 
     # note: the -u flag is used to force unbuffered stdout/stderr so that all
     # output is captured in real time.
-    cmd = (executable, '-u', '-m', 'teleprox.bootstrap') + tuple(bootstrap_args)
-
+    launcher = ()
     if conda_env is not None:
-        cmd = ('conda', 'run', '--no-capture-output', '-n', conda_env) + cmd
-    
+        launcher = ('conda', 'run', '--no-capture-output', '-n', conda_env)
+    args = ('-u', '-m', 'teleprox.bootstrap') + tuple(bootstrap_args)
+
     if shell is True:
-        cmd = ' '.join(cmd)
+        # executable may be any shell expression; all other words must reach the child unchanged
+        quote = _quote_windows if sys.platform == 'win32' else shlex.quote
+        cmd = ' '.join([quote(arg) for arg in launcher] + [executable] + [quote(arg) for arg in args])
+    else:
+        cmd = launcher + (executable,) + args
 
     popen_kwargs = {
         'stdin': stdin or subprocess.DEVNULL,
-- 
2.43.0


From 7bb071538ecaf1c9dd08a2630838a631b0a594c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 39/56] fix: start_process(stdin=0) gives the child that file
 descriptor

---
 teleprox/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 32bdb6a..6269efe 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -192,7 +192,7 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
         cmd = launcher + (executable,) + args
 
     popen_kwargs = {
-        'stdin': stdin or subprocess.DEVNULL,
+        'stdin': subprocess.DEVNULL if stdin is None else stdin,
         'stdout': stdout,
         'stderr': stderr,
         'shell': shell,
-- 
2.43.0


From e3216ca669f0aef86d88c6c63746123b3d8116ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 40/56] fix: ChildProcess.wait(timeout=None) waits without
 limit also when communicate() fails

---
 teleprox/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 6269efe..157a902 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -320,7 +320,7 @@ class ChildProcess:
             rcode = self.proc.poll()
             if rcode is not None:
                 return rcode
-            if time.time() - start > timeout:
+            if timeout is not None and time.time() - start > timeout:
                 raise TimeoutError("Timed out waiting on process exit for %s" % self.name)
             time.sleep(sleep)
             sleep = min(sleep*2, 100e-3)
-- 
2.43.0


From 4cf7c87c8ad3eb799422190c3dc8bad4618f66c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 41/56] fix: a timer started again while it runs keeps running,
 also at that very moment

start() between the two reads of the last call time ended the timer with a
TypeError, and a restart from within the last callback was lost because that
callback was counted after it.
---
 teleprox/timer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/teleprox/timer.py b/teleprox/timer.py
index 1d3c71d..cf04d33 100644
--- a/teleprox/timer.py
+++ b/teleprox/timer.py
@@ -64,10 +64,11 @@ class Timer(object):
                 callback = callback._copy()
             
             while True:
-                if self._last_call_time is None:
+                last_call_time = self._last_call_time  # may be reset by start() at any time
+                if last_call_time is None:
                     sleep_time = 0
                 else:
-                    sleep_time = self.interval - (time.perf_counter() - self._last_call_time)
+                    sleep_time = self.interval - (time.perf_counter() - last_call_time)
                 
                 if sleep_time > 0:
                     time.sleep(sleep_time)
@@ -77,11 +78,11 @@ class Timer(object):
                         self._ended()
                         return
                     self._last_call_time = time.perf_counter()
+                    self._call_count += 1
                     
                 callback()
                 
                 with self._lock:
-                    self._call_count += 1
                     if self._limit_reached():
                         self._ended()
                         return
-- 
2.43.0


From 1294ba17f6871e46a872ccf9d03ddf7b5e9bf0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 42/56] fix: a log sender is attached to its logger only when
 it can handle records

Another thread logging while the sender was being created got an AttributeError.
---
 teleprox/log/remote.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index 43dd77e..33a911c 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -159,12 +159,6 @@ class LogSender(logging.Handler):
         self.socket = None
         logging.Handler.__init__(self)
         
-        # attach to logger if requested
-        if isinstance(logger, str):
-            logger = logging.getLogger(logger)
-        if logger is not None:
-            logger.addHandler(self)
-
         # make thread-safe: handle() may be called from any thread
         # and log records are passed to the server in a background thread.
         self.record_queue = queue.Queue()
@@ -174,6 +168,12 @@ class LogSender(logging.Handler):
         if address is not None:
             self.connect(address)
             
+        # attach to logger if requested (only now; any thread may log from here on)
+        if isinstance(logger, str):
+            logger = logging.getLogger(logger)
+        if logger is not None:
+            logger.addHandler(self)
+
         atexit.register(self.close)
 
     def handle(self, record):
-- 
2.43.0


From 569d75ed26dd02a8be775762fe6d401fcfebdb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 43/56] fix: a log record with a huge integer attribute does
 not end the log sender

json cannot convert integers of more than 4300 digits (nor other values that
even the fallback passed on as they were).
---
 teleprox/log/remote.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index 33a911c..6de3e6c 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -122,8 +122,12 @@ def _safe_repr(obj):
         return '<%s object>' % type(obj).__name__
 
 
-def _is_plain(obj):
-    return obj is None or isinstance(obj, (bool, int, float, str))
+def _sendable(obj):
+    try:
+        json.dumps(obj, default=_safe_repr)
+        return obj
+    except Exception:
+        return _safe_repr(obj)
 
 
 def _exception_text(exc_info):
@@ -211,7 +215,7 @@ class LogSender(logging.Handler):
             data = json.dumps(rec, default=_safe_repr)
         except Exception:
             # extra attributes that cannot be converted even with the help of repr()
-            data = json.dumps({k: v if _is_plain(v) else _safe_repr(v) for k, v in rec.items()})
+            data = json.dumps({k: _sendable(v) for k, v in rec.items()}, default=_safe_repr)
         self.socket.send(data.encode('utf-8'))
         
     def connect(self, addr):
-- 
2.43.0


From 995109825b3dcaaee7b18a27811721180dcfe345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 44/56] fix: a forwarded log record has the message and names
 of the time it was logged

It was formatted by the background thread, when its arguments or the name of
its thread may have changed already.
---
 teleprox/log/remote.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index 6de3e6c..af09590 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -181,20 +181,20 @@ class LogSender(logging.Handler):
         atexit.register(self.close)
 
     def handle(self, record):
-        self.record_queue.put(record)
+        # convert right here; the arguments may change before the record is sent
+        self.record_queue.put(self._convert(record))
         return True
 
     def run(self):
         while True:
-            record = self.record_queue.get()
-            if record is None:
+            data = self.record_queue.get()
+            if data is None:
                 break
-            self._handle(record)
+            if self.socket is not None:
+                self.socket.send(data)
 
-    def _handle(self, record):
+    def _convert(self, record):
         global host_name, process_name, thread_names
-        if self.socket is None:
-            return
         rec = record.__dict__.copy()
         rec.pop('args')
         try:
@@ -216,7 +216,7 @@ class LogSender(logging.Handler):
         except Exception:
             # extra attributes that cannot be converted even with the help of repr()
             data = json.dumps({k: _sendable(v) for k, v in rec.items()}, default=_safe_repr)
-        self.socket.send(data.encode('utf-8'))
+        return data.encode('utf-8')
         
     def connect(self, addr):
         """Set the address of the LogServer to which log messages should be
-- 
2.43.0


From 3d52c81e506604a3ca411574a44032eb62cd7307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 45/56] fix: a log server goes on if a handler fails

---
 teleprox/log/remote.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index af09590..bf8827c 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -297,9 +297,13 @@ class LogServer(threading.Thread):
             if self.socket not in events:
                 continue
             msg = self.socket.recv()
-            kwds = json.loads(msg)
-            rec = logging.makeLogRecord(kwds)
-            if self.filter_by_level and rec.levelno < self.logger.getEffectiveLevel():
-                continue
-            self.logger.handle(rec)
+            try:
+                kwds = json.loads(msg)
+                rec = logging.makeLogRecord(kwds)
+                if self.filter_by_level and rec.levelno < self.logger.getEffectiveLevel():
+                    continue
+                self.logger.handle(rec)
+            except Exception:
+                # a record that cannot be handled must not keep others from being handled
+                traceback.print_exc()
         self.socket.close()
-- 
2.43.0


From d90bdf561db7a44c6558e1813291b65affba8973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 46/56] fix: connecting a log sender to another server cannot
 end its thread

The socket was closed by connect() while the background thread might be using
it; also, records logged before went to the new server.
---
 teleprox/log/remote.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/teleprox/log/remote.py b/teleprox/log/remote.py
index bf8827c..e13b96c 100644
--- a/teleprox/log/remote.py
+++ b/teleprox/log/remote.py
@@ -187,11 +187,16 @@ class LogSender(logging.Handler):
 
     def run(self):
         while True:
-            data = self.record_queue.get()
-            if data is None:
+            item = self.record_queue.get()
+            if item is None:
                 break
-            if self.socket is not None:
-                self.socket.send(data)
+            if isinstance(item, zmq.Socket):
+                # connect() was called; only this thread may use the sockets
+                if self.socket is not None:
+                    self.socket.close()
+                self.socket = item
+            elif self.socket is not None:
+                self.socket.send(item)
 
     def _convert(self, record):
         global host_name, process_name, thread_names
@@ -223,12 +228,10 @@ class LogSender(logging.Handler):
         sent. This value should be acquired from `log_server.address` or
         `get_logger_address()`.
         """
-        if self.socket is not None:
-            self.socket.close()
-
-        self.socket = zmq.Context.instance().socket(zmq.PUSH)
-        self.socket.linger = 1000  # don't let socket deadlock when exiting
-        self.socket.connect(addr)
+        socket = zmq.Context.instance().socket(zmq.PUSH)
+        socket.linger = 1000  # don't let socket deadlock when exiting
+        socket.connect(addr)
+        self.record_queue.put(socket)
 
     def close(self):
         # if this socket is left open when the process exits, it can lead to
-- 
2.43.0


From 3dc0599e170cf7cc6bfc0ab4ec791b8806ba8717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:02 +0000
Subject: [PATCH 47/56] fix: find processes by all of their command line, also
 if COLUMNS is set

---
 teleprox/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/util.py b/teleprox/util.py
index b2c210f..383180e 100644
--- a/teleprox/util.py
+++ b/teleprox/util.py
@@ -45,7 +45,7 @@ def find_procs(search):
     """
     if sys.platform == 'linux':
         import subprocess
-        processes = subprocess.check_output(['ps', '-e', '-o', 'pid,command']).decode('utf-8').split('\n')
+        processes = subprocess.check_output(['ps', '-e', '-ww', '-o', 'pid,command']).decode('utf-8').split('\n')
         found_procs = []
         for line in processes:
             pid, _, cmd = line.lstrip().partition(' ')
-- 
2.43.0


From 115d280abce391f95b33dced39c5a288858e8cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 48/56] fix: records of levels above CRITICAL are printed in
 color too

---
 teleprox/log/handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teleprox/log/handler.py b/teleprox/log/handler.py
index 27eeb12..4567939 100644
--- a/teleprox/log/handler.py
+++ b/teleprox/log/handler.py
@@ -98,7 +98,8 @@ class RPCLogHandler(logging.StreamHandler):
         
         message = logging.StreamHandler.format(self, record)
         if HAVE_COLORAMA:
-            ind = record.levelno // 10 * 10  # decrease to multiple of 10
+            # decrease to multiple of 10 within the known levels
+            ind = min(max(record.levelno // 10 * 10, 0), logging.CRITICAL)
             message = _level_color_map[ind] + message + colorama.Style.RESET_ALL
             
         return header + ' ' + message
-- 
2.43.0


From 46778e2e21d5509584dd70670e99ed64bc788acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 49/56] fix: a log record that cannot be printed does not take
 others with it

---
 teleprox/log/handler.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/teleprox/log/handler.py b/teleprox/log/handler.py
index 4567939..4ea2a9a 100644
--- a/teleprox/log/handler.py
+++ b/teleprox/log/handler.py
@@ -88,8 +88,7 @@ class RPCLogHandler(logging.StreamHandler):
                 with self.record_lock:
                     while len(self.records) > 0 and self.records[0].created < limit:
                         recs.append(self.records.pop(0))
-                for rec in recs:
-                    logging.StreamHandler.emit(self, rec)
+                self._print_records(recs)
             if len(recs) == 0:
                 time.sleep(0.2)
 
@@ -123,8 +122,15 @@ class RPCLogHandler(logging.StreamHandler):
             with self.record_lock:
                 recs = self.records[:]
                 self.records = []
-            for rec in recs:
+            self._print_records(recs)
+
+    def _print_records(self, recs):
+        for rec in recs:
+            try:
                 logging.StreamHandler.emit(self, rec)
+            except Exception:
+                # one record that cannot be printed must not take the others with it
+                self.handleError(rec)
 
 
 _sys_excepthook = None
-- 
2.43.0


From fab08c3a70f0e5aa306da2e60323fc49f7818221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 50/56] fix: shared arrays of text, bytes and void start out as
 zeros, like those of numpy.zeros

fill(0) wrote the text '0' into them, or failed.
---
 teleprox/shmem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/teleprox/shmem.py b/teleprox/shmem.py
index 7694f45..e1a83b9 100644
--- a/teleprox/shmem.py
+++ b/teleprox/shmem.py
@@ -52,7 +52,7 @@ class SharedNDArray:
         nbytes = int(np.prod(shape)) * np.dtype(dtype).itemsize
         shmem = mp_shm.SharedMemory(create=True, size=max(1, nbytes))
         data = np.ndarray(shape, dtype=dtype, buffer=shmem.buf)
-        data.fill(0)
+        data[...] = np.zeros((), dtype=data.dtype)
         return cls(shmem, data, close)
     
     @classmethod
-- 
2.43.0


From cb0f756e37fbaf1bfe221b7e8c79c3fc2439acec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 51/56] fix: close_all() unlinks all of its shared memory even
 if the buffer of some block is still in use

---
 teleprox/shmem.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/teleprox/shmem.py b/teleprox/shmem.py
index e1a83b9..ae0a857 100644
--- a/teleprox/shmem.py
+++ b/teleprox/shmem.py
@@ -75,7 +75,10 @@ class SharedNDArray:
 def close_all():
     global all_shmem
     for shmem in all_shmem:
-        shmem.close()
+        try:
+            shmem.close()
+        except BufferError:
+            pass  # something still refers to the buffer
         try:
             shmem.unlink()
         except FileNotFoundError:
-- 
2.43.0


From fb57305c4f698b57afdc69a24be3eae20603b89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:56 +0000
Subject: [PATCH 52/56] fix: replies to clients that are slow to read are never
 dropped

---
 teleprox/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/teleprox/server.py b/teleprox/server.py
index d7a6eac..b6deb1e 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -144,6 +144,9 @@ class RPCServer(object):
         # on exit)
         self._socket.linger = 5000
         
+        # never drop replies to clients that are slow to read them
+        self._socket.sndhwm = 0
+
         self._socket.bind(address)
         #: The zmq address where this server is listening (e.g. 'tcp:///127.0.0.1:5678')
         self.address = self._socket.getsockopt(zmq.LAST_ENDPOINT)
-- 
2.43.0


From 66eb3310b00f2f5697087db015ad9e2134c8bf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:20 +0000
Subject: [PATCH 53/56] fix: clients have unique names, also those of processes
 with equal names or after another client was closed

---
 teleprox/client.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index a34628b..2706b76 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -8,6 +8,7 @@ import sys
 import time
 import weakref
 import concurrent.futures
+import uuid
 import threading
 from teleprox.util import check_tcp_port
 import zmq
@@ -101,9 +102,11 @@ class RPCClient(object):
         if isinstance(address, str):
             address = address.encode()
 
-        # pick a unique name: host.pid.tid:rpc_addr
-        self.name = ("%s.%s.%s:%s" % (log.get_host_name(), log.get_process_name(),
-                                      log.get_thread_name(), address.decode())).encode()
+        # pick a unique name: host.pid.tid:rpc_addr:id
+        # (servers can only tell clients apart by this name, and processes and threads
+        # may have equal names; also a client that was closed before must not be mistaken for this one)
+        self.name = ("%s.%s.%s:%s:%s" % (log.get_host_name(), log.get_process_name(),
+                                         log.get_thread_name(), address.decode(), uuid.uuid4().hex)).encode()
         
         self.serialize_types = serialize_types
 
-- 
2.43.0


From 16a253dc15c71a3f276e3db69078bdac588d9b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:21 +0000
Subject: [PATCH 54/56] fix: start_process failed when the process name looked
 like a command line option

---
 teleprox/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/teleprox/process.py b/teleprox/process.py
index 157a902..d1141c6 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -153,8 +153,6 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
     
     # Spawn new process
     bootstrap_args = []
-    if name is not None:
-        bootstrap_args = [name] + bootstrap_args
     if qt is True:
         bootstrap_args.append('--qt')
     if daemon is True:
@@ -170,6 +168,8 @@ def start_process(name=None, address="tcp://127.0.0.1:*", qt=False, log_addr=Non
         bootstrap_args.append(
             f'--child_name_prefix={PROCESS_NAME_PREFIX}'
         )
+    # last of all, because names may look like options
+    bootstrap_args.extend(['--', name])
     
     if executable is None:
         if conda_env is None:
-- 
2.43.0


From f4538d9a0de39c63aab7c667a98e96abbaa65d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:02 +0000
Subject: [PATCH 55/56] fix: a close request that could not be read closed the
 server socket but left the server running

---
 teleprox/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/teleprox/server.py b/teleprox/server.py
index b6deb1e..9504cb7 100644
--- a/teleprox/server.py
+++ b/teleprox/server.py
@@ -327,7 +327,8 @@ class RPCServer(object):
             # Instead we will dump the exception here.
             sys.excepthook(*exc)
             
-        if action == 'close':
+        # (a close request that could not be read has not closed anything)
+        if action == 'close' and not self.running():
             self._final_close()
     
     def _send_error(self, caller, req_id, exc):
-- 
2.43.0


From 0c839151ece9877c982fc8ba8a8960cd1822217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:47 +0000
Subject: [PATCH 56/56] fix: waiting for a process or for a connection gave up
 early, or never, when the system clock was set

---
 teleprox/client.py  | 4 ++--
 teleprox/process.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/teleprox/client.py b/teleprox/client.py
index 2706b76..6cfd147 100644
--- a/teleprox/client.py
+++ b/teleprox/client.py
@@ -442,8 +442,8 @@ class RPCClient(object):
             return
         self.establishing_connect = True
         try:
-            start = time.time()
-            while time.time() < start + timeout:
+            start = time.perf_counter()
+            while time.perf_counter() < start + timeout:
                 fut = self.ping(sync='async')
                 try:
                     result = fut.result(timeout=0.1)
diff --git a/teleprox/process.py b/teleprox/process.py
index d1141c6..170f6b6 100644
--- a/teleprox/process.py
+++ b/teleprox/process.py
@@ -296,7 +296,7 @@ class ChildProcess:
     def wait(self, timeout=10):
         """Wait for the process to exit and return its return code.
         """
-        start = time.time()
+        start = time.perf_counter()
 
         # Using proc.wait() can deadlock; use communicate() instead.
         # see: https://docs.python.org/2/library/subprocess.html#subprocess.Popen.wait
@@ -320,7 +320,7 @@ class ChildProcess:
             rcode = self.proc.poll()
             if rcode is not None:
                 return rcode
-            if timeout is not None and time.time() - start > timeout:
+            if timeout is not None and time.perf_counter() - start > timeout:
                 raise TimeoutError("Timed out waiting on process exit for %s" % self.name)
             time.sleep(sleep)
             sleep = min(sleep*2, 100e-3)
-- 
2.43.0

