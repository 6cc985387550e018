From 6a5b3e2166a34a27caf5f8d0be89f83e12071966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 01/28] fix: subscription intersection with '*' and
 unsatisfiable branches

'*' matches zero segments, so node with '*' child is implicitly leaf.
Branches without leafs are removed so that they don't influence isdisjoint.
---
 src_py/hat/event/common/subscription/common.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/common/subscription/common.py b/src_py/hat/event/common/subscription/common.py
index ef26946..8d6bd76 100644
--- a/src_py/hat/event/common/subscription/common.py
+++ b/src_py/hat/event/common/subscription/common.py
@@ -80,7 +80,9 @@ def union(first: Node, second: Node) -> Node:
 
 
 def intersection(first: Node, second: Node) -> Node:
-    is_leaf = first.is_leaf and second.is_leaf
+    # '*' includes zero segments
+    is_leaf = ((first.is_leaf or '*' in first.children) and
+               (second.is_leaf or '*' in second.children))
 
     if '*' in first.children:
         children = second.children
@@ -112,6 +114,10 @@ def intersection(first: Node, second: Node) -> Node:
             for other_name, other_child in candidates.items():
                 result_name = name if name != '?' else other_name
                 result_children = intersection(child, other_child)
+                if (not result_children.is_leaf and
+                        not result_children.children):
+                    continue
+
                 prev_result_children = children.get(result_name)
                 children[result_name] = (
                     union(prev_result_children, result_children)
-- 
2.43.0


From 084ea8c4a34631ffc646279b6c52a7d28082e635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 02/28] fix: event type collection ignoring query types of
 already added value

---
 src_py/hat/event/common/collection/pytree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/common/collection/pytree.py b/src_py/hat/event/common/collection/pytree.py
index cb37721..c57839d 100644
--- a/src_py/hat/event/common/collection/pytree.py
+++ b/src_py/hat/event/common/collection/pytree.py
@@ -26,7 +26,7 @@ class PyTreeEventTypeCollection(common.EventTypeCollection):
                 node = node.children[head]
 
             if value in node.values:
-                return
+                continue
 
             node.values.add(value)
             self._value_nodes[value].append(node)
-- 
2.43.0


From 147b3af8d2e9344a44220322fd297726230d8ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 03/28] fix: timestamp_from_datetime for whole seconds before
 1970 and far future

---
 src_py/hat/event/common/encoder.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src_py/hat/event/common/encoder.py b/src_py/hat/event/common/encoder.py
index 6ead782..5111565 100644
--- a/src_py/hat/event/common/encoder.py
+++ b/src_py/hat/event/common/encoder.py
@@ -107,12 +107,11 @@ def timestamp_from_datetime(dt: datetime.datetime) -> Timestamp:
     if not dt.tzinfo:
         dt = dt.replace(tzinfo=datetime.timezone.utc)
 
-    s = int(dt.timestamp())
+    # integer arithmetic - `dt.timestamp()` is not precise enough
+    delta = dt - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)
 
-    if dt.timestamp() < 0:
-        s = s - 1
-
-    return Timestamp(s=s, us=dt.microsecond)
+    return Timestamp(s=delta.days * 24 * 60 * 60 + delta.seconds,
+                     us=delta.microseconds)
 
 
 def timestamp_to_sbs(t: Timestamp) -> sbs.Data:
-- 
2.43.0


From e268c4ab00e8bca3246d8a1199f0598a5a498fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:59 +0000
Subject: [PATCH 04/28] fix: merge cached and stored events in LMDB time series
 queries

Cached events were returned before (or after) stored ones in order of
registration, and time bounds were applied as if they were sorted, so the
answer depended on flushing whenever events of several servers or source
timestamps are not registered in order.
---
 .../hat/event/backends/lmdb/timeseriesdb.py   | 118 ++++++------------
 1 file changed, 36 insertions(+), 82 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/timeseriesdb.py b/src_py/hat/event/backends/lmdb/timeseriesdb.py
index 0d2210c..49d4fd1 100644
--- a/src_py/hat/event/backends/lmdb/timeseriesdb.py
+++ b/src_py/hat/event/backends/lmdb/timeseriesdb.py
@@ -1,6 +1,7 @@
 from collections.abc import Iterable
 import collections
 import functools
+import heapq
 import itertools
 import typing
 
@@ -149,9 +150,6 @@ class TimeseriesDb:
 
     async def _query_partition(self, partition_id, params, subscription,
                                max_results):
-        events = collections.deque()
-        changes = self._changes
-
         filter = _Filter(subscription=subscription,
                          t_from=params.t_from,
                          t_to=params.t_to,
@@ -160,26 +158,12 @@ class TimeseriesDb:
                          max_results=max_results + 1,
                          last_event_id=params.last_event_id)
 
-        if params.order == common.Order.DESCENDING:
-            events.extend(_query_partition_changes(
-                changes[partition_id], params, filter))
-
-            if not filter.done:
-                events.extend(await self._env.execute(
-                    _ext_query_partition_events, self._env, self._conditions,
-                    partition_id, params, filter))
-
-        elif params.order == common.Order.ASCENDING:
-            events.extend(await self._env.execute(
-                _ext_query_partition_events, self._env, self._conditions,
-                partition_id, params, filter))
-
-            if not filter.done:
-                events.extend(_query_partition_changes(
-                    changes[partition_id], params, filter))
+        changes = _query_partition_changes(
+            self._changes.get(partition_id, []), params)
 
-        else:
-            raise ValueError('unsupported order')
+        events = await self._env.execute(
+            _ext_query_partition_events, self._env, self._conditions,
+            partition_id, params, filter, changes)
 
         more_follows = len(events) > max_results
         while len(events) > max_results:
@@ -227,7 +211,7 @@ def _ext_init_partitions(env, txn, partitions):
 
 
 def _ext_query_partition_events(env, conditions, partition_id, params,
-                                filter):
+                                filter, changes):
     if params.order_by == common.OrderBy.TIMESTAMP:
         events = _ext_query_partition_events_range(
             env, partition_id, params.t_from, params.t_to, params.order)
@@ -241,6 +225,9 @@ def _ext_query_partition_events(env, conditions, partition_id, params,
         raise ValueError('unsupported order by')
 
     events = (event for event in events if conditions.matches(event))
+    events = heapq.merge(events, changes,
+                         key=_get_event_sort_key(params.order_by),
+                         reverse=params.order == common.Order.DESCENDING)
     events = filter.process(events)
     return collections.deque(events)
 
@@ -393,65 +380,36 @@ def _ext_cleanup_partition(env, txn, now, partition_id, limit, max_results):
                                  entries_count - result_count)
 
 
-def _query_partition_changes(changes, params, filter):
-    if params.order == common.Order.DESCENDING:
-        events = (event for _, event in reversed(changes))
-
-        if (params.order_by == common.OrderBy.TIMESTAMP and
-                params.t_to is not None):
-            events = itertools.dropwhile(
-                lambda i: params.t_to < i.timestamp,
-                events)
-
-        elif (params.order_by == common.OrderBy.SOURCE_TIMESTAMP and
-                params.source_t_to is not None):
-            events = itertools.dropwhile(
-                lambda i: params.source_t_to < i.source_timestamp,
-                events)
-
-        if (params.order_by == common.OrderBy.TIMESTAMP and
-                params.t_from is not None):
-            events = itertools.takewhile(
-                lambda i: params.t_from <= i.timestamp,
-                events)
-
-        elif (params.order_by == common.OrderBy.SOURCE_TIMESTAMP and
-                params.source_t_from is not None):
-            events = itertools.takewhile(
-                lambda i: params.source_t_from <= i.source_timestamp,
-                events)
-
-    elif params.order == common.Order.ASCENDING:
-        events = (event for _, event in changes)
-
-        if (params.order_by == common.OrderBy.TIMESTAMP and
-                params.t_from is not None):
-            events = itertools.dropwhile(
-                lambda i: i.timestamp < params.t_from,
-                events)
-
-        elif (params.order_by == common.OrderBy.SOURCE_TIMESTAMP and
-                params.source_t_from is not None):
-            events = itertools.dropwhile(
-                lambda i: i.source_timestamp < params.source_t_from,
-                events)
-
-        if (params.order_by == common.OrderBy.TIMESTAMP and
-                params.t_to is not None):
-            events = itertools.takewhile(
-                lambda i: i.timestamp <= params.t_to,
-                events)
-
-        elif (params.order_by == common.OrderBy.SOURCE_TIMESTAMP and
-                params.source_t_to is not None):
-            events = itertools.takewhile(
-                lambda i: i.source_timestamp <= params.source_t_to,
-                events)
+def _query_partition_changes(changes, params):
+    if params.order_by == common.OrderBy.TIMESTAMP:
+        t_from, t_to = params.t_from, params.t_to
+
+    elif params.order_by == common.OrderBy.SOURCE_TIMESTAMP:
+        t_from, t_to = params.source_t_from, params.source_t_to
 
     else:
+        raise ValueError('unsupported order by')
+
+    if params.order not in (common.Order.DESCENDING, common.Order.ASCENDING):
         raise ValueError('unsupported order')
 
-    return filter.process(events)
+    events = (event for timestamp, event in changes
+              if (t_from is None or t_from <= timestamp) and
+              (t_to is None or timestamp <= t_to))
+
+    return sorted(events,
+                  key=_get_event_sort_key(params.order_by),
+                  reverse=params.order == common.Order.DESCENDING)
+
+
+def _get_event_sort_key(order_by):
+    if order_by == common.OrderBy.TIMESTAMP:
+        return lambda event: (event.timestamp, event.id)
+
+    if order_by == common.OrderBy.SOURCE_TIMESTAMP:
+        return lambda event: (event.source_timestamp, event.id)
+
+    raise ValueError('unsupported order by')
 
 
 class _Filter:
@@ -472,10 +430,6 @@ class _Filter:
         self._max_results = max_results
         self._last_event_id = last_event_id
 
-    @property
-    def done(self):
-        return self._max_results < 1
-
     def process(self, events: Iterable[common.Event]):
         for event in events:
             if self._max_results < 1:
-- 
2.43.0


From e86f0f93087aa81c4f283094c023eb941b0f2d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:44 +0000
Subject: [PATCH 05/28] fix: compare values of LMDB JSON conditions as JSON
 values

Condition with boolean data_value was satisfied by a number equal to it in
Python (and vice versa).
---
 src_py/hat/event/backends/lmdb/conditions.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/backends/lmdb/conditions.py b/src_py/hat/event/backends/lmdb/conditions.py
index f1e3b77..1960524 100644
--- a/src_py/hat/event/backends/lmdb/conditions.py
+++ b/src_py/hat/event/backends/lmdb/conditions.py
@@ -93,7 +93,16 @@ class _JsonCondition:
                     return False
 
         if 'data_value' in self._conf:
-            if self._conf['data_value'] != data:
+            if not _json_equals(self._conf['data_value'], data):
                 return False
 
         return True
+
+
+def _json_equals(a, b):
+    try:
+        return json.equals(a, b)
+
+    except KeyError:
+        # objects with different keys
+        return False
-- 
2.43.0


From 7bc42194800e3dd40f03e050b817eac12ba150b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 06/28] fix: obsolete references in LMDB server queries

Reference to replaced latest event (possible after reopening with changed
configuration) resulted in event of another id being returned, and reference
without content in endless loop.
---
 src_py/hat/event/backends/lmdb/refdb.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/refdb.py b/src_py/hat/event/backends/lmdb/refdb.py
index 3441c45..5625d48 100644
--- a/src_py/hat/event/backends/lmdb/refdb.py
+++ b/src_py/hat/event/backends/lmdb/refdb.py
@@ -4,8 +4,6 @@ import typing
 
 import lmdb
 
-from hat import util
-
 from hat.event.backends.lmdb import common
 from hat.event.backends.lmdb import environment
 
@@ -194,15 +192,16 @@ def _ext_query_events(env, server_id, max_results, last_event_id):
             while (available and
                     len(events) < max_results and
                     bytes(cursor.key()) < encoded_stop_key):
+                event_id = db_def.decode_key(cursor.key())
                 value = db_def.decode_value(cursor.value())
-                ref = util.first(value)
-                if not ref:
-                    continue
 
-                event = _ext_get_event(env, txn, ref)
-                if event:
-                    # TODO decode key and check event_id == event.id
-                    events.append(event)
+                # reference to latest data is obsolete if it was replaced
+                # while previous event wasn't visible (configuration change)
+                for ref in value:
+                    event = _ext_get_event(env, txn, ref)
+                    if event and event.id == event_id:
+                        events.append(event)
+                        break
 
                 available = cursor.next()
 
-- 
2.43.0


From 0367420c2609caaacfe3b03d8801fc291ab89614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:10 +0000
Subject: [PATCH 07/28] fix: create LMDB databases in single transaction

---
 src_py/hat/event/backends/lmdb/common.py      |  5 +++--
 src_py/hat/event/backends/lmdb/environment.py | 17 +++++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/common.py b/src_py/hat/event/backends/lmdb/common.py
index 1e9aa78..eff866e 100644
--- a/src_py/hat/event/backends/lmdb/common.py
+++ b/src_py/hat/event/backends/lmdb/common.py
@@ -156,9 +156,10 @@ def ext_create_env(path: Path,
 
 def ext_open_db(env: lmdb.Environment,
                 db_type: DbType,
-                create: bool = True
+                create: bool = True,
+                txn: lmdb.Transaction | None = None
                 ) -> lmdb._Database:
-    return env.open_db(db_type.name.encode('utf-8'), create=create)
+    return env.open_db(db_type.name.encode('utf-8'), txn=txn, create=create)
 
 
 def _encode_uint(value):
diff --git a/src_py/hat/event/backends/lmdb/environment.py b/src_py/hat/event/backends/lmdb/environment.py
index a17c1b1..7b22a54 100644
--- a/src_py/hat/event/backends/lmdb/environment.py
+++ b/src_py/hat/event/backends/lmdb/environment.py
@@ -90,11 +90,16 @@ class Environment(aio.Resource):
         await self._executor.async_close()
 
     def _ext_init(self, db_path, max_size):
-        create = not db_path.exists()
-
         self._env = common.ext_create_env(path=db_path,
                                           max_size=max_size)
-        self._dbs = {db_type: common.ext_open_db(env=self._env,
-                                                 db_type=db_type,
-                                                 create=create)
-                     for db_type in common.DbType}
+
+        # all databases are created by single transaction - interrupted
+        # creation leaves empty environment
+        create = not self._env.stat()['entries']
+
+        with self._env.begin(write=True) as txn:
+            self._dbs = {db_type: common.ext_open_db(env=self._env,
+                                                     db_type=db_type,
+                                                     create=create,
+                                                     txn=txn)
+                         for db_type in common.DbType}
-- 
2.43.0


From 40453c64cc9581ffd669ac6da3a05feb2d7b1ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:26 +0000
Subject: [PATCH 08/28] fix: LMDB backend writing later events after failed
 flush

---
 src_py/hat/event/backends/lmdb/backend.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/backends/lmdb/backend.py b/src_py/hat/event/backends/lmdb/backend.py
index edad17f..ec6cba7 100644
--- a/src_py/hat/event/backends/lmdb/backend.py
+++ b/src_py/hat/event/backends/lmdb/backend.py
@@ -305,7 +305,13 @@ class LmdbBackend(common.Backend):
         #      (timeseries and ref must write changes before new queries are
         #      allowed)
 
-        await self._env.execute(_ext_flush, self._env, self._dbs, changes)
+        try:
+            await self._env.execute(_ext_flush, self._env, self._dbs, changes)
+
+        except Exception:
+            # later changes must not be written without these
+            self._env.close()
+            raise
 
         if not self._flushed_events_cb:
             return
-- 
2.43.0


From 106452a3d2a8dc1459e651942a6bc4e6af04bcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:32 +0000
Subject: [PATCH 09/28] fix: memory backend queries and last event id

---
 src_py/hat/event/backends/memory.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src_py/hat/event/backends/memory.py b/src_py/hat/event/backends/memory.py
index 464ccbe..46a2191 100644
--- a/src_py/hat/event/backends/memory.py
+++ b/src_py/hat/event/backends/memory.py
@@ -24,8 +24,8 @@ class MemoryBackend(common.Backend):
         return self._async_group
 
     async def get_last_event_id(self, server_id):
-        event_ids = (e.event_id for e in self._events
-                     if e.server == server_id)
+        event_ids = (e.id for e in self._events
+                     if e.id.server == server_id)
         default = common.EventId(server=server_id, session=0, instance=0)
         return max(event_ids, default=default)
 
@@ -89,9 +89,11 @@ class MemoryBackend(common.Backend):
             events = _filter_source_t_to(events, params.source_t_to)
 
         if params.order_by == common.OrderBy.TIMESTAMP:
-            sort_key = lambda event: event.timestamp, event  # NOQA
+            sort_key = lambda event: (event.timestamp, event.id)  # NOQA
         elif params.order_by == common.OrderBy.SOURCE_TIMESTAMP:
-            sort_key = lambda event: event.source_timestamp, event  # NOQA
+            events = (event for event in events
+                      if event.source_timestamp is not None)
+            sort_key = lambda event: (event.source_timestamp, event.id)  # NOQA
         else:
             raise ValueError('invalid order by')
 
@@ -122,11 +124,9 @@ class MemoryBackend(common.Backend):
     def _query_server(self, params):
         events = sorted(_filter_server_id(self._events, params.server_id))
 
-        if params.last_event_id and events:
-            for i, event in enumerate(events):
-                if event.id > params.last_event_id:
-                    break
-            events = events[i:]
+        if params.last_event_id:
+            events = [event for event in events
+                      if event.id > params.last_event_id]
 
         if params.max_results is not None and len(events) > params.max_results:
             more_follows = True
@@ -162,17 +162,19 @@ def _filter_t_to(events, t_to):
 
 def _filter_source_t_from(events, source_t_from):
     for event in events:
-        if event.source_timestamp >= source_t_from:
+        if (event.source_timestamp is not None and
+                event.source_timestamp >= source_t_from):
             yield event
 
 
 def _filter_source_t_to(events, source_t_to):
     for event in events:
-        if event.source_timestamp <= source_t_to:
+        if (event.source_timestamp is not None and
+                event.source_timestamp <= source_t_to):
             yield event
 
 
 def _filter_server_id(events, server_id):
     for event in events:
-        if event.event_id.server == server_id:
+        if event.id.server == server_id:
             yield event
-- 
2.43.0


From 4e7d4f87886e1e34caa29747111c8b474cf19873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:54 +0000
Subject: [PATCH 10/28] fix: module created while engine is closing was not
 closed

---
 src_py/hat/event/server/engine.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src_py/hat/event/server/engine.py b/src_py/hat/event/server/engine.py
index f7d779c..b2e2704 100644
--- a/src_py/hat/event/server/engine.py
+++ b/src_py/hat/event/server/engine.py
@@ -50,10 +50,7 @@ async def create_engine(backend: common.Backend,
                                    id=source_id)
 
             module = await engine.async_group.spawn(
-                aio.call, info.create, module_conf, engine, source)
-            engine.async_group.spawn(aio.call_on_cancel, module.async_close)
-            engine.async_group.spawn(aio.call_on_done, module.wait_closing(),
-                                     engine.close)
+                engine._create_module, info, module_conf, source)
 
             engine._source_modules.append((source, module))
 
@@ -108,6 +105,19 @@ class Engine(common.Engine):
     def reset_monitor_ready(self):
         self._reset_monitor_ready_cb()
 
+    async def _create_module(self, info, conf, source):
+        module = await aio.call(info.create, conf, self, source)
+
+        if not self.is_open:
+            await aio.uncancellable(module.async_close())
+            raise Exception('engine closed')
+
+        self.async_group.spawn(aio.call_on_cancel, module.async_close)
+        self.async_group.spawn(aio.call_on_done, module.wait_closing(),
+                               self.close)
+
+        return module
+
     async def _register_loop(self):
         future = None
         mlog.debug("starting register loop")
-- 
2.43.0


From 3589b7a0d00ce57311a93f3b014fba7c82b2ae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:44 +0000
Subject: [PATCH 11/28] fix: disconnected eventer client completing
 acknowledgements of other clients

---
 src_py/hat/event/eventer/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/eventer/server.py b/src_py/hat/event/eventer/server.py
index 2b989dd..dd2da05 100644
--- a/src_py/hat/event/eventer/server.py
+++ b/src_py/hat/event/eventer/server.py
@@ -202,8 +202,8 @@ class Server(aio.Resource):
             conn.close()
             self._conn_infos.pop(conn, None)
 
-            for future in self._conn_conv_futures.values():
-                if not future.done():
+            for (future_conn, _), future in self._conn_conv_futures.items():
+                if future_conn is conn and not future.done():
                     future.set_exception(ConnectionError())
 
             if self._disconnected_cb and info:
-- 
2.43.0


From 641744a9ff2cde174561b09338f461cb80d2141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:10 +0000
Subject: [PATCH 12/28] fix: standby server announcing stopping when engine
 runner is closed

---
 src_py/hat/event/server/engine_runner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/server/engine_runner.py b/src_py/hat/event/server/engine_runner.py
index a38a166..4f634bb 100644
--- a/src_py/hat/event/server/engine_runner.py
+++ b/src_py/hat/event/server/engine_runner.py
@@ -31,6 +31,7 @@ class EngineRunner(aio.Resource):
         self._reset_monitor_ready_cb = reset_monitor_ready_cb
         self._async_group = aio.Group()
         self._engine = None
+        self._standby = True
         self._restart = asyncio.Event()
 
         self.async_group.spawn(self._run)
@@ -67,6 +68,7 @@ class EngineRunner(aio.Resource):
 
                 self._restart.clear()
 
+                self._standby = False
                 await self._eventer_server.set_status(common.Status.STARTING,
                                                       None)
 
@@ -104,7 +106,9 @@ class EngineRunner(aio.Resource):
         if self._engine:
             self._engine.close()
 
-        await self._eventer_server.set_status(common.Status.STOPPING, None)
+        if not self._standby:
+            await self._eventer_server.set_status(common.Status.STOPPING,
+                                                  None)
 
         if self._engine:
             await self._engine.async_close()
@@ -115,6 +119,7 @@ class EngineRunner(aio.Resource):
         # await self._eventer_server.notify_events([], True, True)
 
         await self._eventer_server.set_status(common.Status.STANDBY, None)
+        self._standby = True
 
     async def _wait_while_remote_active(self):
         if not self._eventer_client_runner:
-- 
2.43.0


From 8246e1cff64eaaccdff5d69d7af61cb8aa1ecd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:47 +0000
Subject: [PATCH 13/28] fix: registration refused by closing engine ending
 eventer connection

---
 src_py/hat/event/server/eventer_server.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/server/eventer_server.py b/src_py/hat/event/server/eventer_server.py
index f3c79e8..d6d3287 100644
--- a/src_py/hat/event/server/eventer_server.py
+++ b/src_py/hat/event/server/eventer_server.py
@@ -87,7 +87,12 @@ class EventerServer(aio.Resource):
 
         source = _get_source(info.id)
         register_event = self._create_eventer_event(info, 'CONNECTED')
-        await self._engine.register(source, [register_event])
+
+        try:
+            await self._engine.register(source, [register_event])
+
+        except Exception as e:
+            mlog.warning("register connected event error: %s", e, exc_info=e)
 
     async def _on_disconnected(self, info):
         if not self._engine or not self._engine.is_open:
@@ -102,7 +107,12 @@ class EventerServer(aio.Resource):
             return
 
         source = _get_source(info.id)
-        return await self._engine.register(source, register_events)
+
+        try:
+            return await self._engine.register(source, register_events)
+
+        except Exception as e:
+            mlog.warning("register error: %s", e, exc_info=e)
 
     async def _on_query(self, info, params):
         return await self._backend.query(params)
-- 
2.43.0


From 1654959c21032cf00c7f95dff80169937c66fa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:04 +0000
Subject: [PATCH 14/28] fix: repeated registration of events notified after
 synchronization query

---
 src_py/hat/event/server/eventer_client.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src_py/hat/event/server/eventer_client.py b/src_py/hat/event/server/eventer_client.py
index a65c6ea..9cc172c 100644
--- a/src_py/hat/event/server/eventer_client.py
+++ b/src_py/hat/event/server/eventer_client.py
@@ -49,6 +49,7 @@ async def create_eventer_client(addr: tcp.Address,
     client._synced_cb = synced_cb
     client._synced = None
     client._events_queue = collections.deque()
+    client._last_event_id = None
 
     client._client = await eventer.connect(addr=addr,
                                            client_name=client_name,
@@ -118,6 +119,14 @@ class EventerClient(aio.Resource):
             self._events_queue.append(events)
             return
 
+        await self._register_notified(events)
+
+    async def _register_notified(self, events):
+        # notification can be sent after events are already obtained by query
+        events = [event for event in events if event.id > self._last_event_id]
+        if not events:
+            return
+
         await self._backend.register(events)
 
     async def _synchronize(self):
@@ -163,14 +172,11 @@ class EventerClient(aio.Resource):
             if events:
                 await self._backend.register(events)
 
+            self._last_event_id = last_event_id
+
             mlog.debug("processing cached notify events")
             while self._events_queue:
-                events = [event for event in self._events_queue.popleft()
-                          if event.id > last_event_id]
-                if not events:
-                    continue
-
-                await self._backend.register(events)
+                await self._register_notified(self._events_queue.popleft())
 
             self._events_queue = None
 
-- 
2.43.0


From 508890845c3140c6ed13f28fc99eacc24f422667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:40 +0000
Subject: [PATCH 15/28] fix: adminer client ignores responses to cancelled
 requests

Response received for already cancelled request closed client's connection
and failed all other pending requests.
---
 src_py/hat/event/adminer/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/adminer/client.py b/src_py/hat/event/adminer/client.py
index 1077b7e..b27225e 100644
--- a/src_py/hat/event/adminer/client.py
+++ b/src_py/hat/event/adminer/client.py
@@ -99,7 +99,7 @@ class Client(aio.Resource):
                 res_msg_type, future = self._conv_msg_type_futures.get(
                     msg.conv, (None, None))
                 if not future or future.done():
-                    return
+                    continue
 
                 if res_msg_type != msg_type:
                     raise Exception('invalid response message type')
-- 
2.43.0


From 25c0c4a443267ad0136aba2d15d53844ed042cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:19 +0000
Subject: [PATCH 16/28] fix: component runner creation interrupted by closing
 client or server change

Connection lost while runner_cb was pending ended the client loop without
reconnecting, and a runner whose creation finished while the active server
was changed was never closed.
---
 src_py/hat/event/component.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/component.py b/src_py/hat/event/component.py
index 7526480..e014f56 100644
--- a/src_py/hat/event/component.py
+++ b/src_py/hat/event/component.py
@@ -248,8 +248,10 @@ class Component(aio.Resource):
 
                 try:
                     mlog.debug("connected to server")
-                    runner = await client.async_group.spawn(
-                        aio.call, self._runner_cb, self, server_data, client)
+                    runner = await self._create_runner(server_data, client)
+                    if runner is None:
+                        await asyncio.sleep(self._reconnect_delay)
+                        continue
 
                     try:
                         async with async_group.create_subgroup() as subgroup:
@@ -282,3 +284,31 @@ class Component(aio.Resource):
 
         finally:
             async_group.close()
+
+    async def _create_runner(self, server_data, client):
+        try:
+            future = client.async_group.spawn(
+                aio.call, self._runner_cb, self, server_data, client)
+
+        except aio.GroupClosedError:
+            return
+
+        try:
+            await asyncio.wait([future])
+
+        except asyncio.CancelledError:
+            client.close()
+            await aio.uncancellable(self._close_created_runner(future))
+            raise
+
+        if future.cancelled():
+            mlog.debug("connection closed while creating runner")
+            return
+
+        return future.result()
+
+    async def _close_created_runner(self, future):
+        await asyncio.wait([future])
+
+        if not future.cancelled() and not future.exception():
+            await future.result().async_close()
-- 
2.43.0


From fc3b85f106c9db3bdd47654ec6e5f841bfd03da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:06 +0000
Subject: [PATCH 17/28] fix: manager register waits for response

Result of registration without response is always None, so the command
always failed.
---
 src_py/hat/event/manager/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index 9be0e81..ac84744 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -231,7 +231,8 @@ async def register(addr: tcp.Address,
                                    client_token=client_token)
 
     try:
-        result = await client.register([register_event])
+        result = await client.register([register_event],
+                                       with_response=True)
 
         if result is None:
             return 1
-- 
2.43.0


From 1f670ad8d11fcec122b497f6102fe003233bf2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:06 +0000
Subject: [PATCH 18/28] fix: manager server query parameters

---
 src_py/hat/event/manager/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index ac84744..b179101 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -180,7 +180,7 @@ def main():
                 last_event_id=args.last_event_id)
 
         elif args.query_type == 'server':
-            params = common.QueryTimeseriesParams(
+            params = common.QueryServerParams(
                 server_id=args.server_id,
                 persisted=args.persisted,
                 max_results=args.max_results,
-- 
2.43.0


From 8032da9a33fccab197b448266ba40e7d0454f376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:06 +0000
Subject: [PATCH 19/28] fix: manager parsing of last event id

---
 src_py/hat/event/manager/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index b179101..63d770f 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -306,7 +306,7 @@ def _parse_event_type(event_type):
 
 
 def _parse_event_id(event_id):
-    return common.EventId(event_id.split(','))
+    return common.EventId(*(int(i) for i in event_id.split(',')))
 
 
 def _parse_order(order):
-- 
2.43.0


From 7447bdd1a95f55b4fa306093f509599fd41d7a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:06 +0000
Subject: [PATCH 20/28] fix: manager order options rejected all values

---
 src_py/hat/event/manager/main.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src_py/hat/event/manager/main.py b/src_py/hat/event/manager/main.py
index 63d770f..7ccf3d1 100644
--- a/src_py/hat/event/manager/main.py
+++ b/src_py/hat/event/manager/main.py
@@ -84,13 +84,12 @@ def create_argument_parser() -> argparse.ArgumentParser:
         default=None,
         help="to source timestamp")
     query_timeseries_parser.add_argument(
-        '--order', type=_parse_order, choices=[i.name for i in common.Order],
-        default=common.Order.DESCENDING,
+        '--order', choices=[i.name for i in common.Order],
+        default=common.Order.DESCENDING.name,
         help="order (default 'DESCENDING')")
     query_timeseries_parser.add_argument(
-        '--order-by', type=_parse_order_by,
-        choices=[i.name for i in common.OrderBy],
-        default=common.OrderBy.TIMESTAMP,
+        '--order-by', choices=[i.name for i in common.OrderBy],
+        default=common.OrderBy.TIMESTAMP.name,
         help="order (default 'TIMESTAMP')")
     query_timeseries_parser.add_argument(
         '--max-results', metavar='N', type=int, default=None,
@@ -174,8 +173,8 @@ def main():
                 t_to=args.t_to,
                 source_t_from=args.source_t_from,
                 source_t_to=args.source_t_to,
-                order=args.order,
-                order_by=args.order_by,
+                order=common.Order[args.order],
+                order_by=common.OrderBy[args.order_by],
                 max_results=args.max_results,
                 last_event_id=args.last_event_id)
 
@@ -309,14 +308,6 @@ def _parse_event_id(event_id):
     return common.EventId(*(int(i) for i in event_id.split(',')))
 
 
-def _parse_order(order):
-    return common.Order[order]
-
-
-def _parse_order_by(order_by):
-    return common.OrderBy[order_by]
-
-
 def _read_payload(payload_type, binary_type, path):
     if payload_type == 'none':
         return
-- 
2.43.0


From c7f5480e5a1908e4929f4ffcd9b7e803eb78e1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:21 +0000
Subject: [PATCH 21/28] fix: lmdb manager query of references

---
 src_py/hat/event/backends/lmdb/manager/query.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/manager/query.py b/src_py/hat/event/backends/lmdb/manager/query.py
index f2e7764..b8300d2 100644
--- a/src_py/hat/event/backends/lmdb/manager/query.py
+++ b/src_py/hat/event/backends/lmdb/manager/query.py
@@ -57,7 +57,7 @@ def query(args):
                     _print_result(result)
 
             elif args.subaction == 'ref':
-                for result in _query_ref(dbs, txn):
+                for result in _query_ref(dbs, txn, args.server_id):
                     _print_result(result)
 
             elif args.subaction == 'latest':
@@ -144,7 +144,7 @@ def _query_ref(dbs, txn, server_id):
 
         for event_ref in event_refs:
             if isinstance(event_ref, common.LatestEventRef):
-                latest_type_key = latest_type_db_def.encoded_key(event_ref.key)
+                latest_type_key = latest_type_db_def.encode_key(event_ref.key)
                 latest_type_value = txn.get(latest_type_key, db=latest_type_db)
 
                 event_type = latest_type_db_def.decode_value(latest_type_value)
-- 
2.43.0


From 4136b767ad633f7ca1c3cb597b23881f5512c5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:21 +0000
Subject: [PATCH 22/28] fix: lmdb manager query of latest events

---
 src_py/hat/event/backends/lmdb/manager/query.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_py/hat/event/backends/lmdb/manager/query.py b/src_py/hat/event/backends/lmdb/manager/query.py
index b8300d2..a13cd8f 100644
--- a/src_py/hat/event/backends/lmdb/manager/query.py
+++ b/src_py/hat/event/backends/lmdb/manager/query.py
@@ -63,7 +63,7 @@ def query(args):
             elif args.subaction == 'latest':
                 event_types = ([tuple(i.split('/')) for i in args.event_types]
                                if args.event_types is not None else None)
-                for result in _query_ref(dbs, txn, event_types):
+                for result in _query_latest(dbs, txn, event_types):
                     _print_result(result)
 
             elif args.subaction == 'partition':
@@ -173,7 +173,7 @@ def _query_latest(dbs, txn, event_types):
         if not subscription.matches(event.type):
             continue
 
-        yield common.event_to_json(value)
+        yield common.event_to_json(event)
 
 
 def _query_partition(dbs, txn, partition_id):
-- 
2.43.0


From 24e5e3915d9224419d3128662611a63bdb91ae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:25 +0000
Subject: [PATCH 23/28] fix: reject received values which can not be stored

JSON payloads containing NaN or numbers out of range, timestamps with
invalid microseconds and negative parts of event ids can be received but
can not be encoded again. When registered, backend's flush failed, which
closed the server and lost all events of the same flush.
---
 src_py/hat/event/common/encoder.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src_py/hat/event/common/encoder.py b/src_py/hat/event/common/encoder.py
index 5111565..85cb943 100644
--- a/src_py/hat/event/common/encoder.py
+++ b/src_py/hat/event/common/encoder.py
@@ -121,6 +121,10 @@ def timestamp_to_sbs(t: Timestamp) -> sbs.Data:
 
 def timestamp_from_sbs(data: sbs.Data) -> Timestamp:
     """Create new timestamp from SBS data"""
+    # see `timestamp_to_bytes`
+    if not 0 <= data['us'] < (1 << 32):
+        raise ValueError('invalid timestamp')
+
     return Timestamp(s=data['s'], us=data['us'])
 
 
@@ -271,7 +275,13 @@ def event_payload_from_sbs(data: sbs.Data) -> EventPayload:
                                   data=data[1]['data'])
 
     if data[0] == 'json':
-        return EventPayloadJson(data=json.decode(data[1]))
+        payload = EventPayloadJson(data=json.decode(data[1]))
+
+        # not everything that can be decoded (NaN, numbers out of range...)
+        # can be encoded again
+        json.encode(payload.data)
+
+        return payload
 
     raise ValueError('unsupported payload type')
 
@@ -283,6 +293,9 @@ def _event_id_to_sbs(event_id):
 
 
 def _event_id_from_sbs(data):
+    if data['server'] < 0 or data['session'] < 0 or data['instance'] < 0:
+        raise ValueError('invalid event id')
+
     return EventId(server=data['server'],
                    session=data['session'],
                    instance=data['instance'])
-- 
2.43.0


From a275bf7cba359c9d3ceb7b2540e1abe9df48f1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:25 +0000
Subject: [PATCH 24/28] fix: eventer client accepted responses of different
 request

Response of invalid type (e.g. register response to query request) was
returned as result.
---
 src_py/hat/event/eventer/client.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src_py/hat/event/eventer/client.py b/src_py/hat/event/eventer/client.py
index a8e4c5e..99a9501 100644
--- a/src_py/hat/event/eventer/client.py
+++ b/src_py/hat/event/eventer/client.py
@@ -143,7 +143,8 @@ class Client(aio.Resource):
                                      last=not with_response)
 
         if with_response:
-            return await self._wait_conv_res(conv)
+            return await self._wait_conv_res(conv,
+                                             'HatEventer.MsgRegisterRes')
 
     async def query(self,
                     params: common.QueryParams
@@ -155,7 +156,7 @@ class Client(aio.Resource):
                                      msg_data=msg_data,
                                      last=False)
 
-        return await self._wait_conv_res(conv)
+        return await self._wait_conv_res(conv, 'HatEventer.MsgQueryRes')
 
     async def _receive_loop(self):
         mlog.debug("starting receive loop")
@@ -193,16 +194,16 @@ class Client(aio.Resource):
             mlog.debug("stopping receive loop")
             self.close()
 
-            for future in self._conv_futures.values():
+            for _, future in self._conv_futures.values():
                 if not future.done():
                     future.set_exception(ConnectionError())
 
-    async def _wait_conv_res(self, conv):
+    async def _wait_conv_res(self, conv, res_type):
         if not self.is_open:
             raise ConnectionError()
 
         future = self._loop.create_future()
-        self._conv_futures[conv] = future
+        self._conv_futures[conv] = res_type, future
 
         try:
             return await future
@@ -240,19 +241,21 @@ class Client(aio.Resource):
         else:
             raise ValueError('unsupported register response')
 
-        future = self._conv_futures.get(msg.conv)
-        if not future or future.done():
-            return
-
-        future.set_result(result)
+        self._process_res(msg, result)
 
     async def _process_msg_query_res(self, msg, msg_data):
         result = common.query_result_from_sbs(msg_data)
 
-        future = self._conv_futures.get(msg.conv)
+        self._process_res(msg, result)
+
+    def _process_res(self, msg, result):
+        res_type, future = self._conv_futures.get(msg.conv, (None, None))
         if not future or future.done():
             return
 
+        if res_type != msg.data.type:
+            raise Exception('invalid response message type')
+
         future.set_result(result)
 
 
-- 
2.43.0


From 476440737f26068f2b14ac1d544cf5c1a6eb98cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:32 +0000
Subject: [PATCH 25/28] fix: compiled subscription disjoint with type which is
 prefix of other types

---
 src_c/py/subscription/_csubscription.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src_c/py/subscription/_csubscription.c b/src_c/py/subscription/_csubscription.c
index d9605e8..31b967e 100644
--- a/src_c/py/subscription/_csubscription.c
+++ b/src_c/py/subscription/_csubscription.c
@@ -214,11 +214,8 @@ static bool isdisjoint(node_t *first, node_t *second) {
     if (second->has_star)
         return !first->is_leaf && !first->children;
 
-    if (!first->children)
-        return !first->is_leaf || !second->children;
-
-    if (!second->children)
-        return !second->is_leaf || !first->children;
+    if (!first->children || !second->children)
+        return true;
 
     node_t *first_child;
     node_t *second_child;
-- 
2.43.0


From 64f508623c7990b9970ad6eb60fdd2e9cb8586c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:01 +0000
Subject: [PATCH 26/28] fix: component is not closed by runner closing while
 server changes

---
 src_py/hat/event/component.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src_py/hat/event/component.py b/src_py/hat/event/component.py
index e014f56..5364f60 100644
--- a/src_py/hat/event/component.py
+++ b/src_py/hat/event/component.py
@@ -211,6 +211,9 @@ class Component(aio.Resource):
                 while not server_data or not server_data_queue.empty():
                     server_data = await server_data_queue.get_until_empty()
 
+                if not async_group.is_open:
+                    break
+
                 async with async_group.create_subgroup() as subgroup:
                     subgroup.spawn(self._client_loop, subgroup, server_data)
                     server_data = await server_data_queue.get_until_empty()
@@ -254,6 +257,9 @@ class Component(aio.Resource):
                         continue
 
                     try:
+                        if not async_group.is_open:
+                            return
+
                         async with async_group.create_subgroup() as subgroup:
                             client_closing_task = subgroup.spawn(
                                 client.wait_closing)
-- 
2.43.0


From 08838326e550e15603f7cf0290493e06d2b241cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:30 +0000
Subject: [PATCH 27/28] fix: exponential time of subscription intersection

---
 src_py/hat/event/common/subscription/common.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src_py/hat/event/common/subscription/common.py b/src_py/hat/event/common/subscription/common.py
index 8d6bd76..a7511ed 100644
--- a/src_py/hat/event/common/subscription/common.py
+++ b/src_py/hat/event/common/subscription/common.py
@@ -93,21 +93,17 @@ def intersection(first: Node, second: Node) -> Node:
     else:
         children = {}
 
-        for name, child, other_children in itertools.chain(
-                ((name, child, second.children)
-                 for name, child in first.children.items()),
-                ((name, child, first.children)
-                 for name, child in second.children.items())):
-
+        # each combination of children is visited only once
+        for name, child in first.children.items():
             if name == '?':
-                candidates = other_children
+                candidates = second.children
 
             else:
                 candidates = {}
-                other_child = other_children.get(name)
+                other_child = second.children.get(name)
                 if other_child:
                     candidates[name] = other_child
-                other_child = other_children.get('?')
+                other_child = second.children.get('?')
                 if other_child:
                     candidates['?'] = other_child
 
-- 
2.43.0


From 804fc9529dec38ba200263cec435c7247e6b8241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:30 +0000
Subject: [PATCH 28/28] fix: exponential time of compiled subscription
 isdisjoint

---
 src_c/py/subscription/_csubscription.c | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src_c/py/subscription/_csubscription.c b/src_c/py/subscription/_csubscription.c
index 31b967e..2d36066 100644
--- a/src_c/py/subscription/_csubscription.c
+++ b/src_c/py/subscription/_csubscription.c
@@ -234,6 +234,11 @@ static bool isdisjoint(node_t *first, node_t *second) {
     second_child = hat_ht_get(second->children, "?", 1);
     if (second_child) {
         while ((iter = hat_ht_iter_next(first->children, iter))) {
+            char *key = hat_ht_iter_key(iter);
+            size_t key_size = hat_ht_iter_key_size(iter);
+            if (key_size == 1 && *key == '?')
+                continue;
+
             first_child = hat_ht_iter_value(iter);
 
             if (!isdisjoint(first_child, second_child))
@@ -256,21 +261,6 @@ static bool isdisjoint(node_t *first, node_t *second) {
             return false;
     }
 
-    while ((iter = hat_ht_iter_next(second->children, iter))) {
-        char *key = hat_ht_iter_key(iter);
-        size_t key_size = hat_ht_iter_key_size(iter);
-        if (key_size == 1 && *key == '?')
-            continue;
-
-        first_child = hat_ht_get(first->children, key, key_size);
-        if (!first_child)
-            continue;
-
-        second_child = hat_ht_iter_value(iter);
-        if (!isdisjoint(first_child, second_child))
-            return false;
-    }
-
     return true;
 }
 
-- 
2.43.0

