From fbce931bc0e2d87dc4794bacf912928ab0afd0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 01/35] fix: refuse storage keys that resolve to a sibling of
 the root directory

---
 mplang/runtime/object_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/runtime/object_store.py b/mplang/runtime/object_store.py
index 3d10579..2ed221e 100644
--- a/mplang/runtime/object_store.py
+++ b/mplang/runtime/object_store.py
@@ -180,7 +180,7 @@ class FileSystemBackend(StoreBackend):
         root = os.path.abspath(self._root_path)
         clean_key = key.lstrip("/")
         path = os.path.abspath(os.path.join(root, clean_key))
-        if not path.startswith(root):
+        if path != root and not path.startswith(os.path.join(root, "")):
             raise ValueError(f"Invalid key (traversal attempt): {key}")
         return path
 
-- 
2.43.0


From 0fe10cede68b57bcc48b602c829f0f69c17e85a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 02/35] fix: serialize the values a DriverVar holds instead of
 embedding them raw

---
 mplang/backends/simp_driver/values.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/simp_driver/values.py b/mplang/backends/simp_driver/values.py
index 0d97e70..200e3c3 100644
--- a/mplang/backends/simp_driver/values.py
+++ b/mplang/backends/simp_driver/values.py
@@ -45,8 +45,8 @@ class DriverVar(Value):
         return self.values[idx]
 
     def to_json(self) -> dict[str, Any]:
-        return {"values": self.values}
+        return {"values": [serde.to_json(v) for v in self.values]}
 
     @classmethod
     def from_json(cls, data: dict[str, Any]) -> Self:
-        return cls(values=data["values"])
+        return cls(values=[serde.from_json(v) for v in data["values"]])
-- 
2.43.0


From 61a49cf0d5f77f5eff2d4ab887ef9c993758bbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 03/35] fix: give each operation its own operand list

---
 mplang/edsl/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mplang/edsl/graph.py b/mplang/edsl/graph.py
index 60fc34b..46d199c 100644
--- a/mplang/edsl/graph.py
+++ b/mplang/edsl/graph.py
@@ -156,6 +156,10 @@ class Operation:
 
     def __post_init__(self) -> None:
         """Register this operation as the definer and user of values."""
+        # Own the operand list: operations built from one list must not share it,
+        # or replace_input() on one of them would silently rewire the others.
+        self.inputs = list(self.inputs)
+
         # Register as defining op for outputs
         for output in self.outputs:
             output.defining_op = self
-- 
2.43.0


From 88bd3a8bb5c0ce3043fd83b9ffaef7991831b2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 04/35] fix: rebuild graphs whose value names are not in
 automatic order

---
 mplang/edsl/graph.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mplang/edsl/graph.py b/mplang/edsl/graph.py
index 46d199c..78abffe 100644
--- a/mplang/edsl/graph.py
+++ b/mplang/edsl/graph.py
@@ -220,6 +220,9 @@ class Graph:
     def _gen_value_name(self) -> str:
         """Generate a unique SSA value name."""
         name = f"%{self._value_counter}"
+        while name in self.values:
+            self._value_counter += 1
+            name = f"%{self._value_counter}"
         self._value_counter += 1
         return name
 
@@ -447,14 +450,16 @@ class Graph:
                 regions=regions,
             )
 
-            # Rename outputs to match original names
+            # Rename outputs to match original names. All generated names are
+            # dropped first: one may be the original name of a sibling output.
+            for out_val in outputs:
+                del graph.values[out_val.name]
             for out_val, out_data in zip(outputs, op_data["outputs"], strict=False):
                 original_name = out_data["name"]
-                if out_val.name != original_name:
-                    # Update the values dict with the original name
-                    del graph.values[out_val.name]
-                    out_val.name = original_name
-                    graph.values[original_name] = out_val
+                if original_name in graph.values:
+                    raise ValueError(f"Value {original_name} already exists")
+                out_val.name = original_name
+                graph.values[original_name] = out_val
 
             # Set operation name if provided
             if op_data.get("name"):
-- 
2.43.0


From fa936cad1132fab2599ce5a9147fc823a3ddb0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 05/35] fix: keep table column order in packed program
 artifacts

---
 mplang/tool/program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/tool/program.py b/mplang/tool/program.py
index 80ce294..be82eb4 100644
--- a/mplang/tool/program.py
+++ b/mplang/tool/program.py
@@ -227,11 +227,11 @@ def pack(program: CompiledProgram, *, compress: bool = True) -> bytes:
     via `tar -xf`).
     """
 
+    # Keep the key order: it carries meaning (e.g. the column order of a TableType).
     artifact_json = json.dumps(
         serde.to_json(program),
         ensure_ascii=False,
         indent=2,
-        sort_keys=True,
     ).encode("utf-8")
 
     buf = io.BytesIO()
-- 
2.43.0


From fe761c6e92563c7431a6149a120ea524678d6088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 06/35] fix: hash a TableType consistently with its equality

---
 mplang/edsl/typing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/edsl/typing.py b/mplang/edsl/typing.py
index 03f9b51..1983e89 100644
--- a/mplang/edsl/typing.py
+++ b/mplang/edsl/typing.py
@@ -616,7 +616,7 @@ class TableType(BaseType):
         return self.schema == other.schema and self.nrows == other.nrows
 
     def __hash__(self) -> int:
-        return hash(("TableType", tuple(self.schema.items()), self.nrows))
+        return hash(("TableType", frozenset(self.schema.items()), self.nrows))
 
     @property
     def is_dynamic(self) -> bool:
-- 
2.43.0


From 777dea83fce1963be7bba15a94f4c808100b6c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:28 +0000
Subject: [PATCH 07/35] fix: return every row of a batch assembled from several
 native batches

---
 mplang/backends/table_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 49aa914..6c4ad34 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -177,7 +177,7 @@ class TableReader(BatchReader):
                 batch = self._reader.read_next_batch()
                 # Convert to RecordBatch if the reader returns a Table
                 if isinstance(batch, pa.Table) and batch.num_rows > 0:
-                    return batch.to_batches()[0]
+                    return batch.combine_chunks().to_batches()[0]
                 return batch
             except StopIteration:
                 return None
@@ -235,7 +235,7 @@ class TableReader(BatchReader):
             return batches[0]
 
         # Otherwise, combine all batches and return as a single RecordBatch
-        combined = pa.Table.from_batches(batches)
+        combined = pa.Table.from_batches(batches).combine_chunks()
         return combined.to_batches()[0]
 
     def close(self) -> None:
-- 
2.43.0


From e959ca63f32636d63dd7f1244d569b38f1d3127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:28 +0000
Subject: [PATCH 08/35] fix: include the split-off rows when a table reader
 reads the rest

---
 mplang/backends/table_impl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 6c4ad34..7463b4e 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -129,7 +129,12 @@ class TableReader(BatchReader):
         Returns:
             Complete table containing all remaining data
         """
-        return self._reader.read_all()
+        table = self._reader.read_all()
+        if self._remain is not None:
+            head = pa.Table.from_batches([self._remain])
+            table = pa.concat_tables([head, table])
+            self._remain = None
+        return table
 
     def read_next_batch(self) -> pa.RecordBatch:
         """Read the next batch of records.
-- 
2.43.0


From ec5a03ee90b866f0d687637c01a74fc821536d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:41 +0000
Subject: [PATCH 09/35] fix: refuse to combine tables with different row counts

---
 mplang/backends/table_impl.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 7463b4e..02baa98 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -539,7 +539,7 @@ class QueryTableSource(TableSource):
         if batch_size <= 0:
             batch_size = DEFAULT_BATCH_SIZE
         reader = self.relation.arrow(batch_size)
-        return TableReader(reader)
+        return TableReader(reader, batch_size=batch_size)
 
 
 # =============================================================================
@@ -857,9 +857,14 @@ class MultiTableReader(BatchReader):
 
     def read_next_batch(self) -> pa.RecordBatch:
         num_rows = -1
-        columns: list[pa.ChunkedArray] = []
+        exhausted = 0
+        columns: list[pa.Array] = []
         for idx, r in enumerate(self._readers):
-            batch = r.read_next_batch()
+            try:
+                batch = r.read_next_batch()
+            except StopIteration:
+                exhausted += 1
+                continue
             if num_rows == -1:
                 num_rows = batch.num_rows
             elif num_rows != batch.num_rows:
@@ -867,6 +872,10 @@ class MultiTableReader(BatchReader):
                     f"Batch {idx} has {batch.num_rows} rows, expected {num_rows}"
                 )
             columns.extend(batch.columns)
+        if exhausted == len(self._readers):
+            raise StopIteration
+        if exhausted > 0:
+            raise ValueError("Tables have different numbers of rows")
         return pa.RecordBatch.from_arrays(columns, names=self._schema.names)
 
     def close(self) -> None:
@@ -898,7 +907,7 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
             readers.append(
                 data.open(batch_size)
                 if isinstance(data, TableSource)
-                else TableReader(data)
+                else TableReader(data, batch_size=batch_size)
             )
 
         reader: BatchReader = (
-- 
2.43.0


From 3268051596c55e5b7eed331a54eda365805b82f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:41 +0000
Subject: [PATCH 10/35] fix: let two parties exchange values in one shuffle
 without deadlock

---
 mplang/backends/simp_worker/ops.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mplang/backends/simp_worker/ops.py b/mplang/backends/simp_worker/ops.py
index 5a5f2e7..a2ba813 100644
--- a/mplang/backends/simp_worker/ops.py
+++ b/mplang/backends/simp_worker/ops.py
@@ -94,10 +94,19 @@ def _shuffle_static_worker_impl(
     my_rank = worker.rank
     data = args[0]
 
+    # Both directions between two ranks share one message sequence, so when two
+    # ranks exchange data the message of the lower rank comes first on both sides.
+    my_src = routing.get(my_rank)
+    exchange = my_src is not None and routing.get(my_src) == my_rank
+    recv_first = exchange and my_src < my_rank
+    received = ctx.recv(my_src) if recv_first else None
+
     for tgt, src in routing.items():
         if src == my_rank and tgt != my_rank:
             ctx.send(tgt, data)
 
+    if recv_first:
+        return received
     if my_rank in routing:
         src = routing[my_rank]
         if src == my_rank:
-- 
2.43.0


From c1ed3f5e70d38d5438ed2a48cfc367d854552f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 11/35] fix: derive async communication contexts in program
 order and restore them

---
 mplang/runtime/interpreter.py | 53 ++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/mplang/runtime/interpreter.py b/mplang/runtime/interpreter.py
index a6414de..aeff417 100644
--- a/mplang/runtime/interpreter.py
+++ b/mplang/runtime/interpreter.py
@@ -1023,6 +1023,37 @@ class Interpreter(AbstractInterpreter):
         # CommContext for this execution scope
         root_comm_ctx = getattr(self._tls, "comm_ctx", self.comm_ctx)
 
+        # Child CommContexts are derived up front, in program order: the order in
+        # which ops become ready differs between ranks, their context IDs must not.
+        # We include graph_exec_key (structural hash of the graph) to prevent
+        # op_idx collisions between *different nested graphs* within the same
+        # request.  For example, two simp.pcall_static ops in the same parent
+        # graph each trigger a sub-graph execution — without graph_exec_key,
+        # their child ops at the same positional index would share the same
+        # CommContext ID and corrupt each other's messages.
+        # Cross-request isolation is already handled by root context_id (= job_id).
+        child_comm_ctxs: dict[Any, CommContext] = {}
+        if root_comm_ctx is not None:
+            for op, op_idx in op_to_index.items():
+                child_comm_ctxs[op] = root_comm_ctx.spawn(
+                    suffix=f"{graph_exec_key}.{op_idx}"
+                )
+
+        def run_handler(handler: Callable[..., Any], op: Any, args: list[Any]) -> Any:
+            """Run an op's handler under its CommContext, then restore the thread's."""
+            child_ctx = child_comm_ctxs.get(op)
+            if child_ctx is None:
+                return handler(self, op, *args)
+            prev_comm_ctx = getattr(self._tls, "comm_ctx", None)
+            self._tls.comm_ctx = child_ctx
+            try:
+                return handler(self, op, *args)
+            finally:
+                if prev_comm_ctx is not None:
+                    self._tls.comm_ctx = prev_comm_ctx
+                else:
+                    del self._tls.comm_ctx
+
         # Tracer setup (if not provided, use a disabled stub)
         tracer: ExecutionTracer | _NullTracer
         if self.tracer:
@@ -1126,20 +1157,6 @@ class Interpreter(AbstractInterpreter):
                     f"No implementation registered for opcode: {op.opcode}"
                 )
 
-            # Derive a deterministic child CommContext ID for this op.
-            # We include graph_exec_key (structural hash of the graph) to prevent
-            # op_idx collisions between *different nested graphs* within the same
-            # request.  For example, two simp.pcall_static ops in the same parent
-            # graph each trigger a sub-graph execution — without graph_exec_key,
-            # their child ops at the same positional index would share the same
-            # CommContext ID and corrupt each other's messages.
-            # Cross-request isolation is already handled by root context_id (= job_id).
-            op_idx = op_to_index[op]
-            if root_comm_ctx is not None:
-                child_ctx = root_comm_ctx.spawn(suffix=f"{graph_exec_key}.{op_idx}")
-            else:
-                child_ctx = None
-
             if op.opcode in self.async_ops and self.executor:
                 with lock:
                     active_tasks += 1
@@ -1147,12 +1164,10 @@ class Interpreter(AbstractInterpreter):
 
                 # Submit to executor
                 def task() -> Any:
-                    if child_ctx is not None:
-                        self._tls.comm_ctx = child_ctx
                     start_ts = tracer.log_start(
                         op, pid=self.trace_pid, namespace=self.trace_pid
                     )
-                    res = handler(self, op, *args)
+                    res = run_handler(handler, op, args)
                     tracer.log_end(op, start_ts, pid=self.trace_pid)
                     return res
 
@@ -1168,12 +1183,10 @@ class Interpreter(AbstractInterpreter):
             else:
                 # Sync execution (run immediately)
                 try:
-                    if child_ctx is not None:
-                        self._tls.comm_ctx = child_ctx
                     start_ts = tracer.log_start(
                         op, pid=self.trace_pid, namespace=self.trace_pid
                     )
-                    res = handler(self, op, *args)
+                    res = run_handler(handler, op, args)
                     tracer.log_end(op, start_ts, pid=self.trace_pid)
                     on_op_done(op, res)
                 except Exception as e:
-- 
2.43.0


From b97f3602afd1f99ddf89f21192abff9362ed8d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 12/35] fix: fail instead of hanging when an operand is never
 produced

---
 mplang/runtime/interpreter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mplang/runtime/interpreter.py b/mplang/runtime/interpreter.py
index aeff417..1c7fe98 100644
--- a/mplang/runtime/interpreter.py
+++ b/mplang/runtime/interpreter.py
@@ -1085,6 +1085,12 @@ class Interpreter(AbstractInterpreter):
                     count += 1
             pending_counts[op] = count
 
+        # An operand nothing produces would keep its consumers waiting forever.
+        produced = {val for op in graph.operations for val in op.outputs}
+        missing = [str(val) for val in value_to_consumers if val not in produced]
+        if missing:
+            raise RuntimeError(f"Failed to resolve inputs. Missing values: {missing}")
+
         # 3. Synchronization
         lock = threading.Lock()
         ready_queue: queue.Queue[Any] = queue.Queue()
-- 
2.43.0


From 24c546d0da7e7e73c9237c82581e720bf639519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:08 +0000
Subject: [PATCH 13/35] fix: waiting for a request whose operation failed with
 TimeoutError reports that failure

---
 mplang/backends/simp_worker/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mplang/backends/simp_worker/base.py b/mplang/backends/simp_worker/base.py
index a868a92..b2e7a28 100644
--- a/mplang/backends/simp_worker/base.py
+++ b/mplang/backends/simp_worker/base.py
@@ -199,6 +199,15 @@ class Request:
             self._result = self._future.result(timeout=timeout)
             self._status = RequestStatus.COMPLETED
         except concurrent.futures.TimeoutError as e:
+            # The operation itself may have failed with a TimeoutError.
+            if (
+                self._future.done()
+                and not self._future.cancelled()
+                and self._future.exception() is e
+            ):
+                self._error = e
+                self._status = RequestStatus.ERROR
+                raise
             raise TimeoutError(
                 f"Request timed out after {timeout}s: {self._operation}"
             ) from e
-- 
2.43.0


From b99345fa8258b6f08e28f5e7193ab52a69f37d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:44 +0000
Subject: [PATCH 14/35] fix: quote message keys in worker URLs so that every
 key reaches its own slot

---
 mplang/backends/simp_worker/http.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/simp_worker/http.py b/mplang/backends/simp_worker/http.py
index 29dc3ba..095d949 100644
--- a/mplang/backends/simp_worker/http.py
+++ b/mplang/backends/simp_worker/http.py
@@ -46,6 +46,7 @@ from contextlib import asynccontextmanager
 from dataclasses import dataclass, field
 from enum import StrEnum
 from typing import Any
+from urllib.parse import quote
 
 import httpx
 from fastapi import FastAPI, HTTPException
@@ -384,7 +385,7 @@ class HttpCommunicator:
             request_timeout: Per-request timeout passed to httpx.  If *None*,
                 the client-level ``http_timeout`` is used instead.
         """
-        url = f"{self.endpoints[to]}/comm/{key}"
+        url = f"{self.endpoints[to]}/comm/{quote(key, safe='')}"
         logger.debug(f"Rank {self.rank} sending to {to} key={key}, url={url}")
 
         # Raw-bytes transport rule:
@@ -763,7 +764,7 @@ def register_routes(
             response["error"] = task.error
         return response
 
-    @app.put("/comm/{key}")
+    @app.put("/comm/{key:path}")
     async def receive_comm(key: str, request: FastAPIRequest) -> dict[str, str]:
         """Receive communication data from another worker.
 
-- 
2.43.0


From 619dbd038687c0c4e1a5dc6e77a42de70e309012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:19 +0000
Subject: [PATCH 15/35] fix: check a restricted call against every statically
 known input, even when another input is dynamic

---
 mplang/dialects/simp.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/mplang/dialects/simp.py b/mplang/dialects/simp.py
index 04d3be6..f8078fb 100644
--- a/mplang/dialects/simp.py
+++ b/mplang/dialects/simp.py
@@ -75,24 +75,20 @@ def _deduce_parties(types: Sequence[elt.BaseType]) -> tuple[int, ...] | None:
     if not types:
         return None
 
-    # Extract parties from MPType objects
+    # Extract the statically known party sets. Inputs with a dynamic mask
+    # (parties=None) put no constraint on the result, but do not lift the
+    # constraints of the other inputs either.
     parties_list = []
     for tp in types:
-        if isinstance(tp, elt.MPType):
+        if isinstance(tp, elt.MPType) and tp.parties is not None:
             parties_list.append(tp.parties)
 
     if not parties_list:
         return None
 
-    if any(p is None for p in parties_list):
-        return None
-
-    # Intersect all party sets (we know all parties are not None here)
-    first_parties = parties_list[0]
-    assert first_parties is not None
-    current = set(first_parties)
+    # Intersect all known party sets
+    current = set(parties_list[0])
     for parties in parties_list[1:]:
-        assert parties is not None
         current &= set(parties)
     return tuple(sorted(current))
 
-- 
2.43.0


From 106b778fe24691b9d16a942137fdce1e9881caad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:33 +0000
Subject: [PATCH 16/35] fix: converging values held by nobody yields a value
 held by nobody, not a dynamic one

---
 mplang/dialects/simp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/dialects/simp.py b/mplang/dialects/simp.py
index f8078fb..c98f50d 100644
--- a/mplang/dialects/simp.py
+++ b/mplang/dialects/simp.py
@@ -692,7 +692,7 @@ def _converge_ae(in_types: list[elt.BaseType], *, mask: int = -1) -> elt.BaseTyp
         for p in parties_list:
             if p is not None:
                 all_parties.update(p)
-        output_parties = tuple(sorted(all_parties)) if all_parties else None
+        output_parties = tuple(sorted(all_parties))
 
     return elt.MPType(first_vtype, output_parties)
 
-- 
2.43.0


From 8c207b869bc6e7f42f2c4ffb1a16ce55b9b1174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:48 +0000
Subject: [PATCH 17/35] fix: refuse negative party ranks in restricted calls
 and shuffles

---
 mplang/dialects/simp.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mplang/dialects/simp.py b/mplang/dialects/simp.py
index c98f50d..6d8746b 100644
--- a/mplang/dialects/simp.py
+++ b/mplang/dialects/simp.py
@@ -404,6 +404,9 @@ def _pcall_static_trace(
     if parties is None:
         raise ValueError("pcall_static requires explicit parties, got None")
 
+    if any(p < 0 for p in parties):
+        raise ValueError(f"pcall_static parties must be non-negative, got {parties}")
+
     requested_parties = tuple(sorted(set(parties)))
 
     local_tracer = _LocalMPTracer()
@@ -620,6 +623,11 @@ def _shuffle_ae(src_t: elt.BaseType, routing: dict[int, int]) -> elt.BaseType:
     if not routing:
         raise ValueError("shuffle_static requires non-empty routing dict")
 
+    if any(target < 0 or source < 0 for target, source in routing.items()):
+        raise ValueError(
+            f"shuffle_static routing must use non-negative parties, got {routing}"
+        )
+
     # Target parties are the keys of routing dict
     target_parties = tuple(sorted(routing.keys()))
 
-- 
2.43.0


From 1bb04c499d3f7b4df119ceddcd3efca21ae5a6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:28 +0000
Subject: [PATCH 18/35] fix: converge refuses overlapping static parties even
 when another input is dynamic

---
 mplang/dialects/simp.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mplang/dialects/simp.py b/mplang/dialects/simp.py
index 6d8746b..5cb3348 100644
--- a/mplang/dialects/simp.py
+++ b/mplang/dialects/simp.py
@@ -681,20 +681,20 @@ def _converge_ae(in_types: list[elt.BaseType], *, mask: int = -1) -> elt.BaseTyp
     # Deduce output parties
     parties_list = [mt.parties for mt in mp_types]
 
+    # Statically known parties must be disjoint, also next to dynamic inputs
+    for i, p1 in enumerate(parties_list):
+        for j, p2 in enumerate(parties_list[i + 1 :], i + 1):
+            if p1 is not None and p2 is not None:
+                if set(p1) & set(p2):
+                    raise ValueError(
+                        f"converge requires disjoint parties, inputs {i} and {j} "
+                        f"overlap: {set(p1) & set(p2)}"
+                    )
+
     if any(p is None for p in parties_list):
         # Dynamic case: propagate None
         output_parties = None
     else:
-        # Static case: check disjoint and union
-        for i, p1 in enumerate(parties_list):
-            for j, p2 in enumerate(parties_list[i + 1 :], i + 1):
-                if p1 is not None and p2 is not None:
-                    if set(p1) & set(p2):
-                        raise ValueError(
-                            f"converge requires disjoint parties, inputs {i} and {j} "
-                            f"overlap: {set(p1) & set(p2)}"
-                        )
-
         # Union all parties
         all_parties: set[int] = set()
         for p in parties_list:
-- 
2.43.0


From 27555f0ed800e6f7d83747aa9e9a3d975f51c58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:20 +0000
Subject: [PATCH 19/35] fix: refuse cluster descriptions whose node ranks are
 not exactly 0..n-1

---
 mplang/libs/device/cluster.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mplang/libs/device/cluster.py b/mplang/libs/device/cluster.py
index d951e95..134c22a 100644
--- a/mplang/libs/device/cluster.py
+++ b/mplang/libs/device/cluster.py
@@ -129,6 +129,15 @@ class ClusterSpec:
                     f"Device key '{key}' does not match device.name '{device.name}'"
                 )
 
+        # ranks number the nodes 0..n-1, each exactly once
+        if sorted(node.rank for node in self.nodes.values()) != list(
+            range(len(self.nodes))
+        ):
+            raise ValueError(
+                f"Node ranks must be exactly 0..{len(self.nodes) - 1} without repeats, "
+                f"got {[node.rank for node in self.nodes.values()]}"
+            )
+
         # check all device members are valid nodes
         node_names = set(self.nodes.keys())
         for device in self.devices.values():
-- 
2.43.0


From 3fa853460d4c0c9116de4bd02a1cbf00a23abfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:20 +0000
Subject: [PATCH 20/35] fix: write cluster nodes in rank order so that reading
 them back keeps their ranks

---
 mplang/libs/device/cluster.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mplang/libs/device/cluster.py b/mplang/libs/device/cluster.py
index 134c22a..c10f18c 100644
--- a/mplang/libs/device/cluster.py
+++ b/mplang/libs/device/cluster.py
@@ -180,7 +180,11 @@ class ClusterSpec:
         """Convert ClusterSpec to a dictionary."""
         return {
             "cluster_id": self.cluster_id,
-            "nodes": [node.to_dict() for node in self.nodes.values()],
+            # from_dict takes the position in the list as the rank
+            "nodes": [
+                node.to_dict()
+                for node in sorted(self.nodes.values(), key=lambda node: node.rank)
+            ],
             "devices": {
                 name: device.to_dict() for name, device in self.devices.items()
             },
-- 
2.43.0


From d9233a1a3f5825dd57072c6695dcd75ffc33d94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:20 +0000
Subject: [PATCH 21/35] fix: refuse devices whose members are not the cluster's
 nodes and TEE devices without exactly one member

---
 mplang/libs/device/cluster.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mplang/libs/device/cluster.py b/mplang/libs/device/cluster.py
index c10f18c..99e86f7 100644
--- a/mplang/libs/device/cluster.py
+++ b/mplang/libs/device/cluster.py
@@ -139,20 +139,20 @@ class ClusterSpec:
             )
 
         # check all device members are valid nodes
-        node_names = set(self.nodes.keys())
         for device in self.devices.values():
             for member in device.members:
-                if member.name not in node_names:
+                if self.nodes.get(member.name) != member:
                     raise ValueError(
                         f"Device '{device.name}' has member '{member.name}' "
                         "which is not defined in nodes"
                     )
 
-        # ensure ppu devices have exactly one member
+        # ensure ppu and tee devices have exactly one member
         for device in self.devices.values():
-            if device.kind.lower() == "ppu" and len(device.members) != 1:
+            if device.kind.lower() in ("ppu", "tee") and len(device.members) != 1:
                 raise ValueError(
-                    f"PPU device '{device.name}' must have exactly one member"
+                    f"{device.kind.upper()} device '{device.name}' must have "
+                    "exactly one member"
                 )
 
     def get_node(self, name: str) -> Node:
-- 
2.43.0


From 52436a19d8ed3578cbbd11abf51b8b9a992c58ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:11 +0000
Subject: [PATCH 22/35] fix: gf128_mul (C++) folds the high half of the product
 into the reduction

---
 mplang/kernels/gf128.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/kernels/gf128.cpp b/mplang/kernels/gf128.cpp
index f4c7bb2..4692b84 100644
--- a/mplang/kernels/gf128.cpp
+++ b/mplang/kernels/gf128.cpp
@@ -118,7 +118,7 @@ extern "C" {
         __m128i r1_lo = r1;
 
         __m128i m0 = _mm_clmulepi64_si128(r1, Q, 0x00); // r1_lo * Q
-        __m128i m1 = _mm_clmulepi64_si128(r1, Q, 0x10); // r1_hi * Q
+        __m128i m1 = _mm_clmulepi64_si128(r1, Q, 0x01); // r1_hi * Q
 
         __m128i m1_shifted = _mm_slli_si128(m1, 8);
         __m128i M_lo = _mm_xor_si128(m0, m1_shifted);
-- 
2.43.0


From ea0d9879bad76fdbc5be5c4954075c9b2f920b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:11 +0000
Subject: [PATCH 23/35] fix: report a failed OKVS encoding of the C++ kernel
 instead of returning zeros

---
 mplang/backends/field_impl.py | 7 ++++++-
 mplang/kernels/okvs.cpp       | 6 ++++--
 mplang/kernels/okvs_opt.cpp   | 2 +-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/mplang/backends/field_impl.py b/mplang/backends/field_impl.py
index a73c8e6..4b9118a 100644
--- a/mplang/backends/field_impl.py
+++ b/mplang/backends/field_impl.py
@@ -74,6 +74,7 @@ def _get_lib() -> ctypes.CDLL | None:
                     ctypes.c_uint64,  # m
                     ctypes.POINTER(ctypes.c_uint64),  # seed
                 ]
+                _LIB.solve_okvs.restype = ctypes.c_int  # 0 on success
                 _LIB.decode_okvs.argtypes = [
                     ctypes.POINTER(ctypes.c_uint64),  # keys
                     ctypes.POINTER(ctypes.c_uint64),  # storage
@@ -233,7 +234,7 @@ def _okvs_solve_impl(
     seed_c = np.ascontiguousarray(seed, dtype=np.uint64)
     output = np.zeros((m, 2), dtype=np.uint64)
 
-    lib.solve_okvs(
+    status = lib.solve_okvs(
         keys_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
         values_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
         output.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
@@ -241,6 +242,10 @@ def _okvs_solve_impl(
         m,
         seed_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
     )
+    if status != 0:
+        raise RuntimeError(
+            f"OKVS core detected. Failed to peel all rows. n={n}, m={m}"
+        )
     return output
 
 
diff --git a/mplang/kernels/okvs.cpp b/mplang/kernels/okvs.cpp
index 185d2e1..ee119e6 100644
--- a/mplang/kernels/okvs.cpp
+++ b/mplang/kernels/okvs.cpp
@@ -58,7 +58,8 @@ extern "C" {
     }
 
     // Solve OKVS System: H * P = V
-    void solve_okvs(uint64_t* keys, uint64_t* values, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr) {
+    // Returns 0 on success, 1 if peeling failed (the output is zeroed then).
+    int solve_okvs(uint64_t* keys, uint64_t* values, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr) {
         // Load dynamic seed
         __m128i seed = _mm_loadu_si128((__m128i*)seed_ptr);
 
@@ -172,7 +173,7 @@ extern "C" {
                     n, m, assignment_stack.size());
             // Zero output to identify failure clearly
             memset(output, 0, m * 16);
-            return;
+            return 1;
         }
 
         // 6. Back Substitution
@@ -196,6 +197,7 @@ extern "C" {
 
             _mm_storeu_si128(&P_vec[a.col], diff);
         }
+        return 0;
     }
 
     void decode_okvs(uint64_t* keys, uint64_t* storage, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr) {
diff --git a/mplang/kernels/okvs_opt.cpp b/mplang/kernels/okvs_opt.cpp
index fe9731c..05522de 100644
--- a/mplang/kernels/okvs_opt.cpp
+++ b/mplang/kernels/okvs_opt.cpp
@@ -38,7 +38,7 @@ extern "C" {
 
     // Declaration of the safe (robust) solver implemented in okvs.cpp
     // Signature: solve_okvs(keys, values, output, n, m, seed_ptr)
-    void solve_okvs(uint64_t* keys, uint64_t* values, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr);
+    int solve_okvs(uint64_t* keys, uint64_t* values, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr);
 
     // Stateless Bin Selection
     // Maps a key to a deterministic bin index [0, NUM_BINS).
-- 
2.43.0


From 5453caad1a697c15ac8674b3eee14b85d5d8e48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:36 +0000
Subject: [PATCH 24/35] fix: report bins the opt OKVS solver cannot peel
 instead of filling them for another decoder

---
 mplang/backends/field_impl.py |  7 ++++++-
 mplang/kernels/okvs_opt.cpp   | 30 +++++++++---------------------
 2 files changed, 15 insertions(+), 22 deletions(-)

diff --git a/mplang/backends/field_impl.py b/mplang/backends/field_impl.py
index 4b9118a..2536ac5 100644
--- a/mplang/backends/field_impl.py
+++ b/mplang/backends/field_impl.py
@@ -85,6 +85,7 @@ def _get_lib() -> ctypes.CDLL | None:
                 ]
                 # Optimized Mega-Binning Versions
                 _LIB.solve_okvs_opt.argtypes = _LIB.solve_okvs.argtypes
+                _LIB.solve_okvs_opt.restype = ctypes.c_int  # failed bins
                 _LIB.decode_okvs_opt.argtypes = _LIB.decode_okvs.argtypes
 
                 _LIB.aes_128_expand.argtypes = [
@@ -166,7 +167,7 @@ def _okvs_solve_opt_impl(
     seed_c = np.ascontiguousarray(seed, dtype=np.uint64)
     output = np.zeros((m, 2), dtype=np.uint64)
 
-    lib.solve_okvs_opt(
+    failed_bins = lib.solve_okvs_opt(
         keys_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
         values_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
         output.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
@@ -174,6 +175,10 @@ def _okvs_solve_opt_impl(
         m,
         seed_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
     )
+    if failed_bins != 0:
+        raise RuntimeError(
+            f"OKVS core detected. Failed to peel {failed_bins} bins. n={n}, m={m}"
+        )
     return output
 
 
diff --git a/mplang/kernels/okvs_opt.cpp b/mplang/kernels/okvs_opt.cpp
index 05522de..f3aceec 100644
--- a/mplang/kernels/okvs_opt.cpp
+++ b/mplang/kernels/okvs_opt.cpp
@@ -36,10 +36,6 @@ extern "C" {
         uint64_t h1, h2, h3;
     };
 
-    // Declaration of the safe (robust) solver implemented in okvs.cpp
-    // Signature: solve_okvs(keys, values, output, n, m, seed_ptr)
-    int solve_okvs(uint64_t* keys, uint64_t* values, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr);
-
     // Stateless Bin Selection
     // Maps a key to a deterministic bin index [0, NUM_BINS).
     inline uint64_t get_bin_index(uint64_t key, __m128i seed) {
@@ -187,7 +183,8 @@ extern "C" {
         return true;
     }
 
-    void solve_okvs_opt(uint64_t* keys, uint64_t* values, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr) {
+    // Returns 0 on success, otherwise the number of bins that could not be peeled.
+    int solve_okvs_opt(uint64_t* keys, uint64_t* values, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr) {
         __m128i seed = _mm_loadu_si128((__m128i*)seed_ptr);
 
         // 1. Calculate Bin Boundaries
@@ -241,6 +238,7 @@ extern "C" {
         memset(output, 0, m * 16);
         __m128i* P_vec = (__m128i*)output;
 
+        std::atomic<int> failed_bins(0);
         #pragma omp parallel for schedule(dynamic)
         for(uint64_t b=0; b<NUM_BINS; ++b) {
             if(bin_keys[b].empty()) continue;
@@ -249,24 +247,14 @@ extern "C" {
             uint64_t valid_m = m_per_bin[b];
 
             if(!solve_bin(bin_keys[b], bin_vals[b], &P_vec[offset], valid_m, seed)) {
-                // On failure, log and fall back to the robust solver for this bin.
-                // The fallback is executed inside a critical section to avoid nested OpenMP
-                // regions and to serialize rare fallbacks.
-                #pragma omp critical
-                {
-                    fprintf(stderr, "[WARN] Bin %lu failed optimized peeling; falling back to safe solver. Items: %lu / M: %lu (Ratio: %.2f)\n",
-                        b, bin_keys[b].size(), valid_m, (double)valid_m / bin_keys[b].size());
-
-                    // Prepare pointers for the safe solver
-                    uint64_t* keys_ptr = &bin_keys[b][0];
-                    uint64_t* vals_ptr = (uint64_t*)&bin_vals[b][0];  // Cast __m128i* to uint64_t*
-                    uint64_t* out_ptr = output + (offset * 2ULL); // each 128-bit slot == 2 uint64_t
-
-                    // Call the safe solver implemented in okvs.cpp
-                    solve_okvs(keys_ptr, vals_ptr, out_ptr, bin_keys[b].size(), valid_m, seed_ptr);
-                }
+                // decode_okvs_opt maps the keys of every bin with get_bin_local_indices,
+                // so no other solver can stand in for this bin: report the failure.
+                fprintf(stderr, "[ERROR] Bin %lu failed optimized peeling. Items: %lu / M: %lu (Ratio: %.2f)\n",
+                    b, bin_keys[b].size(), valid_m, (double)valid_m / bin_keys[b].size());
+                failed_bins++;
             }
         }
+        return failed_bins;
     }
 
     void decode_okvs_opt(uint64_t* keys, uint64_t* storage, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr) {
-- 
2.43.0


From 941c5cb296730b06dd66d5f38fdfc913f39f3c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:53 +0000
Subject: [PATCH 25/35] fix: BFV operations accept the empty ciphertext of a
 product with zero, and decryption reads it as zero

---
 mplang/backends/bfv_impl.py | 57 +++++++++++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 3 deletions(-)

diff --git a/mplang/backends/bfv_impl.py b/mplang/backends/bfv_impl.py
index 53d1b76..59a1e77 100644
--- a/mplang/backends/bfv_impl.py
+++ b/mplang/backends/bfv_impl.py
@@ -384,7 +384,11 @@ def decrypt_impl(
     # sk is BFVSecretContextValue
 
     pt = sealapi.Plaintext()
-    sk.decryptor.decrypt(ciphertext.data, pt)
+    if ciphertext.data.is_transparent():
+        # Product with a zero plaintext; SEAL refuses to decrypt it.
+        sk.batch_encoder.encode([0], pt)
+    else:
+        sk.decryptor.decrypt(ciphertext.data, pt)
 
     return BFVValue(pt, sk, is_cipher=False)
 
@@ -511,12 +515,31 @@ def sub_impl(
         result_ct = sealapi.Ciphertext()
 
         if lhs.is_cipher and rhs.is_cipher:
+            # Handle transparent ciphertexts (zero)
+            if rhs.data.is_transparent():
+                return lhs
+            if lhs.data.is_transparent():
+                rhs.ctx.evaluator.negate(rhs.data, result_ct)
+                return BFVValue(result_ct, rhs.ctx, is_cipher=True)
+
             lhs.ctx.evaluator.sub(lhs.data, rhs.data, result_ct)
             return BFVValue(result_ct, lhs.ctx, is_cipher=True)
         elif lhs.is_cipher and not rhs.is_cipher:
+            if lhs.data.is_transparent():
+                # 0 - Plaintext -> -Encrypt(Plaintext)
+                new_ct = sealapi.Ciphertext()
+                lhs.ctx.encryptor.encrypt(rhs.data, new_ct)
+                lhs.ctx.evaluator.negate(new_ct, result_ct)
+                return BFVValue(result_ct, lhs.ctx, is_cipher=True)
+
             lhs.ctx.evaluator.sub_plain(lhs.data, rhs.data, result_ct)
             return BFVValue(result_ct, lhs.ctx, is_cipher=True)
         elif not lhs.is_cipher and rhs.is_cipher:
+            if rhs.data.is_transparent():
+                # Plaintext - 0 -> Encrypt(Plaintext)
+                rhs.ctx.encryptor.encrypt(lhs.data, result_ct)
+                return BFVValue(result_ct, rhs.ctx, is_cipher=True)
+
             neg_ct = sealapi.Ciphertext()
             rhs.ctx.evaluator.negate(rhs.data, neg_ct)
             rhs.ctx.evaluator.add_plain(neg_ct, lhs.data, result_ct)
@@ -530,6 +553,13 @@ def sub_impl(
     if isinstance(lhs, BFVValue) and lhs.is_cipher:
         pt = _ensure_plaintext(lhs.ctx, rhs)
         result_ct = sealapi.Ciphertext()
+        if lhs.data.is_transparent():
+            # 0 - Raw -> -Encrypt(Raw)
+            new_ct = sealapi.Ciphertext()
+            lhs.ctx.encryptor.encrypt(pt, new_ct)
+            lhs.ctx.evaluator.negate(new_ct, result_ct)
+            return BFVValue(result_ct, lhs.ctx, is_cipher=True)
+
         lhs.ctx.evaluator.sub_plain(lhs.data, pt, result_ct)
         return BFVValue(result_ct, lhs.ctx, is_cipher=True)
 
@@ -537,6 +567,11 @@ def sub_impl(
         # Raw - CT
         pt = _ensure_plaintext(rhs.ctx, lhs)
         result_ct = sealapi.Ciphertext()
+        if rhs.data.is_transparent():
+            # Raw - 0 -> Encrypt(Raw)
+            rhs.ctx.encryptor.encrypt(pt, result_ct)
+            return BFVValue(result_ct, rhs.ctx, is_cipher=True)
+
         neg_ct = sealapi.Ciphertext()
         rhs.ctx.evaluator.negate(rhs.data, neg_ct)
         rhs.ctx.evaluator.add_plain(neg_ct, pt, result_ct)
@@ -560,11 +595,17 @@ def mul_impl(
         result_ct = sealapi.Ciphertext()
 
         if lhs.is_cipher and rhs.is_cipher:
+            # Handle transparent ciphertexts (zero)
+            if lhs.data.is_transparent():
+                return lhs
+            if rhs.data.is_transparent():
+                return rhs
+
             lhs.ctx.evaluator.multiply(lhs.data, rhs.data, result_ct)
             return BFVValue(result_ct, lhs.ctx, is_cipher=True)
         elif lhs.is_cipher and not rhs.is_cipher:
             # Optimization: Check for zero plaintext to avoid expensive exception handling
-            if rhs.data.is_zero():
+            if rhs.data.is_zero() or lhs.data.is_transparent():
                 # Return transparent zero ciphertext (no noise, size 0)
                 # SEAL arithmetic ops handle transparent ciphertexts as zero.
                 # We must ensure relinearize/rotate also handle it.
@@ -579,7 +620,7 @@ def mul_impl(
                 raise e
         elif not lhs.is_cipher and rhs.is_cipher:
             # Optimization: Check for zero plaintext
-            if lhs.data.is_zero():
+            if lhs.data.is_zero() or rhs.data.is_transparent():
                 return BFVValue(sealapi.Ciphertext(), rhs.ctx, is_cipher=True)
 
             try:
@@ -598,6 +639,9 @@ def mul_impl(
     if isinstance(lhs, BFVValue) and lhs.is_cipher:
         # Check for zero plaintext to avoid "transparent ciphertext" error
         # Also check if plaintext is BFVValue(Plaintext)
+        if lhs.data.is_transparent():
+            return lhs
+
         if isinstance(rhs, TensorValue) and np.all(rhs.unwrap() == 0):
             result_ct = sealapi.Ciphertext()
             lhs.ctx.encryptor.encrypt_zero(result_ct)
@@ -621,6 +665,9 @@ def mul_impl(
 
     if isinstance(rhs, BFVValue) and rhs.is_cipher:
         # Check for zero plaintext to avoid "transparent ciphertext" error
+        if rhs.data.is_transparent():
+            return rhs
+
         if isinstance(lhs, TensorValue) and np.all(lhs.unwrap() == 0):
             result_ct = sealapi.Ciphertext()
             rhs.ctx.encryptor.encrypt_zero(result_ct)
@@ -700,6 +747,10 @@ def rotate_columns_impl(
     gk: BFVPublicContextValue,
 ) -> BFVValue:
     """Swap the two rows in SIMD batching (row 0 <-> row 1)."""
+    # Handle transparent ciphertext (zero)
+    if ciphertext.data.is_transparent():
+        return ciphertext
+
     new_ct = sealapi.Ciphertext()
     ciphertext.ctx.evaluator.rotate_columns(ciphertext.data, gk.galois_keys, new_ct)
     return BFVValue(new_ct, ciphertext.ctx, is_cipher=True)
-- 
2.43.0


From 1dc5310e20e32f7bbe9038ee90e09f981d4f4275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:53 +0000
Subject: [PATCH 26/35] fix: BFV product of a received ciphertext with raw
 zeros needs no public key

---
 mplang/backends/bfv_impl.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/mplang/backends/bfv_impl.py b/mplang/backends/bfv_impl.py
index 59a1e77..adea288 100644
--- a/mplang/backends/bfv_impl.py
+++ b/mplang/backends/bfv_impl.py
@@ -583,6 +583,14 @@ def sub_impl(
     raise TypeError(f"Unsupported types for sub: {type(lhs)}, {type(rhs)}")
 
 
+def _zero_ciphertext(ctx: Any) -> BFVValue:
+    """An encryption of zero, transparent if ctx came with a received value and has no public key."""
+    ct = sealapi.Ciphertext()
+    if hasattr(ctx, "encryptor"):
+        ctx.encryptor.encrypt_zero(ct)
+    return BFVValue(ct, ctx, is_cipher=True)
+
+
 @bfv.mul_p.def_impl
 def mul_impl(
     interpreter: Interpreter,
@@ -643,9 +651,7 @@ def mul_impl(
             return lhs
 
         if isinstance(rhs, TensorValue) and np.all(rhs.unwrap() == 0):
-            result_ct = sealapi.Ciphertext()
-            lhs.ctx.encryptor.encrypt_zero(result_ct)
-            return BFVValue(result_ct, lhs.ctx, is_cipher=True)
+            return _zero_ciphertext(lhs.ctx)
 
         try:
             pt = _ensure_plaintext(lhs.ctx, rhs)
@@ -658,9 +664,7 @@ def mul_impl(
             # We catch this error and return a valid zero ciphertext to maintain operator semantics.
             if "transparent" in str(e):
                 # Fallback for zero plaintext
-                result_ct = sealapi.Ciphertext()
-                lhs.ctx.encryptor.encrypt_zero(result_ct)
-                return BFVValue(result_ct, lhs.ctx, is_cipher=True)
+                return _zero_ciphertext(lhs.ctx)
             raise e
 
     if isinstance(rhs, BFVValue) and rhs.is_cipher:
@@ -669,9 +673,7 @@ def mul_impl(
             return rhs
 
         if isinstance(lhs, TensorValue) and np.all(lhs.unwrap() == 0):
-            result_ct = sealapi.Ciphertext()
-            rhs.ctx.encryptor.encrypt_zero(result_ct)
-            return BFVValue(result_ct, rhs.ctx, is_cipher=True)
+            return _zero_ciphertext(rhs.ctx)
 
         try:
             pt = _ensure_plaintext(rhs.ctx, lhs)
@@ -682,9 +684,7 @@ def mul_impl(
             # See comment above regarding "transparent ciphertext"
             if "transparent" in str(e):
                 # Fallback for zero plaintext
-                result_ct = sealapi.Ciphertext()
-                rhs.ctx.encryptor.encrypt_zero(result_ct)
-                return BFVValue(result_ct, rhs.ctx, is_cipher=True)
+                return _zero_ciphertext(rhs.ctx)
             raise e
 
     # Handle Plaintext * Plaintext (TensorValue * TensorValue)
-- 
2.43.0


From 92c0cf199c016f9f53571ce90c7fd5bb142761ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:53 +0000
Subject: [PATCH 27/35] fix: BFV sum and difference of ciphertexts that share
 their randomness

---
 mplang/backends/bfv_impl.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/mplang/backends/bfv_impl.py b/mplang/backends/bfv_impl.py
index adea288..efd6e90 100644
--- a/mplang/backends/bfv_impl.py
+++ b/mplang/backends/bfv_impl.py
@@ -421,6 +421,29 @@ def _ensure_plaintext(ctx: BFVPublicContextValue, data: BFVValue | TensorValue)
     return pt
 
 
+def _combine(method: str, lhs: BFVValue, rhs: BFVValue) -> BFVValue:
+    """lhs `method` rhs for two ciphertexts, neither of them transparent.
+
+    SEAL refuses a transparent result, which operands that share their
+    randomness give (x - x, or (x + p) - x): refresh lhs with an encryption
+    of zero and try again.
+    """
+    evaluator = getattr(lhs.ctx.evaluator, method)
+    result_ct = sealapi.Ciphertext()
+    try:
+        evaluator(lhs.data, rhs.data, result_ct)
+    except RuntimeError as e:
+        ctx = lhs.ctx if hasattr(lhs.ctx, "encryptor") else rhs.ctx
+        if "transparent" not in str(e) or not hasattr(ctx, "encryptor"):
+            raise
+        zero, fresh = sealapi.Ciphertext(), sealapi.Ciphertext()
+        ctx.encryptor.encrypt_zero(zero)
+        lhs.ctx.evaluator.add(lhs.data, zero, fresh)
+        result_ct = sealapi.Ciphertext()
+        evaluator(fresh, rhs.data, result_ct)
+    return BFVValue(result_ct, lhs.ctx, is_cipher=True)
+
+
 @bfv.add_p.def_impl
 def add_impl(
     interpreter: Interpreter,
@@ -439,8 +462,7 @@ def add_impl(
             if rhs.data.is_transparent():
                 return lhs
 
-            lhs.ctx.evaluator.add(lhs.data, rhs.data, result_ct)
-            return BFVValue(result_ct, lhs.ctx, is_cipher=True)
+            return _combine("add", lhs, rhs)
         elif lhs.is_cipher and not rhs.is_cipher:
             # Optimization: Handle transparent ciphertext
             if lhs.data.is_transparent():
@@ -522,8 +544,7 @@ def sub_impl(
                 rhs.ctx.evaluator.negate(rhs.data, result_ct)
                 return BFVValue(result_ct, rhs.ctx, is_cipher=True)
 
-            lhs.ctx.evaluator.sub(lhs.data, rhs.data, result_ct)
-            return BFVValue(result_ct, lhs.ctx, is_cipher=True)
+            return _combine("sub", lhs, rhs)
         elif lhs.is_cipher and not rhs.is_cipher:
             if lhs.data.is_transparent():
                 # 0 - Plaintext -> -Encrypt(Plaintext)
-- 
2.43.0


From 6fe1d621e5d96164c1c2bb6235dec9894f1872c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:18 +0000
Subject: [PATCH 28/35] fix: BFV zero products can be deserialised

---
 mplang/backends/bfv_impl.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/mplang/backends/bfv_impl.py b/mplang/backends/bfv_impl.py
index efd6e90..075e2c4 100644
--- a/mplang/backends/bfv_impl.py
+++ b/mplang/backends/bfv_impl.py
@@ -193,14 +193,17 @@ class BFVValue(Value):
     def to_json(self) -> dict[str, Any]:
         # Serialize the ciphertext/plaintext via temp file (SEAL API requirement)
         # Use /dev/shm on Linux for better performance (no disk I/O)
-        fname = _get_seal_temp_path()
-        try:
-            self.data.save(fname)
-            with open(fname, "rb") as f:
-                data_bytes = f.read()
-        finally:
-            if os.path.exists(fname):
-                os.unlink(fname)
+        # A transparent ciphertext (product with zero) is sent as no bytes: SEAL does not load it
+        data_bytes = b""
+        if not (self.is_cipher and self.data.is_transparent()):
+            fname = _get_seal_temp_path()
+            try:
+                self.data.save(fname)
+                with open(fname, "rb") as f:
+                    data_bytes = f.read()
+            finally:
+                if os.path.exists(fname):
+                    os.unlink(fname)
 
         # Serialize context as parameters only (to save bandwidth)
         # We create a temporary BFVParamContextValue wrapper
@@ -219,6 +222,9 @@ class BFVValue(Value):
         data_bytes = base64.b64decode(data["data_bytes"])
         is_cipher = data["is_cipher"]
 
+        if is_cipher and not data_bytes:
+            return cls(data=sealapi.Ciphertext(), ctx=ctx, is_cipher=True)
+
         # Load via temp file (SEAL API requirement)
         # Use /dev/shm on Linux for better performance (no disk I/O)
         fname = _get_seal_temp_path()
-- 
2.43.0


From 4abcfd11c69a60a0dfbe636b1c215ba7e2cab05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:38 +0000
Subject: [PATCH 29/35] fix: BFV aggregation adds exactly the requested slots
 when their number is not a power of two

---
 mplang/libs/mpc/analytics/aggregation.py | 63 +++++++++---------------
 1 file changed, 24 insertions(+), 39 deletions(-)

diff --git a/mplang/libs/mpc/analytics/aggregation.py b/mplang/libs/mpc/analytics/aggregation.py
index c05dc64..68fd329 100644
--- a/mplang/libs/mpc/analytics/aggregation.py
+++ b/mplang/libs/mpc/analytics/aggregation.py
@@ -19,7 +19,6 @@ This module implements efficient aggregation algorithms using BFV rotation.
 
 from __future__ import annotations
 
-import math
 from typing import Any
 
 import numpy as np
@@ -57,6 +56,27 @@ def _safe_rotate(
     return current
 
 
+def _sum_window(
+    ciphertext: Any, stride: int, n: int, galois_keys: Any, max_step: int = 1024
+) -> Any:
+    """Add the rotations by 0, stride, ..., (n - 1) * stride.
+
+    Doubles the window of partial sums and adds, for each bit of n, the window
+    of that size at the next offset: exactly n terms, with O(log n) rotations.
+    """
+    window, total, done, size = ciphertext, None, 0, 1
+    while True:
+        if n & size:
+            part = _safe_rotate(window, done * stride, galois_keys, max_step)
+            total = part if total is None else bfv.add(total, part)
+            done += size
+        if done >= n:
+            return ciphertext if total is None else total
+        rotated = _safe_rotate(window, size * stride, galois_keys, max_step)
+        window = bfv.add(window, rotated)
+        size *= 2
+
+
 def _rotate_and_sum_row(
     ciphertext: Any, k: int, galois_keys: Any, max_step: int = 1024
 ) -> Any:
@@ -67,17 +87,7 @@ def _rotate_and_sum_row(
     if k <= 1:
         return ciphertext
 
-    num_steps = math.ceil(math.log2(k))
-    current = ciphertext
-
-    for i in range(num_steps):
-        step = 1 << i
-        if step >= k:
-            break
-        rotated = _safe_rotate(current, step, galois_keys, max_step)
-        current = bfv.add(current, rotated)
-
-    return current
+    return _sum_window(ciphertext, 1, k, galois_keys, max_step)
 
 
 def rotate_and_sum(
@@ -284,20 +294,7 @@ def strided_rotate_and_sum(
         return ciphertext
 
     # Use recursive doubling with strided rotations
-    # Step 1: rotate by stride, add -> pairs summed at even positions
-    # Step 2: rotate by 2*stride, add -> quads summed at positions 0, 4*stride, ...
-    # ...
-    num_steps = math.ceil(math.log2(n_elements))
-    current = ciphertext
-
-    for i in range(num_steps):
-        step = stride * (1 << i)
-        if step >= n_elements * stride:
-            break
-        rotated = _safe_rotate(current, step, galois_keys, max_step)
-        current = bfv.add(current, rotated)
-
-    return current
+    return _sum_window(ciphertext, stride, n_elements, galois_keys, max_step)
 
 
 def batch_bucket_aggregate(
@@ -332,19 +329,7 @@ def batch_bucket_aggregate(
     # Use recursive doubling within each bucket region
     # Since all buckets use the same relative positions, one set of rotations
     # aggregates ALL buckets simultaneously!
-    num_steps = math.ceil(math.log2(samples_per_bucket))
-    current = ciphertext
-
-    for i in range(num_steps):
-        step = 1 << i
-        if step >= samples_per_bucket:
-            break
-        # Rotating by `step` shifts values within each bucket region
-        # Add original + rotated to sum pairs/quads/etc.
-        rotated = _safe_rotate(current, step, galois_keys)
-        current = bfv.add(current, rotated)
-
-    return current
+    return _sum_window(ciphertext, 1, samples_per_bucket, galois_keys)
 
 
 def extract_bucket_results(
-- 
2.43.0


From 7765095e1a883d06b649097ae72404de508901f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:23 +0000
Subject: [PATCH 30/35] fix: BFV sparse aggregation takes sources from the
 other row of slots

---
 mplang/libs/mpc/analytics/aggregation.py | 25 ++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/mplang/libs/mpc/analytics/aggregation.py b/mplang/libs/mpc/analytics/aggregation.py
index 68fd329..147eddb 100644
--- a/mplang/libs/mpc/analytics/aggregation.py
+++ b/mplang/libs/mpc/analytics/aggregation.py
@@ -190,18 +190,22 @@ def aggregate_sparse(
     # Rot -8: Mask[0]=1. -> Mask = [1, 0...]
     # Rot -4: Mask[1]=1. -> Mask = [0, 1, 0...]
 
-    rotations = {}  # shift -> mask_list
+    # Slots form two rows, and rotations stay within a row: a source in the
+    # other row takes a rotate_columns as well.
+    row_size = encoder.type.poly_modulus_degree // 2
+    rotations = {}  # (swap rows, shift) -> mask_list
 
     for target, sources in aggregations:
         for src in sources:
-            shift = src - target
-            if shift not in rotations:
-                rotations[shift] = [0] * vector_size
-            rotations[shift][target] = 1
+            swap = src // row_size != target // row_size
+            move = (swap, src % row_size - target % row_size)
+            if move not in rotations:
+                rotations[move] = [0] * vector_size
+            rotations[move][target] = 1
 
     final_result = None
 
-    for shift, mask_list in rotations.items():
+    for (swap, shift), mask_list in rotations.items():
         # Optimization: Skip if mask is all zeros (no contribution from this rotation)
         if not any(mask_list):
             continue
@@ -212,10 +216,11 @@ def aggregate_sparse(
         mask_pt = bfv.encode(mask_tensor, encoder)
 
         # Rotate
-        if shift == 0:
-            rotated_c = ciphertext
-        else:
-            rotated_c = bfv.rotate(ciphertext, shift, galois_keys)
+        rotated_c = ciphertext
+        if swap:
+            rotated_c = bfv.rotate_columns(rotated_c, galois_keys)
+        if shift != 0:
+            rotated_c = bfv.rotate(rotated_c, shift, galois_keys)
 
         # Mask
         masked_c = bfv.mul(rotated_c, mask_pt)
-- 
2.43.0


From a5832d67fc5978df34f469f31408c82b1f8a0935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:35 +0000
Subject: [PATCH 31/35] fix: BFV strided aggregation crosses into the second
 row of slots

---
 mplang/libs/mpc/analytics/aggregation.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/mplang/libs/mpc/analytics/aggregation.py b/mplang/libs/mpc/analytics/aggregation.py
index 147eddb..bc578fc 100644
--- a/mplang/libs/mpc/analytics/aggregation.py
+++ b/mplang/libs/mpc/analytics/aggregation.py
@@ -274,6 +274,7 @@ def strided_rotate_and_sum(
     n_elements: int,
     galois_keys: Any,
     max_step: int = 1024,
+    slot_count: int = 4096,
 ) -> Any:
     """Aggregate elements at positions [0, stride, 2*stride, ...] into slot 0.
 
@@ -286,6 +287,7 @@ def strided_rotate_and_sum(
         n_elements: Number of elements to aggregate (at positions 0, stride, ..., (n-1)*stride).
         galois_keys: Rotation keys.
         max_step: Maximum rotation step for safe_rotate.
+        slot_count: Total number of slots, in two rows of slot_count / 2.
 
     Returns:
         Ciphertext where slot 0 contains sum of strided elements.
@@ -298,8 +300,20 @@ def strided_rotate_and_sum(
     if n_elements <= 1:
         return ciphertext
 
-    # Use recursive doubling with strided rotations
-    return _sum_window(ciphertext, stride, n_elements, galois_keys, max_step)
+    # Use recursive doubling with strided rotations, in each of the two rows
+    row_size = slot_count // 2
+    in_row0 = min(n_elements, (row_size - 1) // stride + 1)
+    row0_sum = _sum_window(ciphertext, stride, in_row0, galois_keys, max_step)
+    if in_row0 == n_elements:
+        return row0_sum
+
+    row1 = bfv.rotate_columns(ciphertext, galois_keys)
+    first = in_row0 * stride - row_size
+    row1 = _safe_rotate(row1, first, galois_keys, max_step)
+    row1_sum = _sum_window(
+        row1, stride, n_elements - in_row0, galois_keys, max_step
+    )
+    return bfv.add(row0_sum, row1_sum)
 
 
 def batch_bucket_aggregate(
-- 
2.43.0


From 4ca819a074c96f7fb5c28ea1d02c6f3116f26d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:36 +0000
Subject: [PATCH 32/35] fix: BFV batch_encode of a single row gives the
 plaintext, not a tuple of one

---
 mplang/backends/bfv_impl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/bfv_impl.py b/mplang/backends/bfv_impl.py
index 075e2c4..3127431 100644
--- a/mplang/backends/bfv_impl.py
+++ b/mplang/backends/bfv_impl.py
@@ -326,7 +326,7 @@ def batch_encode_impl(
     interpreter: Interpreter,
     op: Operation,
     *args: Value,
-) -> tuple[BFVValue | TensorValue, ...]:
+) -> BFVValue | tuple[BFVValue, ...]:
     # args will be (tensor, encoder, key)
     key = args[-1]
     _encoder = args[-2]
@@ -349,7 +349,8 @@ def batch_encode_impl(
         ctx.batch_encoder.encode(vec, pt)
         results.append(BFVValue(pt, ctx, is_cipher=False))
 
-    return tuple(results)
+    # An operation with one output returns the value itself
+    return results[0] if len(results) == 1 else tuple(results)
 
 
 @bfv.encrypt_p.def_impl
-- 
2.43.0


From 93223e41c76b8f464e512afb2903e505e21e9b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:02 +0000
Subject: [PATCH 33/35] fix: evaluate a single OPRF item without slicing out of
 its tensor's rank

---
 mplang/libs/mpc/psi/oprf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mplang/libs/mpc/psi/oprf.py b/mplang/libs/mpc/psi/oprf.py
index 45791e7..ef02b45 100644
--- a/mplang/libs/mpc/psi/oprf.py
+++ b/mplang/libs/mpc/psi/oprf.py
@@ -304,7 +304,7 @@ def sender_eval_prf(
             raw_out_batch, domain_sep=0x0CDF, num_rows=1
         )
 
-        # Flatten back to (32,) using slice to avoid extra run_jax node
-        return tensor.slice_tensor(hashed_batch, (0, 0), (32,))
+        # Flatten back to (32,) without an extra run_jax node
+        return tensor.reshape(hashed_batch, (32,))
 
     return cast(el.Object, simp.pcall_static((sender,), _eval, sender_key, candidate))
-- 
2.43.0


From 1f88cb544dfbd2784d6eb6cda811c714e946030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:03 +0000
Subject: [PATCH 34/35] fix: expand every chunk of a silent VOLE with its own
 masks

---
 mplang/libs/mpc/ot/silent.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mplang/libs/mpc/ot/silent.py b/mplang/libs/mpc/ot/silent.py
index 917d0ba..d109de2 100644
--- a/mplang/libs/mpc/ot/silent.py
+++ b/mplang/libs/mpc/ot/silent.py
@@ -173,10 +173,12 @@ def silent_vole_random_u(
 
         master_seed = tensor.run_jax(_view_slice_reshape, seed_val)
 
-        # Expand to K seeds: (1, K, 2)
-        row_seeds_packed = field.aes_expand(master_seed, base_k)
+        # Expand to K seeds for each chunk: (1, num_chunks * K, 2)
+        row_seeds_packed = field.aes_expand(master_seed, num_chunks * base_k)
         # Reshape using run_jax for XLA optimization
-        row_seeds = tensor.run_jax(lambda x: x.reshape(base_k, 2), row_seeds_packed)
+        row_seeds = tensor.run_jax(
+            lambda x: x.reshape(num_chunks, base_k, 2), row_seeds_packed
+        )
 
         # Iterate chunks
         local_res = []
@@ -186,7 +188,8 @@ def silent_vole_random_u(
             # Generate mask for this chunk using AES
             # Need ceil(this_len / 128) blocks
             num_blocks = (this_len + 127) // 128
-            mask_packed = field.aes_expand(row_seeds, num_blocks)
+            chunk_seeds = tensor.run_jax(lambda x, i=i: x[i], row_seeds)
+            mask_packed = field.aes_expand(chunk_seeds, num_blocks)
 
             # We must use `tensor.run_jax` so logic runs on device
             def _core(base: Any, mask: Any, this_len: int = this_len) -> Any:
-- 
2.43.0


From a97f5f6c08f454e630713314012fdb62abfc4b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:00:01 +0000
Subject: [PATCH 35/35] fix: sums that are the point at infinity, and its byte
 form, are None instead of an error

add and sub raised ValueError for P + (-P) and P - P although mul represents
infinity as None; bytes_to_point made an unusable point of the zero bytes that
point_to_bytes writes for infinity.
---
 mplang/backends/crypto_impl.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/mplang/backends/crypto_impl.py b/mplang/backends/crypto_impl.py
index 859a80b..681ce1a 100644
--- a/mplang/backends/crypto_impl.py
+++ b/mplang/backends/crypto_impl.py
@@ -171,6 +171,16 @@ def mul_impl(
     return ECPointValue.from_coincurve(result)
 
 
+def _combine(a: coincurve.PublicKey, b: coincurve.PublicKey) -> ECPointValue | None:
+    """Sum of two finite points; None if it is the point at infinity."""
+    try:
+        result = a.combine([b])
+    except ValueError:
+        # libsecp256k1 refuses a sum exactly when it is the point at infinity
+        return None
+    return ECPointValue.from_coincurve(result)
+
+
 @crypto.add_p.def_impl
 def add_impl(
     interpreter: Interpreter,
@@ -182,8 +192,7 @@ def add_impl(
         return p2
     if p2 is None:
         return p1
-    result = p1.coincurve_key.combine([p2.coincurve_key])
-    return ECPointValue.from_coincurve(result)
+    return _combine(p1.coincurve_key, p2.coincurve_key)
 
 
 @crypto.sub_p.def_impl
@@ -204,8 +213,7 @@ def sub_impl(
     if p1 is None:
         return ECPointValue.from_coincurve(neg_p2)
 
-    result = p1.coincurve_key.combine([neg_p2])
-    return ECPointValue.from_coincurve(result)
+    return _combine(p1.coincurve_key, neg_p2)
 
 
 @crypto.random_scalar_p.def_impl
@@ -256,7 +264,7 @@ def point_to_bytes_impl(
 @crypto.bytes_to_point_p.def_impl
 def bytes_to_point_impl(
     interpreter: Interpreter, op: Operation, b: TensorValue | BytesValue
-) -> ECPointValue:
+) -> ECPointValue | None:
     if isinstance(b, TensorValue):
         raw = b.unwrap().tobytes()
     elif isinstance(b, BytesValue):
@@ -266,6 +274,9 @@ def bytes_to_point_impl(
             f"bytes_to_point expects TensorValue or BytesValue, got {type(b)}"
         )
 
+    if not any(raw):
+        # point_to_bytes writes the point at infinity as zeros
+        return None
     return ECPointValue(raw)
 
 
-- 
2.43.0

