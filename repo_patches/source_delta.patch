From bc1d7440649bcd14a91c280dde9bdf7a0d461407 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 21:56:21 +0000
Subject: [PATCH 01/71] fix: do not hand out nodes already finished or blocked
 when marked out of order in GraphWalker

---
 python/lsst/pipe/base/graph_walker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/graph_walker.py b/python/lsst/pipe/base/graph_walker.py
index d73a297..512a270 100644
--- a/python/lsst/pipe/base/graph_walker.py
+++ b/python/lsst/pipe/base/graph_walker.py
@@ -90,7 +90,7 @@ class GraphWalker[T]:
             assert successor not in self._active, (
                 "A node downstream of an active one should not have been yielded yet."
             )
-            if all(
+            if successor in self._incomplete and all(
                 predecessor not in self._incomplete for predecessor in self._xgraph.predecessors(successor)
             ):
                 self._ready.add(successor)
@@ -118,4 +118,6 @@ class GraphWalker[T]:
         self._xgraph.remove_node(key)
         self._xgraph.remove_nodes_from(descendants)
         self._incomplete.difference_update(descendants)
+        self._active.difference_update(descendants)
+        self._ready.difference_update(descendants)
         return descendants
-- 
2.43.0


From cb6324cb240e38f82497b65633cbd2442c283e13 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:15:32 +0000
Subject: [PATCH 02/71] fix: receive quantum reports while the subprocess is
 running so large ones cannot deadlock it

---
 python/lsst/pipe/base/mp_graph_executor.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/mp_graph_executor.py b/python/lsst/pipe/base/mp_graph_executor.py
index ca90f3d..1b580a5 100644
--- a/python/lsst/pipe/base/mp_graph_executor.py
+++ b/python/lsst/pipe/base/mp_graph_executor.py
@@ -106,6 +106,7 @@ class _Job:
         self._state = JobState.PENDING
         self.started: float = 0.0
         self._rcv_conn: multiprocessing.connection.Connection | None = None
+        self._report: QuantumReport | None = None
         self._terminated = False
 
     @property
@@ -294,6 +295,22 @@ class _Job:
             self.process = None
             self._rcv_conn = None
 
+    def poll_report(self) -> None:
+        """Receive the report if the process has already sent it.
+
+        This has to be called while the process is still running, because a
+        process sending a report that is larger than the pipe's buffer cannot
+        finish until that report is received.
+        """
+        assert self._rcv_conn is not None, "Process must be started"
+        try:
+            if self._report is None and self._rcv_conn.poll():
+                self._report = self._rcv_conn.recv()
+        except Exception:
+            # Likely due to the process having been killed; this is handled by
+            # report().
+            pass
+
     def report(self) -> QuantumReport:
         """Return task report, should be called after process finishes and
         before cleanup().
@@ -301,7 +318,7 @@ class _Job:
         assert self.process is not None, "Process must be started"
         assert self._rcv_conn is not None, "Process must be started"
         try:
-            report = self._rcv_conn.recv()
+            report = self._report if self._report is not None else self._rcv_conn.recv()
             report.exitCode = self.process.exitcode
         except Exception:
             # Likely due to the process killed, but there may be other reasons.
@@ -804,6 +821,7 @@ class MPGraphExecutor(QuantumGraphExecutor):
                 job = jobs.jobs[quantum_id]
                 assert job.process is not None, "Process cannot be None"
                 blocked: list[_Job] = []
+                job.poll_report()
                 if not job.process.is_alive():
                     _LOG.debug("finished: %s", job)
                     # finished
-- 
2.43.0


From 1ffd59ece98eba71ef0e41fdc879150039c902c8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:28:31 +0000
Subject: [PATCH 03/71] fix: report the original exception when task
 construction fails

A failure in makeTask left 'task' (and 'outputs_put') unbound, so the
cleanup raised UnboundLocalError instead of the original exception and
no attempt metadata was saved with the logs.
---
 python/lsst/pipe/base/single_quantum_executor.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/single_quantum_executor.py b/python/lsst/pipe/base/single_quantum_executor.py
index cdec3e9..cb8c473 100644
--- a/python/lsst/pipe/base/single_quantum_executor.py
+++ b/python/lsst/pipe/base/single_quantum_executor.py
@@ -304,10 +304,11 @@ class SingleQuantumExecutor(QuantumExecutor):
                 task_node.label,
                 quantum.dataId,
             )
+            task: PipelineTask | None = None
+            outputs_put: list[uuid.UUID] = []
             try:
                 task = self._task_factory.makeTask(task_node, limited_butler, init_input_refs)
                 logInfo(None, "start", metadata=quantumMetadata)  # type: ignore[arg-type]
-                outputs_put: list[uuid.UUID] = []
                 with limited_butler.record_metrics() as butler_metrics, GcMetrics() as gc_metrics:
                     caveats = self._run_quantum(
                         task, quantum, task_node, limited_butler, quantum_id=quantum_id, ids_put=outputs_put
@@ -334,7 +335,12 @@ class SingleQuantumExecutor(QuantumExecutor):
                 # PropertyList.
             finally:
                 logInfo(None, "end", metadata=quantumMetadata)  # type: ignore[arg-type]
-                fullMetadata = task.getFullMetadata()
+                if task is not None:
+                    fullMetadata = task.getFullMetadata()
+                else:
+                    # Task construction failed, so there is no task metadata.
+                    fullMetadata = _TASK_FULL_METADATA_TYPE()
+                    fullMetadata[task_node.label] = _TASK_METADATA_TYPE()
                 quantumMetadata["outputs"] = [str(output) for output in outputs_put]
                 fullMetadata["quantum"] = quantumMetadata
                 if self._job_metadata is not None:
-- 
2.43.0


From 8854cbe37106afa47973f9743e0746f5fd9b7357 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:29:41 +0000
Subject: [PATCH 04/71] fix: keep previous attempts in logs streamed to a file

The lists of previous attempts and previous process quanta are extended
in place, which does not mark those fields as set, so exclude_unset
dropped them from logs written through a full butler.
---
 python/lsst/pipe/base/log_capture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/log_capture.py b/python/lsst/pipe/base/log_capture.py
index 356e1c7..a4add48 100644
--- a/python/lsst/pipe/base/log_capture.py
+++ b/python/lsst/pipe/base/log_capture.py
@@ -235,7 +235,7 @@ class LogCapture:
                             with open(temporary.ospath, "a") as log_stream:
                                 ButlerLogRecords.write_streaming_extra(
                                     log_stream,
-                                    ctx.extra.model_dump_json(exclude_unset=True, exclude_defaults=True),
+                                    ctx.extra.model_dump_json(exclude_defaults=True),
                                 )
                         if ctx.store:
                             temporary.ingest()
-- 
2.43.0


From 23670b2e456887adb7d95b678c14eec157fa5e7e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:29:41 +0000
Subject: [PATCH 05/71] fix: do not duplicate metadata of successful quanta in
 streamed logs

The in-memory branch already clears it, and the field is documented to
be None when the quantum succeeds.
---
 python/lsst/pipe/base/log_capture.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/lsst/pipe/base/log_capture.py b/python/lsst/pipe/base/log_capture.py
index a4add48..cccea6d 100644
--- a/python/lsst/pipe/base/log_capture.py
+++ b/python/lsst/pipe/base/log_capture.py
@@ -227,6 +227,13 @@ class LogCapture:
                     try:
                         with ButlerMDC.set_mdc(mdc):
                             yield ctx
+                    except:
+                        raise
+                    else:
+                        # If the quantum succeeded, we don't need to save the
+                        # metadata in the logs, because we'll have saved them
+                        # in the metadata.
+                        ctx.extra.metadata = None
                     finally:
                         # Ensure that the logs are stored in butler.
                         logging.getLogger().removeHandler(log_handler_file)
-- 
2.43.0


From ac9ac5443fc41dc7b68d15b217884a514c5b1046 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:30:38 +0000
Subject: [PATCH 06/71] fix: do not turn integers, booleans and numeric strings
 in metadata into floats on read

The before-validator that maps null to NaN passed every other value
through float(), so the float branch of the union always won.
---
 python/lsst/pipe/base/_task_metadata.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/_task_metadata.py b/python/lsst/pipe/base/_task_metadata.py
index da201ac..352a2f6 100644
--- a/python/lsst/pipe/base/_task_metadata.py
+++ b/python/lsst/pipe/base/_task_metadata.py
@@ -124,10 +124,12 @@ class GetSetDictMetadata(SetDictMetadata, GetDictMetadata, Protocol):
 # constant "inf" or "nan", since the Pydantic model_config ser_json_inf_nan
 # doesn't automatically get picked up by parent models. This before-validator
 # turns those nulls back into NaNs, making the metadata readable again.
-def _convert_null_to_nan(value: Any) -> float:
+def _convert_null_to_nan(value: Any) -> Any:
+    # Anything else must be left alone, to let Pydantic pick the right branch
+    # of the unions below.
     if value is None:
         return float("nan")
-    return float(value)
+    return value
 
 
 type _NullToNanFloat = Annotated[StrictFloat, BeforeValidator(_convert_null_to_nan)]
-- 
2.43.0


From c8c54040224ae889cce4cd24aff4f0b7b66aa128 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:42:37 +0000
Subject: [PATCH 07/71] fix: identify failed and skipped quanta in reports of
 single-process runs

Their quantumId was left as None, unlike for successful quanta and for
multi-process runs.
---
 python/lsst/pipe/base/mp_graph_executor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/lsst/pipe/base/mp_graph_executor.py b/python/lsst/pipe/base/mp_graph_executor.py
index 1b580a5..b2f636c 100644
--- a/python/lsst/pipe/base/mp_graph_executor.py
+++ b/python/lsst/pipe/base/mp_graph_executor.py
@@ -701,6 +701,7 @@ class MPGraphExecutor(QuantumGraphExecutor):
                         raise
                 except Exception as exc:
                     quantum_report = QuantumReport.from_exception(
+                        quantumId=quantum_id,
                         exception=exc,
                         dataId=data_id,
                         taskLabel=task_node.label,
@@ -751,6 +752,7 @@ class MPGraphExecutor(QuantumGraphExecutor):
                     for downstream_quantum_id in walker.fail(quantum_id):
                         downstream_node_state = xgraph.nodes[downstream_quantum_id]
                         failed_quantum_report = QuantumReport(
+                            quantumId=downstream_quantum_id,
                             status=ExecutionStatus.SKIPPED,
                             dataId=downstream_node_state["data_id"],
                             taskLabel=downstream_node_state["task_label"],
-- 
2.43.0


From fd1254379b2f23faa67bcb01c923baf40c6fe4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 22:42:37 +0000
Subject: [PATCH 08/71] fix: pass fail_fast on to quantum subprocesses

It was never forwarded, so with fail-fast a repeatable error did not
make the subprocess exit with the documented exit code.
---
 python/lsst/pipe/base/mp_graph_executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/mp_graph_executor.py b/python/lsst/pipe/base/mp_graph_executor.py
index b2f636c..0db988a 100644
--- a/python/lsst/pipe/base/mp_graph_executor.py
+++ b/python/lsst/pipe/base/mp_graph_executor.py
@@ -885,7 +885,7 @@ class MPGraphExecutor(QuantumGraphExecutor):
 
             # see if we can start more jobs
             while len(jobs.running) < self._num_proc and jobs.pending:
-                job = jobs.submit(self._quantum_executor, self._start_method)
+                job = jobs.submit(self._quantum_executor, self._start_method, fail_fast=self._fail_fast)
                 _LOG.debug("Submitted %s", job)
 
             # Do cleanup for timed out jobs if necessary.
-- 
2.43.0


From ee6dfde3da2e4450ece3cee6e93bc2a1422b5ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 23:15:54 +0000
Subject: [PATCH 09/71] fix: drop quanta whose outputs were all removed by
 adjustQuantum

The check for predicted outputs counted the metadata and log datasets, which
adjustQuantum never sees, so such quanta were always kept.
---
 python/lsst/pipe/base/quantum_graph_builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph_builder.py b/python/lsst/pipe/base/quantum_graph_builder.py
index 88b792f..e94f7c5 100644
--- a/python/lsst/pipe/base/quantum_graph_builder.py
+++ b/python/lsst/pipe/base/quantum_graph_builder.py
@@ -712,7 +712,9 @@ class QuantumGraphBuilder(ABC):
                 no_work_quanta.append(quantum_key)
                 continue
             if helper.outputs_adjusted:
-                if not any(adjusted_refs for adjusted_refs in helper.outputs.values()):
+                # (Metadata and log outputs cannot be adjusted and do not
+                # count.)
+                if not any(helper.outputs[edge.dataset_type_name] for edge in task_node.outputs.values()):
                     # No outputs also means we don't generate this quantum.
                     self.log.debug(
                         "No outputs predicted for quantum %s of task %s.",
-- 
2.43.0


From 083a4b417e22b1fe4aafb896c66d04b908adf3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 23:17:09 +0000
Subject: [PATCH 10/71] fix: resolve init datasets in init-dependency order
 when building quantum graphs

A task that consumes another task's init-output but none of its runtime
outputs may be sorted before it, and the build then failed with
InitInputMissingError.
---
 python/lsst/pipe/base/quantum_graph_builder.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph_builder.py b/python/lsst/pipe/base/quantum_graph_builder.py
index e94f7c5..d3e9839 100644
--- a/python/lsst/pipe/base/quantum_graph_builder.py
+++ b/python/lsst/pipe/base/quantum_graph_builder.py
@@ -70,7 +70,7 @@ from . import automatic_connection_constants as acc
 from ._status import NoWorkFound
 from ._task_metadata import TaskMetadata
 from .connections import AdjustQuantumHelper, QuantaAdjuster
-from .pipeline_graph import Edge, PipelineGraph, TaskNode
+from .pipeline_graph import Edge, NodeType, PipelineGraph, TaskNode
 from .prerequisite_helpers import PrerequisiteInfo, SkyPixBoundsBuilder, TimespanBuilder
 from .quantum_graph_skeleton import (
     DatasetKey,
@@ -478,6 +478,14 @@ class QuantumGraphBuilder(ABC):
             # Loop over tasks again to run the adjust hooks.
             for task_node in self._pipeline_graph.tasks.values():
                 self._adjust_task_quanta(task_node, full_skeleton, skipped_quanta[task_node.label])
+            # Add init-inputs and init-outputs to the skeleton.  Tasks sorted
+            # by their runtime dependencies are not necessarily sorted by their
+            # init dependencies, so this needs its own loop.
+            for node_type, task_label, _ in self._pipeline_graph.iter_nodes():
+                if node_type is NodeType.TASK_INIT:
+                    self._resolve_task_init(
+                        self._pipeline_graph.tasks[task_label], full_skeleton, bool(skipped_quanta[task_label])
+                    )
             # Add global init-outputs to the skeleton.
             for dataset_type in self._global_init_output_types.values():
                 dataset_key = full_skeleton.add_dataset_node(
@@ -748,7 +756,6 @@ class QuantumGraphBuilder(ABC):
         for no_work_quantum in no_work_quanta:
             skeleton.remove_quantum_node(no_work_quantum, remove_outputs=True)
         remaining_quanta = skeleton.get_quanta(task_node.label)
-        self._resolve_task_init(task_node, skeleton, bool(skipped_quanta))
         message_terms = []
         if no_work_quanta:
             message_terms.append(f"{len(no_work_quanta)} had no work to do")
@@ -1165,7 +1172,7 @@ class QuantumGraphBuilder(ABC):
             Whether any of this task's quanta were skipped because they had
             already succeeded.
         """
-        quanta = skeleton.get_quanta(task_node.label)
+        quanta = skeleton.get_quanta(task_node.label) if skeleton.has_task(task_node.label) else ()
         task_init_key = TaskInitKey(task_node.label)
         if quanta:
             adapted_inputs: NamedKeyDict[DatasetType, DatasetRef] = NamedKeyDict()
-- 
2.43.0


From 05a90a61d71b64cbe6d4b8f6bc89947be339c1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 23:18:51 +0000
Subject: [PATCH 11/71] fix: report init-inputs lost to pruning when building
 quantum graphs

Pruning all quanta of a task dropped its init-outputs even if other tasks
still needed them, and the resulting graph failed with IndexError when its
quanta were built.
---
 python/lsst/pipe/base/quantum_graph_builder.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/python/lsst/pipe/base/quantum_graph_builder.py b/python/lsst/pipe/base/quantum_graph_builder.py
index d3e9839..718a5eb 100644
--- a/python/lsst/pipe/base/quantum_graph_builder.py
+++ b/python/lsst/pipe/base/quantum_graph_builder.py
@@ -513,6 +513,22 @@ class QuantumGraphBuilder(ABC):
                             anchor_label,
                         )
                     full_skeleton.remove_orphan_datasets()
+                    # Pruning can drop a task whose init-outputs are still
+                    # needed by another one.
+                    for task_node in self._pipeline_graph.tasks.values():
+                        if not full_skeleton.has_task(task_node.label):
+                            continue
+                        remaining_init_inputs = {
+                            dataset_key.parent_dataset_type_name
+                            for dataset_key in full_skeleton.iter_inputs_of(TaskInitKey(task_node.label))
+                        }
+                        for read_edge in task_node.init.iter_all_inputs():
+                            if read_edge.parent_dataset_type_name not in remaining_init_inputs:
+                                raise InitInputMissingError(
+                                    f"Init-input dataset {read_edge.parent_dataset_type_name!r} needed by "
+                                    f"task {task_node.label!r} will not be produced because all quanta of "
+                                    "its producer were pruned."
+                                )
             if attach_datastore_records:
                 self._attach_datastore_records(full_skeleton)
         return full_skeleton
-- 
2.43.0


From 1bdfefb0d3fd72eabe25e7b2859e58887906489b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 23:32:37 +0000
Subject: [PATCH 12/71] fix: find keys adjacent to the end of an address page

---
 python/lsst/pipe/base/quantum_graph/_multiblock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_multiblock.py b/python/lsst/pipe/base/quantum_graph/_multiblock.py
index c66501f..acd8dab 100644
--- a/python/lsst/pipe/base/quantum_graph/_multiblock.py
+++ b/python/lsst/pipe/base/quantum_graph/_multiblock.py
@@ -538,7 +538,7 @@ class AddressReader:
             bounds = self.page_bounds[mid]
             if key.int < bounds.uuid_int_begin:
                 right = mid - 1
-            elif key.int > bounds.uuid_int_end:
+            elif key.int >= bounds.uuid_int_end:
                 left = mid + 1
             else:
                 # Should have been on this page, but it wasn't.
-- 
2.43.0


From 35ecf539145d54f19f06f854ffa9ddbfbdee93d6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 23:38:09 +0000
Subject: [PATCH 13/71] fix: keep the run of inputs not produced by the graph
 when changing its output run

---
 python/lsst/pipe/base/quantum_graph/_predicted.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_predicted.py b/python/lsst/pipe/base/quantum_graph/_predicted.py
index f2b3f36..c6a7a95 100644
--- a/python/lsst/pipe/base/quantum_graph/_predicted.py
+++ b/python/lsst/pipe/base/quantum_graph/_predicted.py
@@ -1741,15 +1741,13 @@ class PredictedQuantumGraphComponents:
                 output_dataset.run = output_run
         for quantum_datasets in itertools.chain(self.init_quanta.root, self.quantum_datasets.values()):
             for input_dataset in itertools.chain.from_iterable(quantum_datasets.inputs.values()):
-                if input_dataset.run == self.header.output_run:
+                # A dataset isn't necessarily an output of the graph just
+                # because it's in the output run; the graph could have been
+                # built with extend_run=True, and in that case the dataset
+                # stays where it is.
+                if (new_dataset_id := uuid_map.get(input_dataset.dataset_id)) is not None:
                     input_dataset.run = output_run
-                    input_dataset.dataset_id = uuid_map.get(
-                        input_dataset.dataset_id,
-                        # This dataset isn't necessary an output of the graph
-                        # just because it's in the output run; the graph could
-                        # have been built with extend_run=True.
-                        input_dataset.dataset_id,
-                    )
+                    input_dataset.dataset_id = new_dataset_id
         # Update the keys of the quantum_datasets dict.
         self.quantum_datasets = {qd.quantum_id: qd for qd in self.quantum_datasets.values()}
         # Since the UUIDs have changed, the thin graph needs to be rewritten.
-- 
2.43.0


From 91912d969204941a91ad6cfc0e01e77cf6751219 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 23:39:55 +0000
Subject: [PATCH 14/71] fix: ignore the IDs of init quanta when reading quanta
 from a file, as documented

---
 python/lsst/pipe/base/quantum_graph/_predicted.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_predicted.py b/python/lsst/pipe/base/quantum_graph/_predicted.py
index c6a7a95..4e1f6d1 100644
--- a/python/lsst/pipe/base/quantum_graph/_predicted.py
+++ b/python/lsst/pipe/base/quantum_graph/_predicted.py
@@ -2081,7 +2081,16 @@ class PredictedQuantumGraphReader(BaseQuantumGraphReader):
             for quantum_id in quantum_ids:
                 if quantum_id in self.components.quantum_datasets:
                     continue
-                address_row = self.address_reader.find(quantum_id)
+                try:
+                    address_row = self.address_reader.find(quantum_id)
+                except LookupError:
+                    # Special init quanta do not have addresses.
+                    init_quanta = self.components.init_quanta
+                    if not init_quanta.root:
+                        init_quanta = self._read_single_block("init_quanta", PredictedInitQuantaModel)
+                    if any(q.quantum_id == quantum_id for q in init_quanta.root):
+                        continue
+                    raise
                 quantum_datasets = mb_reader.read_model(
                     address_row.addresses[0], PredictedQuantumDatasetsModel, self.decompressor
                 )
-- 
2.43.0


From a3759df623e0d9025e84f7a3216cb86c59e6a744 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 23:48:41 +0000
Subject: [PATCH 15/71] fix: report the status of attempts with neither logs
 nor metadata as unknown

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index e7a23e5..1932e5d 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -2410,8 +2410,6 @@ class ProvenanceQuantumScanModels:
                 # at a very unlucky time (in between those two writes), or
                 # something even weirder happened.
                 self.attempts[-1].status = QuantumAttemptStatus.ABORTED_SUCCESS
-            else:
-                self.attempts[-1].status = QuantumAttemptStatus.FAILED
         if len(self.metadata.attempts) < len(self.attempts):
             # Metadata missing usually just means a failure.  In any case, the
             # status will already be correct, either because it was set to a
-- 
2.43.0


From 891813209e962c3df6aa486a48829bc2b19bce68 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 23:48:41 +0000
Subject: [PATCH 16/71] fix: load the quanta and datasets selected in
 ProvenanceQuantumGraph.from_args

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index 1932e5d..5d4dbd0 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -1204,11 +1204,11 @@ class ProvenanceQuantumGraph(BaseQuantumGraph):
             with exit_stack:
                 if quanta is None:
                     reader.read_quanta()
-                elif not quanta:
+                elif quanta:
                     reader.read_quanta(quanta)
                 if datasets is None:
                     reader.read_datasets()
-                elif not datasets:
+                elif datasets:
                     reader.read_datasets(datasets)
                 yield reader.graph, None
 
-- 
2.43.0


From 0d663178c842e1fbfe89e21d23e415c72cfcb4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 23:48:42 +0000
Subject: [PATCH 17/71] fix: write provenance for quanta that failed before
 their task could run

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index 5d4dbd0..2ffd29e 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -2113,6 +2113,10 @@ class ProvenanceQuantumGraphWriter:
         provenance_models = ProvenanceQuantumScanModels.from_metadata_and_logs(
             predicted_quantum, metadata, logs, incomplete=False
         )
+        # If the quantum failed before it could report on its outputs, there
+        # aren't any.
+        for predicted_output in itertools.chain.from_iterable(predicted_quantum.outputs.values()):
+            provenance_models.output_existence.setdefault(predicted_output.dataset_id, False)
         scan_data = provenance_models.to_scan_data(predicted_quantum, compressor=self.compressor)
         self.write_scan_data(scan_data)
 
-- 
2.43.0


From 9e3a7a0dd70031e2a0612c28060dfe9643317fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 23:48:42 +0000
Subject: [PATCH 18/71] fix: ignore the IDs of init quanta when reading
 provenance, as documented

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index 2ffd29e..e22e473 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -1820,7 +1820,14 @@ class ProvenanceQuantumGraphReader(BaseQuantumGraphReader):
         else:
             with MultiblockReader.open_in_zip(self.zf, mb_name, int_size=self.header.int_size) as mb_reader:
                 for node_id_or_index in nodes:
-                    address_row = self.address_reader.find(node_id_or_index)
+                    try:
+                        address_row = self.address_reader.find(node_id_or_index)
+                    except LookupError:
+                        # Special init quanta do not have addresses.
+                        init_quanta = self._read_single_block("init_quanta", ProvenanceInitQuantaModel)
+                        if any(q.quantum_id == node_id_or_index for q in init_quanta.root):
+                            continue
+                        raise
                     if "pipeline_node" in self.graph._bipartite_xgraph.nodes.get(address_row.key, {}):
                         # Use the old node to reduce memory usage (since it
                         # might also have other outstanding reference holders).
-- 
2.43.0


From 375609d8d1e40a0a9b4e5c6726afb0223e38096f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 23:48:42 +0000
Subject: [PATCH 19/71] fix: keep init quanta out of the quantum-only
 provenance graph

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index e22e473..127b22a 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -324,9 +324,11 @@ class ProvenanceDatasetModel(PredictedDatasetModel):
         )
         if self.producer is not None:
             graph._bipartite_xgraph.add_edge(self.producer, self.dataset_id)
+        write_edge = graph.pipeline_graph.producing_edge_of(self.dataset_type_name)
+        is_init_output = write_edge is not None and write_edge.is_init
         for consumer_id in self.consumers:
             graph._bipartite_xgraph.add_edge(self.dataset_id, consumer_id)
-            if self.producer is not None:
+            if self.producer is not None and not is_init_output:
                 graph._quantum_only_xgraph.add_edge(self.producer, consumer_id)
         graph._datasets_by_type[self.dataset_type_name][data_id] = self.dataset_id
 
-- 
2.43.0


From cff5da428f8a667dc52e93b98f4b7d0a34270158 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 23:48:56 +0000
Subject: [PATCH 20/71] fix: report whether init-outputs and the datasets of
 loaded quanta were produced

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index 127b22a..793208d 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -981,7 +981,9 @@ class ProvenanceInitQuantumModel(pydantic.BaseModel):
                 dataset_type_name=write_edge.dataset_type_name,
                 pipeline_node=graph.pipeline_graph.dataset_types[write_edge.dataset_type_name],
                 run=graph.header.output_run,
-                produced=True,
+                # Assume the dataset exists unless its own provenance (which
+                # may have already been loaded) says otherwise.
+                produced=graph._bipartite_xgraph.nodes.get(dataset_id, {}).get("produced", True),
             )
             graph._datasets_by_type[write_edge.dataset_type_name][empty_data_id] = dataset_id
             graph._bipartite_xgraph.add_edge(
@@ -1814,7 +1816,10 @@ class ProvenanceQuantumGraphReader(BaseQuantumGraphReader):
                 int_size=self.header.int_size,
                 page_size=self.page_size,
             ):
-                if "pipeline_node" in self.graph._bipartite_xgraph.nodes.get(node.node_id, {}):
+                if (
+                    not isinstance(node, ProvenanceDatasetModel)
+                    and "pipeline_node" in self.graph._bipartite_xgraph.nodes.get(node.node_id, {})
+                ):
                     # Use the old node to reduce memory usage (since it might
                     # also have other outstanding reference holders).
                     continue
@@ -1830,7 +1835,10 @@ class ProvenanceQuantumGraphReader(BaseQuantumGraphReader):
                         if any(q.quantum_id == node_id_or_index for q in init_quanta.root):
                             continue
                         raise
-                    if "pipeline_node" in self.graph._bipartite_xgraph.nodes.get(address_row.key, {}):
+                    if (
+                        model_type is not ProvenanceDatasetModel
+                        and "pipeline_node" in self.graph._bipartite_xgraph.nodes.get(address_row.key, {})
+                    ):
                         # Use the old node to reduce memory usage (since it
                         # might also have other outstanding reference holders).
                         continue
-- 
2.43.0


From 19b143eecf9db4506fd8ecb64bfd58ca76582528 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Tue, 17 Nov 2026 23:52:10 +0000
Subject: [PATCH 21/71] fix: instantiate tasks in init-dependency order

---
 .../pipe/base/pipeline_graph/_pipeline_graph.py   | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 1222a8b..721f063 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -1853,10 +1853,15 @@ class PipelineGraph:
         empty_data_id = DataCoordinate.make_empty(self.universe)
         labels = set(labels) if labels is not None else self.tasks.keys()
         handles: dict[str, InMemoryDatasetHandle] = {}
-        tasks: list[PipelineTask] = []
-        for task_node in self.tasks.values():
-            if task_node.label not in labels:
+        tasks: dict[str, PipelineTask] = {}
+        # Tasks sorted by their runtime dependencies are not necessarily sorted
+        # by their init dependencies, so we need to iterate over the init nodes
+        # here.
+        self.sort()
+        for node_type, label, _ in self.iter_nodes():
+            if node_type is not NodeType.TASK_INIT or label not in labels:
                 continue
+            task_node = self.tasks[label]
             task_init_inputs: dict[str, Any] = {}
             for read_edge in task_node.init.inputs.values():
                 if (handle := handles.get(read_edge.dataset_type_name)) is not None:
@@ -1895,7 +1900,7 @@ class PipelineGraph:
             task = task_node.task_class(
                 config=task_node.config, initInputs=task_init_inputs, name=task_node.label
             )
-            tasks.append(task)
+            tasks[label] = task
             for write_edge in task_node.init.outputs.values():
                 dataset_type_node = self.dataset_types[write_edge.parent_dataset_type_name]
                 obj = getattr(task, write_edge.connection_name)
@@ -1918,7 +1923,7 @@ class PipelineGraph:
                         storageClass=dataset_type_node.storage_class,
                         copy=(n_consumers > 1),
                     )
-        return tasks
+        return [tasks[label] for label in self.tasks if label in tasks]
 
     def write_init_outputs(self, butler: Butler) -> None:
         """Write the init-output datasets for all tasks in the pipeline graph.
-- 
2.43.0


From 734c77b04443751610878f24eb11d88f5ae18abf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:07:42 +0000
Subject: [PATCH 22/71] fix: do not mistake workers that just finished for dead
 ones in the aggregator

---
 .../pipe/base/quantum_graph/aggregator/_communicators.py     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py b/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
index 7b3617f..34e4897 100644
--- a/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
+++ b/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
@@ -438,6 +438,11 @@ class SupervisorCommunicator:
             # that should be alive actually are.
             for name, worker in self.workers.items():
                 if not worker.successful and not worker.is_alive():
+                    # The worker may have reported its completion and exited
+                    # after the timeout expired; anything it managed to send
+                    # is already on the queue.
+                    if (report := self._reports.get()) is not None:
+                        return report
                     # Delete this worker from the list of workers so we don't
                     # hit this condition again when we try to handle the
                     # exception we raise.
-- 
2.43.0


From 8854f9d7b77853a4c6fdfc4e91d854c5a5a2296d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:22:45 +0000
Subject: [PATCH 23/71] fix: wait for the other aggregator workers when one
 fails after scanning

---
 .../pipe/base/quantum_graph/aggregator/_communicators.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py b/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
index 34e4897..f567847 100644
--- a/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
+++ b/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
@@ -361,7 +361,14 @@ class SupervisorCommunicator:
             if exc_type is not FatalWorkerError:
                 self.progress.log.critical("Caught %s; attempting to shut down cleanly.", exc_type)
         try:
-            self._wait_for_workers_to_finish(already_failing=exc_type is not None)
+            try:
+                self._wait_for_workers_to_finish(already_failing=exc_type is not None)
+            except FatalWorkerError:
+                # This is the first we've heard of a failure; tell the other
+                # workers and keep waiting for them before reporting it.
+                self._cancel_event.set()
+                self._wait_for_workers_to_finish(already_failing=True)
+                raise
         except _WorkerCommunicationError as err:
             self.progress.log.critical(
                 "Worker '%s' was terminated before it could finish (after scanning).", err
-- 
2.43.0


From 3f9a967e5dc8fadb8a70f83d745bfebd849f93ef Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:22:45 +0000
Subject: [PATCH 24/71] fix: shut the aggregator down when not all workers
 could be started

---
 .../pipe/base/quantum_graph/aggregator/_communicators.py  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py b/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
index f567847..2127081 100644
--- a/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
+++ b/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
@@ -278,6 +278,14 @@ class SupervisorCommunicator:
             for _ in range(self.n_scanners):
                 self._scan_requests.put(_Sentinel.NO_MORE_SCAN_REQUESTS)
             self._sent_no_more_scan_requests = True
+            # The ingester and writer wait for each scanner, including those
+            # that could not be started (which can only happen if we're
+            # failing).
+            for scanner_id in range(self.n_scanners):
+                if ScannerCommunicator.get_worker_name(scanner_id) not in self.workers:
+                    self._ingest_requests.put(_Sentinel.NO_MORE_INGEST_REQUESTS)
+                    if self._write_requests is not None:
+                        self._write_requests.put(_Sentinel.NO_MORE_WRITE_REQUESTS)
         if not self._sent_no_more_write_requests and self._write_requests is not None:
             self._write_requests.put(_Sentinel.NO_MORE_WRITE_REQUESTS)
             self._sent_no_more_write_requests = True
-- 
2.43.0


From cfa465214119c816dfbd492cf5d9fff44397316a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 00:37:49 +0000
Subject: [PATCH 25/71] fix: only clean up the innermost dataset type directory
 when ingesting a provenance graph

---
 .../lsst/pipe/base/quantum_graph/ingest_graph.py  | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/ingest_graph.py b/python/lsst/pipe/base/quantum_graph/ingest_graph.py
index 074f216..eada43f 100644
--- a/python/lsst/pipe/base/quantum_graph/ingest_graph.py
+++ b/python/lsst/pipe/base/quantum_graph/ingest_graph.py
@@ -402,12 +402,13 @@ class _GraphIngester:
         )
 
     def find_dataset_type_directory(self, ospath: str, dataset_type: str) -> str | None:
-        dir_components: list[str] = []
-        for component in os.path.dirname(ospath).split(os.path.sep):
-            dir_components.append(component)
-            # If the full dataset type name is in a single directory path
-            # component, we guess that directory can only have datasets of
-            # that type.
-            if dataset_type in component:
+        dir_components = os.path.dirname(ospath).split(os.path.sep)
+        # If the full dataset type name is in a single directory path
+        # component, we guess that directory can only have datasets of that
+        # type.  We look for the innermost such directory, since the names of
+        # the repository root and RUN collection are arbitrary.
+        while dir_components:
+            if dataset_type in dir_components[-1]:
                 return os.path.sep.join(dir_components)
+            dir_components.pop()
         return None
-- 
2.43.0


From 3c732385adfbde1949808c755f4be75ae9db658a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:03:59 +0000
Subject: [PATCH 26/71] fix: refuse to add a second task with the same label to
 a pipeline graph

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 721f063..654323f 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -802,6 +802,8 @@ class PipelineGraph:
         ------
         PipelineDataCycleError
             Raised if the graph is cyclic after this addition.
+        PipelineGraphError
+            Raised if the graph already has a task with the same label.
 
         Notes
         -----
@@ -816,7 +818,11 @@ class PipelineGraph:
         """
         node_data: list[tuple[NodeKey, dict[str, Any]]] = []
         edge_data: list[tuple[NodeKey, NodeKey, str, dict[str, Any]]] = []
+        new_task_keys: set[NodeKey] = set()
         for task_node in nodes:
+            if task_node.key in self._xgraph or task_node.key in new_task_keys:
+                raise PipelineGraphError(f"Task with label {task_node.label!r} already exists in the graph.")
+            new_task_keys.add(task_node.key)
             task_node = task_node._resolved(self._universe)
             node_data.append(
                 (task_node.key, {"instance": task_node, "bipartite": task_node.key.node_type.bipartite})
-- 
2.43.0


From 2addbc9bdde7547e96055e07ea1647b74997761f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:03:59 +0000
Subject: [PATCH 27/71] fix: leave the pipeline graph unchanged when adding
 tasks fails

---
 .../base/pipeline_graph/_pipeline_graph.py    | 35 +++++++++++++++----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 654323f..43c4f2e 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -818,6 +818,7 @@ class PipelineGraph:
         """
         node_data: list[tuple[NodeKey, dict[str, Any]]] = []
         edge_data: list[tuple[NodeKey, NodeKey, str, dict[str, Any]]] = []
+        existing_dataset_type_nodes: dict[NodeKey, DatasetTypeNode | None] = {}
         new_task_keys: set[NodeKey] = set()
         for task_node in nodes:
             if task_node.key in self._xgraph or task_node.key in new_task_keys:
@@ -835,13 +836,21 @@ class PipelineGraph:
             )
             # Convert the edge objects attached to the task node to networkx.
             for read_edge in task_node.init.iter_all_inputs():
-                self._append_graph_data_from_edge(node_data, edge_data, read_edge, parent=parent)
+                self._append_graph_data_from_edge(
+                    node_data, edge_data, existing_dataset_type_nodes, read_edge, parent=parent
+                )
             for write_edge in task_node.init.iter_all_outputs():
-                self._append_graph_data_from_edge(node_data, edge_data, write_edge, parent=parent)
+                self._append_graph_data_from_edge(
+                    node_data, edge_data, existing_dataset_type_nodes, write_edge, parent=parent
+                )
             for read_edge in task_node.iter_all_inputs():
-                self._append_graph_data_from_edge(node_data, edge_data, read_edge, parent=parent)
+                self._append_graph_data_from_edge(
+                    node_data, edge_data, existing_dataset_type_nodes, read_edge, parent=parent
+                )
             for write_edge in task_node.iter_all_outputs():
-                self._append_graph_data_from_edge(node_data, edge_data, write_edge, parent=parent)
+                self._append_graph_data_from_edge(
+                    node_data, edge_data, existing_dataset_type_nodes, write_edge, parent=parent
+                )
             # Add a special edge (with no Edge instance) that connects the
             # TaskInitNode to the runtime TaskNode.
             edge_data.append((task_node.init.key, task_node.key, Edge.INIT_TO_TASK_NAME, {"instance": None}))
@@ -850,8 +859,14 @@ class PipelineGraph:
         # Checks and preparation complete; time to start the actual
         # modification, during which it's hard to provide strong exception
         # safety.  Start by resetting the sort ordering, if there is one.
+        original_sorted_keys = self._sorted_keys
+        original_dataset_type_nodes: dict[NodeKey, DatasetTypeNode | None] = {}
         self._reset()
         try:
+            for dataset_type_key, dataset_type_node in existing_dataset_type_nodes.items():
+                state = self._xgraph.nodes[dataset_type_key]
+                original_dataset_type_nodes[dataset_type_key] = state["instance"]
+                state["instance"] = dataset_type_node
             self._xgraph.add_nodes_from(node_data)
             self._xgraph.add_edges_from(edge_data)
             if not networkx.algorithms.dag.is_directed_acyclic_graph(self._xgraph):
@@ -862,6 +877,10 @@ class PipelineGraph:
             try:
                 self._xgraph.remove_edges_from(edge_data)
                 self._xgraph.remove_nodes_from(key for key, _ in node_data)
+                for dataset_type_key, original_node in original_dataset_type_nodes.items():
+                    self._xgraph.nodes[dataset_type_key]["instance"] = original_node
+                if original_sorted_keys is not None:
+                    self._reorder(original_sorted_keys)
             except Exception as err:  # pragma: no cover
                 # There's no known way to get here, but we want to make it
                 # clear it's a big problem if we do.
@@ -2315,6 +2334,7 @@ class PipelineGraph:
         self,
         node_data: list[tuple[NodeKey, dict[str, Any]]],
         edge_data: list[tuple[NodeKey, NodeKey, str, dict[str, Any]]],
+        existing_dataset_type_nodes: dict[NodeKey, DatasetTypeNode | None],
         edge: Edge,
         parent: PipelineGraph | None,
     ) -> None:
@@ -2329,6 +2349,9 @@ class PipelineGraph:
         edge_data : `list`
             List of node key pairs, connection names, and state dictionaries
             for edges.
+        existing_dataset_type_nodes : `dict`
+            Dictionary to be updated with the new node instances (`None` if
+            unresolved) for dataset types that are already in the graph.
         edge : `Edge`
             New edge being processed.
         parent : `PipelineGraph` or `None`
@@ -2338,8 +2361,8 @@ class PipelineGraph:
         new_dataset_type_node = None
         if parent is not None:
             new_dataset_type_node = parent._xgraph.nodes[edge.dataset_type_key].get("instance")
-        if (existing_dataset_type_state := self._xgraph.nodes.get(edge.dataset_type_key)) is not None:
-            existing_dataset_type_state["instance"] = new_dataset_type_node
+        if edge.dataset_type_key in self._xgraph:
+            existing_dataset_type_nodes[edge.dataset_type_key] = new_dataset_type_node
         else:
             node_data.append(
                 (
-- 
2.43.0


From 93a5c7262795d2482d767a939f1c5848c3d4ae1e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:03:59 +0000
Subject: [PATCH 28/71] fix: leave the pipeline graph unchanged when
 reconfiguring tasks would create a cycle

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 43c4f2e..f31c17b 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -931,6 +931,8 @@ class PipelineGraph:
         EdgesChangedError
             Raised if ``check_edges_unchanged=True`` and the edges of a task do
             change.
+        PipelineDataCycleError
+            Raised if the graph would be cyclic after this update.
 
         Notes
         -----
@@ -2311,6 +2313,12 @@ class PipelineGraph:
                         deep[task_label] = new_task_node
                 else:
                     shallow[task_label] = new_task_node
+        if deep:
+            # Make sure the replacements do not introduce a cycle before we
+            # start modifying the graph.
+            trial = self.copy()
+            trial.remove_tasks(deep.keys(), drop_from_subsets=True)
+            trial.add_task_nodes(deep.values())
         try:
             if deep:
                 removed = self.remove_tasks(deep.keys(), drop_from_subsets=True)
-- 
2.43.0


From 755656d60e66edb924926904c9219afcbf5b1553 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:03:59 +0000
Subject: [PATCH 29/71] fix: check the members of new task subsets and
 re-verify steps they redefine

---
 .../pipe/base/pipeline_graph/_pipeline_graph.py   | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index f31c17b..22f9f73 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -1061,9 +1061,20 @@ class PipelineGraph:
             included in the graph.
         description : `str`, optional
             String description to associate with this label.
+
+        Raises
+        ------
+        PipelineGraphError
+            Raised if any task is not in the graph.
         """
-        subset = TaskSubset(self._xgraph, subset_label, set(task_labels), description, self._step_definitions)
-        self._task_subsets[subset_label] = subset
+        members = set(task_labels)
+        if not members <= self.tasks.keys():
+            raise PipelineGraphError(
+                f"Task(s) {members - self.tasks.keys()} of subset {subset_label!r} are not in the pipeline."
+            )
+        subset = TaskSubset(self._xgraph, subset_label, members, description, self._step_definitions)
+        with self._step_definitions._unverified_on_success():
+            self._task_subsets[subset_label] = subset
 
     def remove_task_subset(self, subset_label: str) -> None:
         """Remove a labeled set of tasks.
-- 
2.43.0


From 94651278c62b49f5a66b5c209df8b2465c7a4477 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:03:59 +0000
Subject: [PATCH 30/71] fix: keep step definitions when asked to remove a task
 subset that does not exist

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 22f9f73..f2ba666 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -1088,11 +1088,11 @@ class PipelineGraph:
         -----
         If this subset is a step, it is also removed from the step definitions.
         """
+        del self._task_subsets[subset_label]
         try:
             self._step_definitions.remove(subset_label)
         except KeyError:
             pass
-        del self._task_subsets[subset_label]
 
     ###########################################################################
     #
-- 
2.43.0


From dc1da143e9bc392086b7b6b5a1e7a6a625f8e7fc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:03:59 +0000
Subject: [PATCH 31/71] fix: require steps to be verified again after tasks are
 added to a pipeline graph

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index f2ba666..ca0ffbe 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -860,6 +860,7 @@ class PipelineGraph:
         # modification, during which it's hard to provide strong exception
         # safety.  Start by resetting the sort ordering, if there is one.
         original_sorted_keys = self._sorted_keys
+        original_steps_verified = self._step_definitions._verified
         original_dataset_type_nodes: dict[NodeKey, DatasetTypeNode | None] = {}
         self._reset()
         try:
@@ -881,6 +882,7 @@ class PipelineGraph:
                     self._xgraph.nodes[dataset_type_key]["instance"] = original_node
                 if original_sorted_keys is not None:
                     self._reorder(original_sorted_keys)
+                self._step_definitions._verified = original_steps_verified
             except Exception as err:  # pragma: no cover
                 # There's no known way to get here, but we want to make it
                 # clear it's a big problem if we do.
@@ -2415,6 +2417,7 @@ class PipelineGraph:
         self._sorted_keys = None
         self._tasks._reset()
         self._dataset_types._reset()
+        self._step_definitions._verified = False
 
     def _resolve_step_flow(self) -> Sequence[NodeKey] | None:
         """Check that step definitions are consistent with the ordering of
-- 
2.43.0


From 7fe0478baa63c326ab8563a2f1babb10ec56cdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:06:37 +0000
Subject: [PATCH 32/71] fix: restore the consumers of dataset types when
 reading a pipeline graph

---
 python/lsst/pipe/base/pipeline_graph/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/io.py b/python/lsst/pipe/base/pipeline_graph/io.py
index 06b87db..6cb1145 100644
--- a/python/lsst/pipe/base/pipeline_graph/io.py
+++ b/python/lsst/pipe/base/pipeline_graph/io.py
@@ -570,7 +570,7 @@ class SerializedDatasetTypeNode(pydantic.BaseModel):
                     )
                 producer = producing_edge.task_label
             consuming_edges = tuple(
-                consuming_edge for _, _, consuming_edge in xgraph.in_edges(key, data="instance")
+                consuming_edge for _, _, consuming_edge in xgraph.out_edges(key, data="instance")
             )
             return DatasetTypeNode(
                 dataset_type=dataset_type,
-- 
2.43.0


From 7db47376e1e3e4be1c9e7536ca8157e8c4d63518 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:06:37 +0000
Subject: [PATCH 33/71] fix: check that init-output datasets do not flow
 backwards between steps

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index ca0ffbe..baaa5e0 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -2456,11 +2456,11 @@ class PipelineGraph:
             # graph keys for the step so we can make and sort a step sub-graph.
             new_step_keys: set[NodeKey] = set()
             for task_label in task_subset:
-                for input_name in self.inputs_of(task_label):
+                for input_name in (*self.inputs_of(task_label), *self.inputs_of(task_label, init=True)):
                     step_inputs.setdefault(input_name, set()).add(task_label)
                 # Check that none of the outputs of the tasks in this step were
                 # expected as inputs of a previous step's tasks.
-                task_outputs = self.outputs_of(task_label)
+                task_outputs = self.outputs_of(task_label) | self.outputs_of(task_label, init=True)
                 if not inputs_so_far.keys().isdisjoint(task_outputs.keys()):
                     msg: list[str] = []
                     for input_name in inputs_so_far.keys() & task_outputs.keys():
-- 
2.43.0


From bffbb9d30b5ad45b60ebb3d27c4bade15455efb5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:14:04 +0000
Subject: [PATCH 34/71] fix: keep the step order when sorting a pipeline graph

---
 .../pipe/base/pipeline_graph/_pipeline_graph.py    | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index baaa5e0..fe4578b 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -280,8 +280,20 @@ class PipelineGraph:
         This does nothing if the graph is already known to be sorted.
         """
         if self._sorted_keys is None:
+            step_indices = {
+                task_label: index
+                for index, step_label in enumerate(self._step_definitions)
+                for task_label in self._task_subsets.get(step_label, ())
+            }
+
+            def sort_key(key: NodeKey) -> tuple[int, NodeKey]:
+                is_dataset_type = key.node_type is NodeType.DATASET_TYPE
+                return (-1 if is_dataset_type else step_indices.get(key.name, -1), key)
+
             try:
-                sorted_keys: Sequence[NodeKey] = list(networkx.lexicographical_topological_sort(self._xgraph))
+                sorted_keys: Sequence[NodeKey] = list(
+                    networkx.lexicographical_topological_sort(self._xgraph, key=sort_key)
+                )
             except networkx.NetworkXUnfeasible as err:  # pragma: no cover
                 # Should't be possible to get here, because we check for cycles
                 # when adding tasks, but we guard against it anyway.
-- 
2.43.0


From 890962c8c4c51753afe795d8b388c6fb61da6ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:22:48 +0000
Subject: [PATCH 35/71] fix: look up the step of a task in a pipeline graph
 that was read back

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index fe4578b..ac6dffb 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -241,7 +241,8 @@ class PipelineGraph:
         if not self._step_definitions:
             raise InvalidStepsError("No steps have been defined for this pipeline.")
         elif self._step_definitions.verified:
-            return self._xgraph.nodes[NodeKey(NodeType.TASK, task_label)]["step"]
+            self._tasks[task_label]  # raise if there is no such task
+            return next(label for label in self._step_definitions if task_label in self._task_subsets[label])
         raise UnresolvedGraphError("Steps have not been verified since the last modification.")
 
     @property
@@ -2490,12 +2491,6 @@ class PipelineGraph:
                 new_step_keys.update(self._xgraph.predecessors(task_key))
                 new_step_keys.update(self._xgraph.successors(task_init_key))
                 new_step_keys.update(self._xgraph.successors(task_key))
-                # Also record the step the task is in as a private xgraph
-                # attribute so we can look up the step given a task (or,
-                # indirectly, dataset type); this has to be used with care
-                # because if the steps haven't been verified it can be wrong.
-                self._xgraph.nodes[task_init_key]["step"] = step_label
-                self._xgraph.nodes[task_key]["step"] = step_label
             # Drop step input keys that were already either inputs or outputs
             # of a previous step, since they'll have already been added to
             # sort_keys.
-- 
2.43.0


From acd3269c60f5736e976fc952b8eb68880ad7c7dc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:22:48 +0000
Subject: [PATCH 36/71] fix: compare init-inputs when checking whether the
 edges of a task changed

---
 python/lsst/pipe/base/pipeline_graph/_tasks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_tasks.py b/python/lsst/pipe/base/pipeline_graph/_tasks.py
index 0428300..4175ecb 100644
--- a/python/lsst/pipe/base/pipeline_graph/_tasks.py
+++ b/python/lsst/pipe/base/pipeline_graph/_tasks.py
@@ -430,7 +430,7 @@ class TaskInitNode:
             ``other``.
         """
         result = []
-        result += _diff_edge_mapping(self.inputs, self.inputs, self.label, "init input")
+        result += _diff_edge_mapping(self.inputs, other.inputs, self.label, "init input")
         result += _diff_edge_mapping(self.outputs, other.outputs, self.label, "init output")
         result += self.config_output.diff(other.config_output, "config init output")
         return result
-- 
2.43.0


From 3b7ddc3d48bd4e9153adca51033c642db9ebf54e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:32:56 +0000
Subject: [PATCH 37/71] fix: never mark prerequisites and init-inputs as
 initial query constraints

---
 python/lsst/pipe/base/pipeline_graph/_edges.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_edges.py b/python/lsst/pipe/base/pipeline_graph/_edges.py
index e893982..6f2ac95 100644
--- a/python/lsst/pipe/base/pipeline_graph/_edges.py
+++ b/python/lsst/pipe/base/pipeline_graph/_edges.py
@@ -560,7 +560,10 @@ class ReadEdge(Edge):
                 dimensions = current.dimensions
         else:
             dimensions = universe.conform(self.raw_dimensions)
-        is_initial_query_constraint = is_initial_query_constraint and not self.defer_query_constraint
+        # Only regular inputs ever constrain the initial data ID query.
+        is_initial_query_constraint = is_initial_query_constraint and not (
+            self.defer_query_constraint or self.is_prerequisite or self.is_init
+        )
         if is_prerequisite is None:
             is_prerequisite = self.is_prerequisite
         elif is_prerequisite and not self.is_prerequisite:
-- 
2.43.0


From 240aea908c70a4628c26561ab0ee5b4d680532f1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:32:56 +0000
Subject: [PATCH 38/71] fix: resolve inputs with skypix dimensions
 independently of task order

---
 .../lsst/pipe/base/pipeline_graph/_dataset_types.py   | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_dataset_types.py b/python/lsst/pipe/base/pipeline_graph/_dataset_types.py
index 72f2ead..f0afd01 100644
--- a/python/lsst/pipe/base/pipeline_graph/_dataset_types.py
+++ b/python/lsst/pipe/base/pipeline_graph/_dataset_types.py
@@ -161,8 +161,15 @@ class DatasetTypeNode:
         consuming_edges = list(
             consuming_edge for _, _, consuming_edge in xgraph.out_edges(key, data="instance")
         )
-        # Put edges that are not component datasets before any edges that are.
-        consuming_edges.sort(key=lambda consuming_edge: consuming_edge.component is not None)
+        # Put edges that are not component datasets before any edges that are,
+        # and those that need another definition for their dimensions after
+        # those that might provide it.
+        consuming_edges.sort(
+            key=lambda consuming_edge: (
+                consuming_edge.component is not None,
+                "skypix" in consuming_edge.raw_dimensions,
+            )
+        )
         for consuming_edge in consuming_edges:
             dataset_type, is_initial_query_constraint, is_prerequisite = consuming_edge._resolve_dataset_type(
                 current=dataset_type,
-- 
2.43.0


From 519c128d3b471d0181d417d89c3d54ebf93c66e3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 01:38:02 +0000
Subject: [PATCH 39/71] fix: remember the dimension universe of dataset types
 resolved before a step is found invalid

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index ac6dffb..57741cf 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -697,6 +697,7 @@ class PipelineGraph:
             raise PipelineGraphExceptionSafetyError(
                 "Error during dataset type resolution has left the graph in an inconsistent state."
             ) from err
+        self._universe = dimensions
 
         # If we get an error here, many graph nodes will have been resolved but
         # the steps will still be marked as unverified and unsorted.  That's
@@ -708,7 +709,6 @@ class PipelineGraph:
             self._reorder(sort_keys_from_steps)
         else:
             self.sort()
-        self._universe = dimensions
 
     ###########################################################################
     #
-- 
2.43.0


From f1b9b89684b56d8c623d95090f3e63526ac74fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 02:08:04 +0000
Subject: [PATCH 40/71] fix: report duplicate producers in producing_edge_of

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 57741cf..eb65858 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -413,6 +413,7 @@ class PipelineGraph:
                     f"Dataset type {dataset_type_name!r} is produced by both {producing_edge.task_label!r} "
                     f"and {producer!r}."
                 )
+            producer = producing_edge.task_label
         return producing_edge
 
     def consuming_edges_of(self, dataset_type_name: str) -> list[ReadEdge]:
-- 
2.43.0


From e7fdd8b2b715ae620689cb7f284f1ce55bbc3854 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 02:17:57 +0000
Subject: [PATCH 41/71] fix: keep step definitions when a pipeline is written
 or compared

---
 python/lsst/pipe/base/pipelineIR.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 76cc9ce..61d2039 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -1098,6 +1098,10 @@ class PipelineIR:
             accumulate["contracts"] = contracts_list
         if self.labeled_subsets:
             accumulate["subsets"] = {k: v.to_primitives() for k, v in self.labeled_subsets.items()}
+        if self.steps:
+            accumulate["steps"] = [
+                {"label": step.label, "dimensions": list(step.dimensions)} for step in self.steps
+            ]
         return accumulate
 
     def __str__(self) -> str:
@@ -1116,7 +1120,7 @@ class PipelineIR:
         return (
             all(
                 getattr(self, attr) == getattr(other, attr)
-                for attr in ("tasks", "instrument", "labeled_subsets", "parameters")
+                for attr in ("tasks", "instrument", "labeled_subsets", "parameters", "steps")
             )
             and len(self.contracts) == len(other.contracts)
             and all(c in self.contracts for c in other.contracts)
-- 
2.43.0


From b32a5dffc37f4e4e60e2540c4272d6aa2f367c66 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 02:17:57 +0000
Subject: [PATCH 42/71] fix: do not modify the label specifier when subsetting
 a pipeline

---
 python/lsst/pipe/base/pipelineIR.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 61d2039..054f490 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -973,6 +973,8 @@ class PipelineIR:
         than it should.
         """
         pipeline = copy.deepcopy(self)
+        # leave the caller's set alone
+        labelSpecifier = set(labelSpecifier)
 
         # update the label specifier to expand any named subsets
         toRemove = set()
-- 
2.43.0


From 8300fc330c042b3af1ce4b710175d3722c4db83a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 02:17:57 +0000
Subject: [PATCH 43/71] fix: prune contracts that mention a removed label on
 any line

---
 python/lsst/pipe/base/pipelineIR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 054f490..87df443 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -932,7 +932,7 @@ class PipelineIR:
         for contract in self.contracts:
             # match a label that is not preceded by an ASCII identifier, or
             # is the start of a line and is followed by a dot
-            if re.match(f".*([^A-Za-z0-9_]|^){label}[.]", contract.contract):
+            if re.search(f"([^A-Za-z0-9_]|^){re.escape(label)}[.]", contract.contract):
                 continue
             new_contracts.append(contract)
         self.contracts = new_contracts
-- 
2.43.0


From 7cefb5f339a2089f05e1b2588e9d005a2ad4e7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 02:17:57 +0000
Subject: [PATCH 44/71] fix: refuse subsets labeled like a task and do not
 share the caller's set of labels

---
 python/lsst/pipe/base/pipeline.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline.py b/python/lsst/pipe/base/pipeline.py
index 6417e6b..df2d8e9 100644
--- a/python/lsst/pipe/base/pipeline.py
+++ b/python/lsst/pipe/base/pipeline.py
@@ -631,11 +631,13 @@ class Pipeline:
             Raised if label already exists in the `Pipeline`.
             Raised if a task label is not found within the `Pipeline`.
         """
-        if label in self._pipelineIR.labeled_subsets.keys():
+        if label in self._pipelineIR.labeled_subsets.keys() or label in self._pipelineIR.tasks.keys():
             raise ValueError(f"Subset label {label} is already found within the Pipeline")
         if extra := (taskLabels - self._pipelineIR.tasks.keys()):
             raise ValueError(f"Task labels {extra} were not found within the Pipeline")
-        self._pipelineIR.labeled_subsets[label] = pipelineIR.LabeledSubset(label, taskLabels, description)
+        self._pipelineIR.labeled_subsets[label] = pipelineIR.LabeledSubset(
+            label, set(taskLabels), description
+        )
 
     def removeLabeledSubset(self, label: str) -> None:
         """Remove a labeled subset from the `Pipeline`.
-- 
2.43.0


From 0fdd02749eee3101bb27ab79687c2455bffdaaed Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 02:17:57 +0000
Subject: [PATCH 45/71] fix: import all included labels when some are renamed,
 and rename them in subsets

---
 python/lsst/pipe/base/pipelineIR.py | 72 ++++++++++++++++-------------
 1 file changed, 41 insertions(+), 31 deletions(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 87df443..f975278 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -45,7 +45,7 @@ import warnings
 from collections import Counter
 from collections.abc import Generator, Hashable, Iterable, MutableMapping
 from dataclasses import dataclass, field
-from typing import Any, Literal, cast
+from typing import Any, Literal
 
 import yaml
 
@@ -506,24 +506,16 @@ class ImportIR:
         if self.instrument is not _Tags.KeepInstrument:
             tmp_pipeline.instrument = self.instrument
 
-        included_labels = set()
-        renamed_tasks = {}
-        for label in tmp_pipeline.tasks:
-            is_included = self.include and label in self.include
-            if (
-                is_included
-                or (self.exclude and label not in self.exclude)
-                or (self.include is None and self.exclude is None)
-            ):
-                if (label_new := self.rename.get(label)) is not None:
-                    renamed_tasks[label] = label_new
-                    if is_included:
-                        self.include = [
-                            label_new if (x == label) else label for x in cast(list[str], self.include)
-                        ]
-                else:
-                    label_new = label
-                included_labels.add(label_new)
+        # Labeled subsets in the include or exclude list stand for the labels
+        # they contain.
+        included_labels = set(tmp_pipeline.tasks)
+        if self.include is not None:
+            included_labels &= self._expand_labels(self.include, tmp_pipeline)
+        elif self.exclude is not None:
+            included_labels -= self._expand_labels(self.exclude, tmp_pipeline)
+        renamed_tasks = {
+            label: label_new for label, label_new in self.rename.items() if label in included_labels
+        }
 
         rename_errors = []
         for label, label_new in renamed_tasks.items():
@@ -533,22 +525,16 @@ class ImportIR:
                 task = tmp_pipeline.tasks.pop(label)
                 task.label = label_new
                 tmp_pipeline.tasks[label_new] = task
+                included_labels.remove(label)
+                included_labels.add(label_new)
+                for labeled_subset in tmp_pipeline.labeled_subsets.values():
+                    if label in labeled_subset.subset:
+                        labeled_subset.subset.remove(label)
+                        labeled_subset.subset.add(label_new)
 
         if rename_errors:
             raise ValueError("; ".join(rename_errors))
 
-        # Handle labeled subsets being specified in the include or exclude
-        # list, adding or removing labels.
-        if self.include is not None:
-            subsets_in_include = tmp_pipeline.labeled_subsets.keys() & self.include
-            for label in subsets_in_include:
-                included_labels.update(tmp_pipeline.labeled_subsets[label].subset)
-
-        elif self.exclude is not None:
-            subsets_in_exclude = tmp_pipeline.labeled_subsets.keys() & self.exclude
-            for label in subsets_in_exclude:
-                included_labels.difference_update(tmp_pipeline.labeled_subsets[label].subset)
-
         if not self.importSteps:
             tmp_pipeline.steps = []
 
@@ -559,6 +545,30 @@ class ImportIR:
 
         return tmp_pipeline
 
+    @staticmethod
+    def _expand_labels(labels: Iterable[str], pipeline: PipelineIR) -> set[str]:
+        """Replace the labeled subsets in a list by the labels they contain.
+
+        Parameters
+        ----------
+        labels : `~collections.abc.Iterable` [ `str` ]
+            Task and subset labels.
+        pipeline : `PipelineIR`
+            Pipeline that defines the subsets.
+
+        Returns
+        -------
+        task_labels : `set` [ `str` ]
+            Task labels.
+        """
+        result: set[str] = set()
+        for label in labels:
+            if label in pipeline.labeled_subsets:
+                result.update(pipeline.labeled_subsets[label].subset)
+            else:
+                result.add(label)
+        return result
+
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, ImportIR):
             return False
-- 
2.43.0


From e129d4e443e085cfeb0a68e2434af134cb884e78 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 02:17:57 +0000
Subject: [PATCH 46/71] fix: merging pipelines neither shares tasks with the
 merged ones nor changes anything if refused

---
 python/lsst/pipe/base/pipelineIR.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index f975278..f3635be 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -820,14 +820,18 @@ class PipelineIR:
         accumulate_labeled_subsets: dict[str, LabeledSubset] = {}
         accumulated_parameters = ParametersIR({})
         accumulated_steps: dict[str, StepIR] = {}
-
-        for tmp_IR in pipelines:
-            if self.instrument is None:
-                self.instrument = tmp_IR.instrument
-            elif self.instrument != tmp_IR.instrument and tmp_IR.instrument is not None:
+        accumulated_contracts: list[ContractIR] = []
+        instrument = self.instrument
+
+        for original_IR in pipelines:
+            # the pipelines must not share anything that can be modified
+            tmp_IR = copy.deepcopy(original_IR)
+            if instrument is None:
+                instrument = tmp_IR.instrument
+            elif instrument != tmp_IR.instrument and tmp_IR.instrument is not None:
                 msg = (
                     "Only one instrument can be declared in a pipeline or its imports. "
-                    f"Top level pipeline defines {self.instrument} but pipeline to merge "
+                    f"Top level pipeline defines {instrument} but pipeline to merge "
                     f"defines {tmp_IR.instrument}."
                 )
                 raise ValueError(msg)
@@ -838,7 +842,7 @@ class PipelineIR:
                 )
                 raise ValueError(msg)
             accumulate_tasks.update(tmp_IR.tasks)
-            self.contracts.extend(tmp_IR.contracts)
+            accumulated_contracts.extend(tmp_IR.contracts)
             # verify that tmp_IR has unique labels for named subset among
             # existing labeled subsets, and with existing task labels.
             overlapping_subsets = accumulate_labeled_subsets.keys() & tmp_IR.labeled_subsets.keys()
@@ -866,10 +870,15 @@ class PipelineIR:
 
         # verify that any accumulated labeled subsets dont clash with a label
         # from this pipeline
-        if accumulate_labeled_subsets.keys() & self.tasks.keys():
+        if (
+            accumulate_labeled_subsets.keys() & self.tasks.keys()
+            or self.labeled_subsets.keys() & accumulate_tasks.keys()
+        ):
             raise ValueError(
                 "Labeled subset names must be unique amongst imports in both labels and  named Subsets"
             )
+        self.instrument = instrument
+        self.contracts.extend(accumulated_contracts)
         # merge in the named subsets for self so this document can override any
         # that have been declared
         accumulate_labeled_subsets.update(self.labeled_subsets)
-- 
2.43.0


From a43682c35e2bef7373f6c5e5c5341b5aed96354c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 02:17:57 +0000
Subject: [PATCH 47/71] fix: keep config override strings that start with a
 hyphen

---
 python/lsst/pipe/base/configOverrides.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/lsst/pipe/base/configOverrides.py b/python/lsst/pipe/base/configOverrides.py
index 6a81fb4..07d1a3b 100644
--- a/python/lsst/pipe/base/configOverrides.py
+++ b/python/lsst/pipe/base/configOverrides.py
@@ -170,6 +170,9 @@ class ConfigExpressionParser(ast.NodeVisitor):
         """
         if isinstance(node.op, ast.USub):
             value = self.visit(node.operand)
+            if isinstance(value, str):
+                # A word with a leading hyphen, not a number.
+                raise ValueError("Unable to parse string into literal expression")
             return -1 * value
         self.generic_visit(node)
 
-- 
2.43.0


From 67e0e3e7fa2675eb2b51576fec9e7a9923b2e869 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 03:14:33 +0000
Subject: [PATCH 48/71] fix: honour temporal bounds connections when looking up
 calibrations

---
 python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py | 2 +-
 python/lsst/pipe/base/prerequisite_helpers.py                 | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py b/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py
index 4ab15bd..aba19ca 100644
--- a/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py
+++ b/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py
@@ -395,7 +395,7 @@ class AllDimensionsQuantumGraphBuilder(QuantumGraphBuilder):
                                 )
                                 continue
                         if finder.dataset_has_timespan:
-                            if task_prerequisite_info.bounds.spatial_connections:
+                            if task_prerequisite_info.bounds.temporal_connections:
                                 self.log.verbose(
                                     "Deferring prerequisite input %r of task %r to per-quantum processing "
                                     "(for temporal-bounds-connections handling).",
diff --git a/python/lsst/pipe/base/prerequisite_helpers.py b/python/lsst/pipe/base/prerequisite_helpers.py
index 8dffb87..bb79681 100644
--- a/python/lsst/pipe/base/prerequisite_helpers.py
+++ b/python/lsst/pipe/base/prerequisite_helpers.py
@@ -164,8 +164,10 @@ class PrerequisiteFinder:
             self.dataset_has_timespan = bool(
                 # If the task dimensions has a temporal family that isn't in
                 # the dataset type (i.e. "observation_timespans", like visit
-                # or exposure)...
+                # or exposure), or other connections provide its temporal
+                # bounds...
                 self.task_node.dimensions.temporal - self.dataset_type_node.dimensions.temporal
+                or bounds.temporal_connections
             ) and (
                 # ...and the dataset type has a temporal family that isn't in
                 # the task dimensions, or is a calibration, the prerequisite
-- 
2.43.0


From ae15af3e9177f8e5fb32b0a4ae2a3239f50802c9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 03:27:37 +0000
Subject: [PATCH 49/71] fix: use temporal bounds connections only for
 calibration lookups

---
 python/lsst/pipe/base/prerequisite_helpers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/lsst/pipe/base/prerequisite_helpers.py b/python/lsst/pipe/base/prerequisite_helpers.py
index bb79681..1a72f77 100644
--- a/python/lsst/pipe/base/prerequisite_helpers.py
+++ b/python/lsst/pipe/base/prerequisite_helpers.py
@@ -164,10 +164,10 @@ class PrerequisiteFinder:
             self.dataset_has_timespan = bool(
                 # If the task dimensions has a temporal family that isn't in
                 # the dataset type (i.e. "observation_timespans", like visit
-                # or exposure), or other connections provide its temporal
-                # bounds...
+                # or exposure), or other connections provide the temporal
+                # bounds for a calibration lookup...
                 self.task_node.dimensions.temporal - self.dataset_type_node.dimensions.temporal
-                or bounds.temporal_connections
+                or (self.dataset_type_node.is_calibration and bounds.temporal_connections)
             ) and (
                 # ...and the dataset type has a temporal family that isn't in
                 # the task dimensions, or is a calibration, the prerequisite
-- 
2.43.0


From 47765d132b8d51b8c3c870b5cac2770f11c8fb01 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 03:30:42 +0000
Subject: [PATCH 50/71] fix: report on output runs that hold datasets the graph
 did not predict

---
 python/lsst/pipe/base/quantum_provenance_graph.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_provenance_graph.py b/python/lsst/pipe/base/quantum_provenance_graph.py
index 8e2bd57..340d6cf 100644
--- a/python/lsst/pipe/base/quantum_provenance_graph.py
+++ b/python/lsst/pipe/base/quantum_provenance_graph.py
@@ -1504,9 +1504,13 @@ class QuantumProvenanceGraph:
                 continue
             for n, ref in enumerate(refs):
                 dataset_key = DatasetKey(ref.datasetType.name, ref.dataId.required_values)
-                dataset_info = self.get_dataset_info(dataset_key)
-                dataset_run = dataset_info["runs"][output_run]  # dataset run (singular)
-                dataset_run.produced = True
+                # Datasets may have been written to the same run by another
+                # graph, and hence not predicted by any graph added so far.
+                if dataset_key in self._xgraph:
+                    dataset_info = self.get_dataset_info(dataset_key)
+                    dataset_run = dataset_info["runs"].get(output_run)  # dataset run (singular)
+                    if dataset_run is not None:
+                        dataset_run.produced = True
                 status_log.log(
                     "Updated status for %s of %s datasets of %s of %s types.",
                     n + 1,
@@ -1799,8 +1803,10 @@ class QuantumProvenanceGraph:
             Current list of futures. Will be modified.
         """
         if read_caveats == "lazy" and all(
-            self.get_dataset_info(dataset_key)["runs"][output_run].produced
+            dataset_run.produced
             for dataset_key in self._xgraph.successors(quantum_key)
+            # Outputs predicted only in other runs are not missing here.
+            if (dataset_run := self.get_dataset_info(dataset_key)["runs"].get(output_run)) is not None
         ):
             return
         quantum_info = self.get_quantum_info(quantum_key)
-- 
2.43.0


From d8ce5424eaa40d53df7333715ba7085a731b1682 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 03:30:42 +0000
Subject: [PATCH 51/71] fix: report on campaigns whose collections include runs
 without a graph

---
 python/lsst/pipe/base/quantum_provenance_graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_provenance_graph.py b/python/lsst/pipe/base/quantum_provenance_graph.py
index 340d6cf..9cc08a7 100644
--- a/python/lsst/pipe/base/quantum_provenance_graph.py
+++ b/python/lsst/pipe/base/quantum_provenance_graph.py
@@ -1898,7 +1898,11 @@ class QuantumProvenanceGraph:
                 except KeyError:
                     continue
                 # queryable datasets are `visible`.
-                dataset_info["runs"][ref.run].visible = True
+                dataset_run = dataset_info["runs"].get(ref.run)
+                # Ignore datasets in runs that none of the graphs wrote to.
+                if dataset_run is None:
+                    continue
+                dataset_run.visible = True
                 status_log.log(
                     "Updated visibility for %s of %s datasets of type %s of %s.",
                     n + 1,
-- 
2.43.0


From daf68e0b519b7c98c6ea82bac27f8503b0723505 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 03:30:42 +0000
Subject: [PATCH 52/71] fix: tell log and metadata datasets from others by
 their full name in reports

---
 python/lsst/pipe/base/quantum_provenance_graph.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_provenance_graph.py b/python/lsst/pipe/base/quantum_provenance_graph.py
index 9cc08a7..88272bf 100644
--- a/python/lsst/pipe/base/quantum_provenance_graph.py
+++ b/python/lsst/pipe/base/quantum_provenance_graph.py
@@ -74,9 +74,7 @@ from lsst.utils.logging import PeriodicLogger, getLogger
 
 from ._status import ExceptionInfo, QuantumSuccessCaveats
 from .automatic_connection_constants import (
-    LOG_OUTPUT_CONNECTION_NAME,
     LOG_OUTPUT_TEMPLATE,
-    METADATA_OUTPUT_CONNECTION_NAME,
     METADATA_OUTPUT_STORAGE_CLASS,
     METADATA_OUTPUT_TEMPLATE,
     PROVENANCE_DATASET_TYPE_NAME,
@@ -1624,12 +1622,10 @@ class QuantumProvenanceGraph:
             # collection combination.
             dataset_runs[output_run] = DatasetRun(id=ref.id)
             # save metadata and logs for easier status interpretation later
-            if dataset_key.dataset_type_name.endswith(METADATA_OUTPUT_CONNECTION_NAME):
+            if ref == metadata_ref:
                 quantum_info["metadata"] = dataset_key
-                quantum_runs[output_run].metadata_ref = ref
-            if dataset_key.dataset_type_name.endswith(LOG_OUTPUT_CONNECTION_NAME):
+            if ref == log_ref:
                 quantum_info["log"] = dataset_key
-                quantum_runs[output_run].log_ref = ref
         for ref in itertools.chain.from_iterable(node.quantum.inputs.values()):
             dataset_key = DatasetKey(ref.datasetType.nameAndComponent()[0], ref.dataId.required_values)
             if dataset_key in self._xgraph:
@@ -1955,10 +1951,7 @@ class QuantumProvenanceGraph:
                             # Avoiding publishing failed logs is difficult
                             # without using tagged collections, so flag them as
                             # merely unsuccessful unless the user requests it.
-                            if (
-                                dataset_type_name.endswith(LOG_OUTPUT_CONNECTION_NAME)
-                                and not curse_failed_logs
-                            ):
+                            if dataset_key == quantum_info["log"] and not curse_failed_logs:
                                 dataset_info["status"] = DatasetInfoStatus.UNSUCCESSFUL
                             else:
                                 dataset_info["status"] = DatasetInfoStatus.CURSED
-- 
2.43.0


From 5f7d5ba4dc9800398d7dee100b20c28a345d7d3b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 03:34:11 +0000
Subject: [PATCH 53/71] fix: read the metadata and logs a run holds when
 reporting on runs executed more than once

---
 python/lsst/pipe/base/quantum_provenance_graph.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/lsst/pipe/base/quantum_provenance_graph.py b/python/lsst/pipe/base/quantum_provenance_graph.py
index 88272bf..7dd2263 100644
--- a/python/lsst/pipe/base/quantum_provenance_graph.py
+++ b/python/lsst/pipe/base/quantum_provenance_graph.py
@@ -1509,6 +1509,7 @@ class QuantumProvenanceGraph:
                     dataset_run = dataset_info["runs"].get(output_run)  # dataset run (singular)
                     if dataset_run is not None:
                         dataset_run.produced = True
+                        dataset_run.id = ref.id
                 status_log.log(
                     "Updated status for %s of %s datasets of %s of %s types.",
                     n + 1,
@@ -1661,6 +1662,12 @@ class QuantumProvenanceGraph:
         log_key = quantum_info["log"]
         metadata_dataset_run = self.get_dataset_info(metadata_key)["runs"][output_run]
         log_dataset_run = self.get_dataset_info(log_key)["runs"][output_run]
+        # The datasets in this run may have been written by a later graph for
+        # the same run, with different dataset IDs.
+        if quantum_run.metadata_ref.id != metadata_dataset_run.id:
+            quantum_run.metadata_ref = quantum_run.metadata_ref.replace(id=metadata_dataset_run.id)
+        if quantum_run.log_ref.id != log_dataset_run.id:
+            quantum_run.log_ref = quantum_run.log_ref.replace(id=log_dataset_run.id)
         # if we do have metadata, we know that the task finished.
         if metadata_dataset_run.produced:
             # if we also have logs, this is a success.
-- 
2.43.0


From e2c15603ca0499343854e5103907f4d2f171b493 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 03:50:24 +0000
Subject: [PATCH 54/71] fix: let blocking butlers provide storage classes like
 any limited butler

---
 python/lsst/pipe/base/blocking_limited_butler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/lsst/pipe/base/blocking_limited_butler.py b/python/lsst/pipe/base/blocking_limited_butler.py
index 3fe1946..9b78546 100644
--- a/python/lsst/pipe/base/blocking_limited_butler.py
+++ b/python/lsst/pipe/base/blocking_limited_butler.py
@@ -71,6 +71,7 @@ class BlockingLimitedButler(LimitedButler):
         timeouts: Mapping[str, float | None],
     ):
         self._wrapped = wrapped
+        self.storageClasses = self._wrapped.storageClasses
         self._timeouts = timeouts
 
     def close(self) -> None:
-- 
2.43.0


From 3596ed4d92af02fc875e06bc841d9eb04f9cb3fe Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 03:52:12 +0000
Subject: [PATCH 55/71] fix: cache a dataset on put only once it has been put

---
 python/lsst/pipe/base/caching_limited_butler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/caching_limited_butler.py b/python/lsst/pipe/base/caching_limited_butler.py
index c1e0e70..57bf0a8 100644
--- a/python/lsst/pipe/base/caching_limited_butler.py
+++ b/python/lsst/pipe/base/caching_limited_butler.py
@@ -168,6 +168,7 @@ class CachingLimitedButler(LimitedButler):
         return self._wrapped.isWriteable()
 
     def put(self, obj: Any, ref: DatasetRef, /, *, provenance: DatasetProvenance | None = None) -> DatasetRef:
+        result = self._wrapped.put(obj, ref, provenance=provenance)
         if ref.datasetType.name in self._cache_on_put:
             self._cache[ref.datasetType.name] = (
                 ref.id,
@@ -179,7 +180,7 @@ class CachingLimitedButler(LimitedButler):
                 ),
             )
             _LOG.debug("Cached dataset %s on put", ref)
-        return self._wrapped.put(obj, ref, provenance=provenance)
+        return result
 
     def pruneDatasets(
         self,
-- 
2.43.0


From 38325b725d467e26ce1cf13409231a14e8bf83c8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 03:53:18 +0000
Subject: [PATCH 56/71] fix: cache a copy of what is put when copies are asked
 for

---
 .../lsst/pipe/base/caching_limited_butler.py   | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/python/lsst/pipe/base/caching_limited_butler.py b/python/lsst/pipe/base/caching_limited_butler.py
index 57bf0a8..5c7b85c 100644
--- a/python/lsst/pipe/base/caching_limited_butler.py
+++ b/python/lsst/pipe/base/caching_limited_butler.py
@@ -29,6 +29,7 @@ from __future__ import annotations
 
 __all__ = ["CachingLimitedButler"]
 
+import dataclasses
 import logging
 from collections.abc import Iterable, Set
 from typing import Any
@@ -170,15 +171,16 @@ class CachingLimitedButler(LimitedButler):
     def put(self, obj: Any, ref: DatasetRef, /, *, provenance: DatasetProvenance | None = None) -> DatasetRef:
         result = self._wrapped.put(obj, ref, provenance=provenance)
         if ref.datasetType.name in self._cache_on_put:
-            self._cache[ref.datasetType.name] = (
-                ref.id,
-                InMemoryDatasetHandle(
-                    obj,
-                    storageClass=ref.datasetType.storageClass,
-                    dataId=ref.dataId,
-                    copy=ref.datasetType.name not in self._no_copy_on_cache,
-                ),
+            handle = InMemoryDatasetHandle(
+                obj,
+                storageClass=ref.datasetType.storageClass,
+                dataId=ref.dataId,
+                copy=ref.datasetType.name not in self._no_copy_on_cache,
             )
+            if handle.copy:
+                # The caller may go on to modify the object it has put.
+                handle = dataclasses.replace(handle, inMemoryDataset=handle.get())
+            self._cache[ref.datasetType.name] = (ref.id, handle)
             _LOG.debug("Cached dataset %s on put", ref)
         return result
 
-- 
2.43.0


From 545d0a5183f29f256cb4ef788b9ddd7221c97bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 03:53:19 +0000
Subject: [PATCH 57/71] fix: cache datasets as stored, and convert from the
 cache only where possible

---
 python/lsst/pipe/base/caching_limited_butler.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/python/lsst/pipe/base/caching_limited_butler.py b/python/lsst/pipe/base/caching_limited_butler.py
index 5c7b85c..8260e06 100644
--- a/python/lsst/pipe/base/caching_limited_butler.py
+++ b/python/lsst/pipe/base/caching_limited_butler.py
@@ -32,7 +32,7 @@ __all__ = ["CachingLimitedButler"]
 import dataclasses
 import logging
 from collections.abc import Iterable, Set
-from typing import Any
+from typing import Any, cast
 
 from lsst.daf.butler import (
     ButlerMetrics,
@@ -121,19 +121,26 @@ class CachingLimitedButler(LimitedButler):
         # check if we have this dataset type in the cache
         if cached := self._cache.get(ref.datasetType.name):
             dataset_id, handle = cached
-            if dataset_id == ref.id:  # if we do, check it's the right object
+            # if we do, check it's the right object, and one we can convert
+            if dataset_id == ref.id and storageClass.can_convert(cast(StorageClass, handle.storageClass)):
                 _LOG.debug("Returning cached dataset %s", ref)
                 return handle.get(parameters=parameters, storageClass=storageClass)
 
         obj = self._wrapped.get(ref, parameters=parameters, storageClass=storageClass)
-        if ref.datasetType.name in self._cache_on_get and not parameters:
+        if (
+            ref.datasetType.name in self._cache_on_get
+            and not parameters
+            and storageClass == ref.datasetType.storageClass
+        ):
             handle = InMemoryDatasetHandle(
                 obj,
                 storageClass=storageClass,
                 dataId=ref.dataId,
                 copy=ref.datasetType.name not in self._no_copy_on_cache,
             )
-            # and not parameters is to make sure we don't cache sub-images etc
+            # and not parameters is to make sure we don't cache sub-images etc;
+            # similarly we don't cache the (possibly lossy) results of
+            # conversions.
             self._cache[ref.datasetType.name] = (ref.id, handle)
             _LOG.debug("Cached dataset %s", ref)
             # make sure copy fires if needed
-- 
2.43.0


From b19aa7296e0c004ea9fa67fdc5d6e76d70a71a5a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 03:53:19 +0000
Subject: [PATCH 58/71] fix: forget cached components of pruned datasets

---
 python/lsst/pipe/base/caching_limited_butler.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/lsst/pipe/base/caching_limited_butler.py b/python/lsst/pipe/base/caching_limited_butler.py
index 8260e06..a3c7f70 100644
--- a/python/lsst/pipe/base/caching_limited_butler.py
+++ b/python/lsst/pipe/base/caching_limited_butler.py
@@ -201,11 +201,11 @@ class CachingLimitedButler(LimitedButler):
         purge: bool = False,
     ) -> None:
         refs = list(refs)
-        for ref in refs:
-            if cached := self._cache.get(ref.datasetType.name):
-                dataset_id, _ = cached
-                if dataset_id == ref.id:
-                    del self._cache[ref.datasetType.name]
+        pruned_ids = {ref.id for ref in refs}
+        # Components are cached under their own names, but share the ID.
+        for name, (dataset_id, _) in list(self._cache.items()):
+            if dataset_id in pruned_ids:
+                del self._cache[name]
 
         return self._wrapped.pruneDatasets(
             refs, disassociate=disassociate, unstore=unstore, tags=tags, purge=purge
-- 
2.43.0


From 852746c0d99e851d21ed75ba6393c9184504f822 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 04:04:22 +0000
Subject: [PATCH 59/71] fix: run quanta whose adjustQuantum dropped a
 non-multiple output

---
 python/lsst/pipe/base/connections.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/lsst/pipe/base/connections.py b/python/lsst/pipe/base/connections.py
index 348232b..0241d79 100644
--- a/python/lsst/pipe/base/connections.py
+++ b/python/lsst/pipe/base/connections.py
@@ -821,6 +821,9 @@ class PipelineTaskConnections(metaclass=PipelineTaskConnectionsMetaclass):
             # Unpack arguments that are not marked multiples (list of
             # length one)
             if not attribute.multiple:
+                if not value:
+                    # Dropped by adjustQuantum.
+                    continue
                 setattr(outputDatasetRefs, attributeName, value[0])
             else:
                 setattr(outputDatasetRefs, attributeName, value)
-- 
2.43.0


From 751a0e32959539b25a974357c421a6b212c2115b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 04:44:07 +0000
Subject: [PATCH 60/71] fix: look for existing package versions in the output
 run only

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index eb65858..ae20581 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -2086,7 +2086,7 @@ class PipelineGraph:
             with the current packages.
         """
         new_packages = Packages.fromSystem()
-        if (ref := butler.find_dataset(self.packages_dataset_type)) is not None:
+        if (ref := butler.find_dataset(self.packages_dataset_type, collections=butler.run)) is not None:
             packages = butler.get(ref)
             if compare_packages(packages, new_packages):
                 # have to remove existing dataset first; butler has no
-- 
2.43.0


From 886a6a8d9a9972900c6732b2d2c013a27039076b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 04:44:07 +0000
Subject: [PATCH 61/71] fix: keep tasks from modifying init datasets that
 others use

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index ae20581..0007ab4 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -1950,6 +1950,8 @@ class PipelineGraph:
                             dataId=empty_data_id,
                             copy=True,
                         )
+                        # The task may modify what it is given.
+                        obj = handles[read_edge.dataset_type_name].get()
                 task_init_inputs[read_edge.connection_name] = obj
             task = task_node.task_class(
                 config=task_node.config, initInputs=task_init_inputs, name=task_node.label
@@ -1975,7 +1977,7 @@ class PipelineGraph:
                         dataset_type_node.storage_class.coerce_type(obj),
                         dataId=empty_data_id,
                         storageClass=dataset_type_node.storage_class,
-                        copy=(n_consumers > 1),
+                        copy=True,
                     )
         return [tasks[label] for label in self.tasks if label in tasks]
 
-- 
2.43.0


From 1c00ba8caa7e076eda56b6a1a787aa6ebb92b14a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 04:44:07 +0000
Subject: [PATCH 62/71] fix: look up existing init-outputs by name, not by the
 writer's storage class

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 0007ab4..fe67361 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -2005,7 +2005,7 @@ class PipelineGraph:
         found_refs: dict[str, DatasetRef] = {}
         to_put: list[tuple[Any, DatasetType]] = []
         for obj, dataset_type in init_outputs:
-            if (ref := butler.find_dataset(dataset_type, collections=butler.run)) is not None:
+            if (ref := butler.find_dataset(dataset_type.name, collections=butler.run)) is not None:
                 found_refs[dataset_type.name] = ref
             else:
                 to_put.append((obj, dataset_type))
-- 
2.43.0


From bfa738657e96c2f07439a3b684b9b5432e1779e3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 04:54:17 +0000
Subject: [PATCH 63/71] fix: leave metadata alone when a nested value is
 refused

---
 python/lsst/pipe/base/_task_metadata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/lsst/pipe/base/_task_metadata.py b/python/lsst/pipe/base/_task_metadata.py
index 352a2f6..b722a96 100644
--- a/python/lsst/pipe/base/_task_metadata.py
+++ b/python/lsst/pipe/base/_task_metadata.py
@@ -520,9 +520,9 @@ class TaskMetadata(BaseModel):
             return
 
         # This must be hierarchical so forward to the child TaskMetadata.
-        if key0 not in self.metadata:
-            self.metadata[key0] = TaskMetadata()
-        self.metadata[key0][".".join(keys)] = item
+        child = self.metadata[key0] if key0 in self.metadata else TaskMetadata()
+        child[".".join(keys)] = item
+        self.metadata[key0] = child
 
         # Ensure we have cleared out anything with the same name elsewhere.
         self.scalars.pop(key0, None)
-- 
2.43.0


From 4789666a266b6d4ca300105deb4696df38036ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 04:54:17 +0000
Subject: [PATCH 64/71] fix: make TaskMetadata.add cope with empty lists and
 leave a refused item alone

---
 python/lsst/pipe/base/_task_metadata.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/python/lsst/pipe/base/_task_metadata.py b/python/lsst/pipe/base/_task_metadata.py
index b722a96..067a737 100644
--- a/python/lsst/pipe/base/_task_metadata.py
+++ b/python/lsst/pipe/base/_task_metadata.py
@@ -263,20 +263,21 @@ class TaskMetadata(BaseModel):
             if key0 in self.metadata:
                 raise ValueError(f"Can not add() to key '{name}' since that is a TaskMetadata")
 
-            if key0 in self.scalars:
-                # Convert scalar to array.
-                # MyPy should be able to figure out that List[Union[T1, T2]] is
-                # compatible with  Union[List[T1], List[T2]] if the list has
-                # only one element, but it can't.
-                self.arrays[key0] = [self.scalars.pop(key0)]  # type: ignore
+            # Check that the type is not changing, before modifying anything;
+            # an empty array has no type.
+            current: list[Any] = (
+                [self.scalars[key0]] if key0 in self.scalars else list(self.arrays.get(key0, []))
+            )
+            if current and value:
+                if (curtype := type(current[0])) is not (newtype := type(value[0])):
+                    raise ValueError(f"Type mismatch in add() -- currently {curtype} but adding {newtype}")
 
             if key0 in self.arrays:
-                # Check that the type is not changing.
-                if (curtype := type(self.arrays[key0][0])) is not (newtype := type(value[0])):
-                    raise ValueError(f"Type mismatch in add() -- currently {curtype} but adding {newtype}")
                 self.arrays[key0].extend(value)
             else:
-                self.arrays[key0] = value
+                # Convert scalar to array, if there is one.
+                self.scalars.pop(key0, None)
+                self.arrays[key0] = current + value
 
             return
 
-- 
2.43.0


From f84cc6ebbf3457de6710426f732105c8e400279c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 04:54:17 +0000
Subject: [PATCH 65/71] fix: return deep copies from TaskMetadata.to_dict and
 get_dict

---
 python/lsst/pipe/base/_task_metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/_task_metadata.py b/python/lsst/pipe/base/_task_metadata.py
index 067a737..326223e 100644
--- a/python/lsst/pipe/base/_task_metadata.py
+++ b/python/lsst/pipe/base/_task_metadata.py
@@ -232,7 +232,7 @@ class TaskMetadata(BaseModel):
         """
         d: dict[str, Any] = {}
         d.update(self.scalars)
-        d.update(self.arrays)
+        d.update((k, list(v)) for k, v in self.arrays.items())
         for k, v in self.metadata.items():
             d[k] = v.to_dict()
         return d
-- 
2.43.0


From 9f5bfa76eac26f99b37e63578a3a5151c64f7f8e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:01:10 +0000
Subject: [PATCH 66/71] fix: restore all of a QuantumGraph when unpickling it

---
 python/lsst/pipe/base/graph/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/pipe/base/graph/graph.py b/python/lsst/pipe/base/graph/graph.py
index 133cbf2..28f6467 100644
--- a/python/lsst/pipe/base/graph/graph.py
+++ b/python/lsst/pipe/base/graph/graph.py
@@ -1416,6 +1416,10 @@ class QuantumGraph:
         self._connectedQuanta = qgraph._connectedQuanta
         self._initInputRefs = qgraph._initInputRefs
         self._initOutputRefs = qgraph._initOutputRefs
+        self._globalInitOutputRefs = qgraph._globalInitOutputRefs
+        self._registryDatasetTypes = qgraph._registryDatasetTypes
+        self._universe = qgraph._universe
+        self._pipeline_graph = None
 
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, QuantumGraph):
-- 
2.43.0


From 543d4df99bae56a666e18e3659d2c33179e187c2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:01:10 +0000
Subject: [PATCH 67/71] fix: preserve node IDs when QuantumGraph.subset is
 given an iterator

---
 python/lsst/pipe/base/graph/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/lsst/pipe/base/graph/graph.py b/python/lsst/pipe/base/graph/graph.py
index 28f6467..32a15ad 100644
--- a/python/lsst/pipe/base/graph/graph.py
+++ b/python/lsst/pipe/base/graph/graph.py
@@ -663,6 +663,7 @@ class QuantumGraph:
         """
         if not isinstance(nodes, Iterable):
             nodes = (nodes,)
+        nodes = list(nodes)
         quantumSubgraph = self._connectedQuanta.subgraph(nodes).nodes
         quantumMap = defaultdict(set)
 
-- 
2.43.0


From f475296e70bf797b2f24ea6c9eb60029e203e71d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:01:29 +0000
Subject: [PATCH 68/71] fix: load QuantumGraphs from files opened for reading
 only

---
 python/lsst/pipe/base/graph/_loadHelpers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/graph/_loadHelpers.py b/python/lsst/pipe/base/graph/_loadHelpers.py
index cb9ce03..919498f 100644
--- a/python/lsst/pipe/base/graph/_loadHelpers.py
+++ b/python/lsst/pipe/base/graph/_loadHelpers.py
@@ -32,7 +32,6 @@ import struct
 from collections.abc import Iterable
 from contextlib import AbstractContextManager, ExitStack
 from dataclasses import dataclass
-from io import BufferedRandom, BytesIO
 from types import TracebackType
 from typing import TYPE_CHECKING, BinaryIO
 from uuid import UUID
@@ -260,7 +259,7 @@ class LoadHelper(AbstractContextManager["LoadHelper"]):
         return self._resourceHandle.read(stop - start)
 
     def __enter__(self) -> LoadHelper:
-        if isinstance(self.uri, BinaryIO | BytesIO | BufferedRandom):
+        if not isinstance(self.uri, ResourcePath):
             self._resourceHandle = self.uri
         elif self.fullRead:
             local = self._exitStack.enter_context(self.uri.as_local())
-- 
2.43.0


From 1a9f7ad13fea04b5384d4c2ff83d40fe88c4cb57 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:10:06 +0000
Subject: [PATCH 69/71] fix: identify intermediates of a QuantumGraph whatever
 else is asked for

---
 python/lsst/pipe/base/graph/graph.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/python/lsst/pipe/base/graph/graph.py b/python/lsst/pipe/base/graph/graph.py
index 32a15ad..6466a22 100644
--- a/python/lsst/pipe/base/graph/graph.py
+++ b/python/lsst/pipe/base/graph/graph.py
@@ -1734,9 +1734,9 @@ class QuantumGraph:
         init_input_refs: set[DatasetRef] = set()
         init_output_refs: set[DatasetRef] = set(self.globalInitOutputRefs())
 
-        if include_intermediates is True:
+        if include_intermediates is not None:
             # Need to enable inputs and outputs even if not explicitly
-            # requested.
+            # requested, to know which datasets are intermediates.
             request_include_init_inputs = True
             request_include_inputs = True
             request_include_init_outputs = True
@@ -1763,6 +1763,7 @@ class QuantumGraph:
             if request_include_inputs:
                 for other_refs in qnode.quantum.inputs.values():
                     input_refs.update(other_refs)
+            if include_inputs or include_intermediates:
                 # Inputs can come with datastore records.
                 for store_name, records in qnode.quantum.datastore_records.items():
                     datastore_records.setdefault(store_name, DatastoreRecordData()).update(records)
@@ -1770,13 +1771,19 @@ class QuantumGraph:
                 for other_refs in qnode.quantum.outputs.values():
                     output_refs.update(other_refs)
 
-        # Intermediates are the intersection of inputs and outputs. Must do
-        # this analysis before conforming since dataset type changes will
-        # change set membership.
+        # Intermediates are the intersection of inputs and outputs. This has to
+        # compare dataset IDs, since a task may read a dataset (or a component
+        # of it) with a different storage class than it was written with.
         inter_msg = ""
-        intermediates = set()
+        intermediates: set[DatasetRef] = set()
         if include_intermediates is not None:
-            intermediates = (input_refs | init_input_refs) & (output_refs | init_output_refs)
+            produced = {ref.id for ref in output_refs | init_output_refs}
+            consumed = {ref.id for ref in input_refs | init_input_refs}
+            intermediates = {
+                ref
+                for ref in input_refs | init_input_refs | output_refs | init_output_refs
+                if ref.id in produced and ref.id in consumed
+            }
 
         if include_intermediates is False:
             # Remove intermediates from results.
-- 
2.43.0


From 7446f0efb6ab9e1d369d1d684b1b461e43585994 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 05:10:06 +0000
Subject: [PATCH 70/71] fix: keep dataset types in QuantumGraph subsets that
 only read components of them

---
 python/lsst/pipe/base/graph/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/graph/graph.py b/python/lsst/pipe/base/graph/graph.py
index 6466a22..18a701b 100644
--- a/python/lsst/pipe/base/graph/graph.py
+++ b/python/lsst/pipe/base/graph/graph.py
@@ -672,7 +672,7 @@ class QuantumGraph:
         for node in quantumSubgraph:
             quantumMap[node.taskDef].add(node.quantum)
             dataset_type_names.update(
-                dstype.name
+                dstype.nameAndComponent()[0]
                 for dstype in chain(
                     node.quantum.inputs.keys(), node.quantum.outputs.keys(), node.quantum.initInputs.keys()
                 )
-- 
2.43.0


From e90d811d5d3579da2cc95a605d5247485fa57b2f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 08:42:19 +0000
Subject: [PATCH 71/71] fix: let PipelineGraph.remove_tasks name a task twice

Removing a task that is in a subset with its label given twice raised in
the middle of the edit and left the graph inconsistent.
---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index fe67361..80b01c8 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -1009,7 +1009,7 @@ class PipelineGraph:
         task_nodes_and_subsets = []
         dataset_types: set[NodeKey] = set()
         nodes_to_remove = set()
-        for label in labels:
+        for label in dict.fromkeys(labels):
             task_node: TaskNode = self._xgraph.nodes[NodeKey(NodeType.TASK, label)]["instance"]
             # Find task subsets that reference this task.
             referencing_subsets = {
-- 
2.43.0

