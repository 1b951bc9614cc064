From b59c44cdd173aa28a978d1608d2234016091c087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:44 +0000
Subject: [PATCH 01/84] fix: GraphWalker does not yield nodes finished or
 blocked before being yielded

---
 python/lsst/pipe/base/graph_walker.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/graph_walker.py b/python/lsst/pipe/base/graph_walker.py
index d73a297..08723a8 100644
--- a/python/lsst/pipe/base/graph_walker.py
+++ b/python/lsst/pipe/base/graph_walker.py
@@ -90,7 +90,9 @@ class GraphWalker[T]:
             assert successor not in self._active, (
                 "A node downstream of an active one should not have been yielded yet."
             )
-            if all(
+            # Successors may already have been marked as finished, since callers
+            # do not need to wait for a node to be yielded.
+            if successor in self._incomplete and all(
                 predecessor not in self._incomplete for predecessor in self._xgraph.predecessors(successor)
             ):
                 self._ready.add(successor)
@@ -114,8 +116,11 @@ class GraphWalker[T]:
         self._incomplete.remove(key)
         self._active.discard(key)
         self._ready.discard(key)
-        descendants = list(networkx.dag.descendants(self._xgraph, key))
+        # Descendants may already have been marked as finished or become ready
+        # (via out-of-order calls to `finish`).
+        descendants = [d for d in networkx.dag.descendants(self._xgraph, key) if d in self._incomplete]
         self._xgraph.remove_node(key)
         self._xgraph.remove_nodes_from(descendants)
+        self._ready.difference_update(descendants)
         self._incomplete.difference_update(descendants)
         return descendants
-- 
2.43.0


From eaf27cae8abea69bb6195743d0a80ecb5734638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:07 +0000
Subject: [PATCH 02/84] fix: TaskMetadata JSON round trip preserves integer,
 boolean, and string values

---
 python/lsst/pipe/base/_task_metadata.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/_task_metadata.py b/python/lsst/pipe/base/_task_metadata.py
index da201ac..479afc3 100644
--- a/python/lsst/pipe/base/_task_metadata.py
+++ b/python/lsst/pipe/base/_task_metadata.py
@@ -124,10 +124,12 @@ class GetSetDictMetadata(SetDictMetadata, GetDictMetadata, Protocol):
 # constant "inf" or "nan", since the Pydantic model_config ser_json_inf_nan
 # doesn't automatically get picked up by parent models. This before-validator
 # turns those nulls back into NaNs, making the metadata readable again.
-def _convert_null_to_nan(value: Any) -> float:
+def _convert_null_to_nan(value: Any) -> Any:
+    # Only nulls are converted; anything else must be left alone to avoid
+    # turning integers, booleans, and number-like strings into floats.
     if value is None:
         return float("nan")
-    return float(value)
+    return value
 
 
 type _NullToNanFloat = Annotated[StrictFloat, BeforeValidator(_convert_null_to_nan)]
-- 
2.43.0


From ca536cde5fe43d0ee42adcebd0ab707504f02d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:11 +0000
Subject: [PATCH 03/84] fix: rejected TaskMetadata updates leave it unchanged;
 to_dict copies arrays

---
 python/lsst/pipe/base/_task_metadata.py | 34 +++++++++++++------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/python/lsst/pipe/base/_task_metadata.py b/python/lsst/pipe/base/_task_metadata.py
index 479afc3..bd29da3 100644
--- a/python/lsst/pipe/base/_task_metadata.py
+++ b/python/lsst/pipe/base/_task_metadata.py
@@ -232,7 +232,7 @@ class TaskMetadata(BaseModel):
         """
         d: dict[str, Any] = {}
         d.update(self.scalars)
-        d.update(self.arrays)
+        d.update({k: list(v) for k, v in self.arrays.items()})
         for k, v in self.metadata.items():
             d[k] = v.to_dict()
         return d
@@ -263,20 +263,19 @@ class TaskMetadata(BaseModel):
             if key0 in self.metadata:
                 raise ValueError(f"Can not add() to key '{name}' since that is a TaskMetadata")
 
+            # An existing scalar is converted to an array, but only once we know
+            # that the new value can be added.
+            current: list[Any]
             if key0 in self.scalars:
-                # Convert scalar to array.
-                # MyPy should be able to figure out that List[Union[T1, T2]] is
-                # compatible with  Union[List[T1], List[T2]] if the list has
-                # only one element, but it can't.
-                self.arrays[key0] = [self.scalars.pop(key0)]  # type: ignore
-
-            if key0 in self.arrays:
-                # Check that the type is not changing.
-                if (curtype := type(self.arrays[key0][0])) is not (newtype := type(value[0])):
-                    raise ValueError(f"Type mismatch in add() -- currently {curtype} but adding {newtype}")
-                self.arrays[key0].extend(value)
+                current = [self.scalars[key0]]
             else:
-                self.arrays[key0] = value
+                current = self.arrays.get(key0, [])
+
+            # Check that the type is not changing (empty lists have no type).
+            if current and value and (curtype := type(current[0])) is not (newtype := type(value[0])):
+                raise ValueError(f"Type mismatch in add() -- currently {curtype} but adding {newtype}")
+            self.scalars.pop(key0, None)
+            self.arrays.setdefault(key0, current).extend(value)
 
             return
 
@@ -520,9 +519,12 @@ class TaskMetadata(BaseModel):
             return
 
         # This must be hierarchical so forward to the child TaskMetadata.
-        if key0 not in self.metadata:
-            self.metadata[key0] = TaskMetadata()
-        self.metadata[key0][".".join(keys)] = item
+        # Only attach a new child once we know the item is valid.
+        child = self.metadata.get(key0)
+        if child is None:
+            child = TaskMetadata()
+        child[".".join(keys)] = item
+        self.metadata[key0] = child
 
         # Ensure we have cleared out anything with the same name elsewhere.
         self.scalars.pop(key0, None)
-- 
2.43.0


From b2067924e4d5bf4cf29a4187ff0b7030cc79fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:52 +0000
Subject: [PATCH 04/84] fix: AddressReader.find locates IDs that immediately
 follow the last ID of another page

---
 python/lsst/pipe/base/quantum_graph/_multiblock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_multiblock.py b/python/lsst/pipe/base/quantum_graph/_multiblock.py
index c66501f..acd8dab 100644
--- a/python/lsst/pipe/base/quantum_graph/_multiblock.py
+++ b/python/lsst/pipe/base/quantum_graph/_multiblock.py
@@ -538,7 +538,7 @@ class AddressReader:
             bounds = self.page_bounds[mid]
             if key.int < bounds.uuid_int_begin:
                 right = mid - 1
-            elif key.int > bounds.uuid_int_end:
+            elif key.int >= bounds.uuid_int_end:
                 left = mid + 1
             else:
                 # Should have been on this page, but it wasn't.
-- 
2.43.0


From e20757608fac4ed4cdac1e5cde92f8840681e530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:52 +0000
Subject: [PATCH 05/84] fix: truncated address and multi-block files raise
 instead of looping or returning partial rows

---
 python/lsst/pipe/base/quantum_graph/_multiblock.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_multiblock.py b/python/lsst/pipe/base/quantum_graph/_multiblock.py
index acd8dab..8223729 100644
--- a/python/lsst/pipe/base/quantum_graph/_multiblock.py
+++ b/python/lsst/pipe/base/quantum_graph/_multiblock.py
@@ -566,7 +566,10 @@ class AddressReader:
         return True
 
     def _read_row(self, page_stream: BytesIO) -> AddressRow:
-        row = AddressRow.read(page_stream, self.n_addresses, self.int_size)
+        row_data = page_stream.read(self.row_size)
+        if len(row_data) < self.row_size:
+            raise InvalidQuantumGraphFileError("Address file unexpectedly truncated.")
+        row = AddressRow.read(BytesIO(row_data), self.n_addresses, self.int_size)
         self.rows[row.key] = row
         _LOG.debug("Read address row %s.", row)
         return row
@@ -734,7 +737,10 @@ class MultiblockReader:
             size_data = buffered_stream.read(int_size)
             while size_data:
                 internal_size = int.from_bytes(size_data)
-                yield buffered_stream.read(internal_size)
+                data = buffered_stream.read(internal_size)
+                if len(size_data) != int_size or len(data) != internal_size:
+                    raise InvalidQuantumGraphFileError("Multi-block file unexpectedly truncated.")
+                yield data
                 size_data = buffered_stream.read(int_size)
 
     @classmethod
@@ -791,6 +797,8 @@ class MultiblockReader:
             return None
         self.stream.seek(address.offset)
         data = self.stream.read(address.size)
+        if len(data) != address.size:
+            raise InvalidQuantumGraphFileError("Multi-block file unexpectedly truncated.")
         internal_size = int.from_bytes(data[: self.int_size])
         data = data[self.int_size :]
         if len(data) != internal_size:
-- 
2.43.0


From cb4259bb90167cfaf455dc8643e3ec17a3a7e857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:56 +0000
Subject: [PATCH 06/84] fix: BlockingLimitedButler.stored_many checks again
 after waiting, so datasets arriving within the timeout are seen

---
 python/lsst/pipe/base/blocking_limited_butler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/blocking_limited_butler.py b/python/lsst/pipe/base/blocking_limited_butler.py
index 3fe1946..e9e874e 100644
--- a/python/lsst/pipe/base/blocking_limited_butler.py
+++ b/python/lsst/pipe/base/blocking_limited_butler.py
@@ -138,8 +138,8 @@ class BlockingLimitedButler(LimitedButler):
                     remaining.append(ref)
             if not remaining:
                 return result
-            result.update(self._wrapped.stored_many(remaining))
             time.sleep(0.5)
+            result.update(self._wrapped.stored_many(remaining))
 
     def isWriteable(self) -> bool:
         return self._wrapped.isWriteable()
-- 
2.43.0


From 2cf917cbeb2ef6959515f508c686a48071f357ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:11 +0000
Subject: [PATCH 07/84] fix: CachingLimitedButler no longer serves failed puts,
 caller-modified, converted, or pruned component objects

---
 .../lsst/pipe/base/caching_limited_butler.py  | 40 +++++++++++--------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/python/lsst/pipe/base/caching_limited_butler.py b/python/lsst/pipe/base/caching_limited_butler.py
index c1e0e70..a2ef6f1 100644
--- a/python/lsst/pipe/base/caching_limited_butler.py
+++ b/python/lsst/pipe/base/caching_limited_butler.py
@@ -125,14 +125,20 @@ class CachingLimitedButler(LimitedButler):
                 return handle.get(parameters=parameters, storageClass=storageClass)
 
         obj = self._wrapped.get(ref, parameters=parameters, storageClass=storageClass)
-        if ref.datasetType.name in self._cache_on_get and not parameters:
+        if (
+            ref.datasetType.name in self._cache_on_get
+            and not parameters
+            and storageClass == ref.datasetType.storageClass
+        ):
             handle = InMemoryDatasetHandle(
                 obj,
                 storageClass=storageClass,
                 dataId=ref.dataId,
                 copy=ref.datasetType.name not in self._no_copy_on_cache,
             )
-            # and not parameters is to make sure we don't cache sub-images etc
+            # and not parameters is to make sure we don't cache sub-images etc;
+            # converted objects are not cached either, since that conversion
+            # may not be reversible.
             self._cache[ref.datasetType.name] = (ref.id, handle)
             _LOG.debug("Cached dataset %s", ref)
             # make sure copy fires if needed
@@ -168,18 +174,21 @@ class CachingLimitedButler(LimitedButler):
         return self._wrapped.isWriteable()
 
     def put(self, obj: Any, ref: DatasetRef, /, *, provenance: DatasetProvenance | None = None) -> DatasetRef:
+        # Only update the cache if the actual put succeeds.
+        result = self._wrapped.put(obj, ref, provenance=provenance)
         if ref.datasetType.name in self._cache_on_put:
-            self._cache[ref.datasetType.name] = (
-                ref.id,
-                InMemoryDatasetHandle(
-                    obj,
-                    storageClass=ref.datasetType.storageClass,
-                    dataId=ref.dataId,
-                    copy=ref.datasetType.name not in self._no_copy_on_cache,
-                ),
+            copy = ref.datasetType.name not in self._no_copy_on_cache
+            handle = InMemoryDatasetHandle(
+                obj, storageClass=ref.datasetType.storageClass, dataId=ref.dataId, copy=copy
             )
+            if copy:
+                # The caller may go on to modify the object it passed in.
+                handle = InMemoryDatasetHandle(
+                    handle.get(), storageClass=ref.datasetType.storageClass, dataId=ref.dataId, copy=copy
+                )
+            self._cache[ref.datasetType.name] = (ref.id, handle)
             _LOG.debug("Cached dataset %s on put", ref)
-        return self._wrapped.put(obj, ref, provenance=provenance)
+        return result
 
     def pruneDatasets(
         self,
@@ -191,11 +200,10 @@ class CachingLimitedButler(LimitedButler):
         purge: bool = False,
     ) -> None:
         refs = list(refs)
-        for ref in refs:
-            if cached := self._cache.get(ref.datasetType.name):
-                dataset_id, _ = cached
-                if dataset_id == ref.id:
-                    del self._cache[ref.datasetType.name]
+        # Cache entries for components have the same dataset ID as their parent.
+        ids = {ref.id for ref in refs}
+        for name in [name for name, (dataset_id, _) in self._cache.items() if dataset_id in ids]:
+            del self._cache[name]
 
         return self._wrapped.pruneDatasets(
             refs, disassociate=disassociate, unstore=unstore, tags=tags, purge=purge
-- 
2.43.0


From 3f3c8378d1e22de279af4533f5934ce896137ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:11 +0000
Subject: [PATCH 08/84] fix: ObservationDimensionPacker rejects negative IDs,
 which collided with other data IDs

---
 python/lsst/pipe/base/_observation_dimension_packer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/_observation_dimension_packer.py b/python/lsst/pipe/base/_observation_dimension_packer.py
index 706a9d8..62ed53b 100644
--- a/python/lsst/pipe/base/_observation_dimension_packer.py
+++ b/python/lsst/pipe/base/_observation_dimension_packer.py
@@ -147,10 +147,10 @@ class ObservationDimensionPacker(DimensionPacker):
     def _pack(self, dataId: DataCoordinate) -> int:
         # Docstring inherited from DimensionPacker._pack
         detector_id = cast(int, dataId["detector"])
-        if detector_id >= self._n_detectors:
+        if not 0 <= detector_id < self._n_detectors:
             raise ValueError(f"Detector ID {detector_id} is out of bounds; expected <{self._n_detectors}.")
         observation_id = cast(int, dataId["exposure" if self.is_exposure else "visit"])
-        if observation_id >= self._n_observations:
+        if not 0 <= observation_id < self._n_observations:
             raise ValueError(
                 f"{'Exposure' if self.is_exposure else 'Visit'} ID {observation_id} is out of bounds; "
                 f"expected <{self._n_observations}."
-- 
2.43.0


From 06611ec81f0dee1cb2a6354f52f227876e829425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:23 +0000
Subject: [PATCH 09/84] fix: producing_edge_of and producer_of raise
 DuplicateOutputError as documented

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 1222a8b..a6b195e 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -400,6 +400,7 @@ class PipelineGraph:
                     f"Dataset type {dataset_type_name!r} is produced by both {producing_edge.task_label!r} "
                     f"and {producer!r}."
                 )
+            producer = producing_edge.task_label
         return producing_edge
 
     def consuming_edges_of(self, dataset_type_name: str) -> list[ReadEdge]:
-- 
2.43.0


From a62d7d71f949c885a743ac5645f0396b1e8ce26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:17 +0000
Subject: [PATCH 10/84] fix: failed and repeated PipelineGraph task additions
 leave the graph unchanged; modifications unverify steps

---
 .../base/pipeline_graph/_pipeline_graph.py    | 52 +++++++++++++------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index a6b195e..28c5b44 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -803,6 +803,8 @@ class PipelineGraph:
         ------
         PipelineDataCycleError
             Raised if the graph is cyclic after this addition.
+        PipelineGraphError
+            Raised if a task with the same label is already in the graph.
 
         Notes
         -----
@@ -817,7 +819,11 @@ class PipelineGraph:
         """
         node_data: list[tuple[NodeKey, dict[str, Any]]] = []
         edge_data: list[tuple[NodeKey, NodeKey, str, dict[str, Any]]] = []
+        new_task_keys: set[NodeKey] = set()
         for task_node in nodes:
+            if task_node.key in self._xgraph or task_node.key in new_task_keys:
+                raise PipelineGraphError(f"Task {task_node.label!r} is already in the pipeline graph.")
+            new_task_keys.add(task_node.key)
             task_node = task_node._resolved(self._universe)
             node_data.append(
                 (task_node.key, {"instance": task_node, "bipartite": task_node.key.node_type.bipartite})
@@ -844,9 +850,16 @@ class PipelineGraph:
             return
         # Checks and preparation complete; time to start the actual
         # modification, during which it's hard to provide strong exception
-        # safety.  Start by resetting the sort ordering, if there is one.
+        # safety.  Start by saving the state we'd need to restore to revert and
+        # then reset the sort ordering, if there is one.
+        original_states = {
+            key: self._xgraph.nodes[key].copy() for key, _ in node_data if key in self._xgraph
+        }
+        original_sorted_keys = self._sorted_keys
+        original_steps_verified = self._step_definitions._verified
         self._reset()
         try:
+            # This also resets any existing dataset type nodes.
             self._xgraph.add_nodes_from(node_data)
             self._xgraph.add_edges_from(edge_data)
             if not networkx.algorithms.dag.is_directed_acyclic_graph(self._xgraph):
@@ -856,7 +869,12 @@ class PipelineGraph:
             # First try to roll back our changes.
             try:
                 self._xgraph.remove_edges_from(edge_data)
-                self._xgraph.remove_nodes_from(key for key, _ in node_data)
+                self._xgraph.remove_nodes_from({key for key, _ in node_data} - original_states.keys())
+                for key, state in original_states.items():
+                    self._xgraph.nodes[key].update(state)
+                if original_sorted_keys is not None:
+                    self._reorder(original_sorted_keys)
+                self._step_definitions._verified = original_steps_verified
             except Exception as err:  # pragma: no cover
                 # There's no known way to get here, but we want to make it
                 # clear it's a big problem if we do.
@@ -1038,6 +1056,9 @@ class PipelineGraph:
         """
         subset = TaskSubset(self._xgraph, subset_label, set(task_labels), description, self._step_definitions)
         self._task_subsets[subset_label] = subset
+        if subset_label in self._step_definitions:
+            # Replacing the membership of an existing step.
+            self._step_definitions._verified = False
 
     def remove_task_subset(self, subset_label: str) -> None:
         """Remove a labeled set of tasks.
@@ -1051,11 +1072,11 @@ class PipelineGraph:
         -----
         If this subset is a step, it is also removed from the step definitions.
         """
+        del self._task_subsets[subset_label]
         try:
             self._step_definitions.remove(subset_label)
         except KeyError:
             pass
-        del self._task_subsets[subset_label]
 
     ###########################################################################
     #
@@ -2314,8 +2335,9 @@ class PipelineGraph:
         Parameters
         ----------
         node_data : `list`
-            List of node keys and state dictionaries.  A node is appended if
-            one does not already exist for this dataset type.
+            List of node keys and state dictionaries.  A node is always
+            appended, since the state of any existing node for this dataset
+            type needs to be reset.
         edge_data : `list`
             List of node key pairs, connection names, and state dictionaries
             for edges.
@@ -2328,18 +2350,15 @@ class PipelineGraph:
         new_dataset_type_node = None
         if parent is not None:
             new_dataset_type_node = parent._xgraph.nodes[edge.dataset_type_key].get("instance")
-        if (existing_dataset_type_state := self._xgraph.nodes.get(edge.dataset_type_key)) is not None:
-            existing_dataset_type_state["instance"] = new_dataset_type_node
-        else:
-            node_data.append(
-                (
-                    edge.dataset_type_key,
-                    {
-                        "instance": new_dataset_type_node,
-                        "bipartite": NodeType.DATASET_TYPE.bipartite,
-                    },
-                )
+        node_data.append(
+            (
+                edge.dataset_type_key,
+                {
+                    "instance": new_dataset_type_node,
+                    "bipartite": NodeType.DATASET_TYPE.bipartite,
+                },
             )
+        )
         edge_data.append(
             edge.nodes
             + (
@@ -2361,6 +2380,7 @@ class PipelineGraph:
         invalidate them.
         """
         self._sorted_keys = None
+        self._step_definitions._verified = False
         self._tasks._reset()
         self._dataset_types._reset()
 
-- 
2.43.0


From 673784f102a071bb854b606293a2d79296ad2271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:17 +0000
Subject: [PATCH 11/84] fix: step definitions respect init-input and
 init-output dependencies between steps

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 28c5b44..5f7a14c 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -2421,11 +2421,13 @@ class PipelineGraph:
             # graph keys for the step so we can make and sort a step sub-graph.
             new_step_keys: set[NodeKey] = set()
             for task_label in task_subset:
-                for input_name in self.inputs_of(task_label):
+                for input_name in itertools.chain(
+                    self.inputs_of(task_label), self.inputs_of(task_label, init=True)
+                ):
                     step_inputs.setdefault(input_name, set()).add(task_label)
                 # Check that none of the outputs of the tasks in this step were
                 # expected as inputs of a previous step's tasks.
-                task_outputs = self.outputs_of(task_label)
+                task_outputs = self.outputs_of(task_label) | self.outputs_of(task_label, init=True)
                 if not inputs_so_far.keys().isdisjoint(task_outputs.keys()):
                     msg: list[str] = []
                     for input_name in inputs_so_far.keys() & task_outputs.keys():
-- 
2.43.0


From d59b69bf480edcf9259dc5068fbbb40c19403d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:24 +0000
Subject: [PATCH 12/84] fix: exported pipeline graph edges carry the value of
 is_init

---
 python/lsst/pipe/base/pipeline_graph/_edges.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_edges.py b/python/lsst/pipe/base/pipeline_graph/_edges.py
index e893982..1a569a6 100644
--- a/python/lsst/pipe/base/pipeline_graph/_edges.py
+++ b/python/lsst/pipe/base/pipeline_graph/_edges.py
@@ -259,7 +259,7 @@ class Edge(ABC):
             "connection_name": self.connection_name,
             "parent_dataset_type_name": self.parent_dataset_type_name,
             "storage_class_name": self.storage_class_name,
-            "is_init": bool,
+            "is_init": self.is_init,
         }
 
     @classmethod
-- 
2.43.0


From 0a1e9fb5e79bf753e96b53c277261fd3ad3df322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:24 +0000
Subject: [PATCH 13/84] fix: deserialized pipeline graphs keep consuming edges
 and task steps

---
 python/lsst/pipe/base/pipeline_graph/io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/io.py b/python/lsst/pipe/base/pipeline_graph/io.py
index 06b87db..d3615fd 100644
--- a/python/lsst/pipe/base/pipeline_graph/io.py
+++ b/python/lsst/pipe/base/pipeline_graph/io.py
@@ -570,7 +570,7 @@ class SerializedDatasetTypeNode(pydantic.BaseModel):
                     )
                 producer = producing_edge.task_label
             consuming_edges = tuple(
-                consuming_edge for _, _, consuming_edge in xgraph.in_edges(key, data="instance")
+                consuming_edge for _, _, consuming_edge in xgraph.out_edges(key, data="instance")
             )
             return DatasetTypeNode(
                 dataset_type=dataset_type,
@@ -816,6 +816,11 @@ class SerializedPipelineGraph(pydantic.BaseModel):
             dimensions_by_label=dict.fromkeys(self.step_labels, frozenset()),
             verified=self.steps_verified,
         )
+        if self.steps_verified:
+            for step_label in self.step_labels:
+                for task_label in self.task_subsets[step_label].tasks:
+                    xgraph.nodes[NodeKey(NodeType.TASK, task_label)]["step"] = step_label
+                    xgraph.nodes[NodeKey(NodeType.TASK_INIT, task_label)]["step"] = step_label
         result = PipelineGraph.__new__(PipelineGraph)
         result._init_from_args(
             xgraph,
-- 
2.43.0


From 1f8bec59f1fc62ddf06507a85c65ef7988b015ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:39 +0000
Subject: [PATCH 14/84] fix: changes to a task's init-inputs are detected when
 comparing its edges

---
 python/lsst/pipe/base/pipeline_graph/_tasks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_tasks.py b/python/lsst/pipe/base/pipeline_graph/_tasks.py
index 0428300..4175ecb 100644
--- a/python/lsst/pipe/base/pipeline_graph/_tasks.py
+++ b/python/lsst/pipe/base/pipeline_graph/_tasks.py
@@ -430,7 +430,7 @@ class TaskInitNode:
             ``other``.
         """
         result = []
-        result += _diff_edge_mapping(self.inputs, self.inputs, self.label, "init input")
+        result += _diff_edge_mapping(self.inputs, other.inputs, self.label, "init input")
         result += _diff_edge_mapping(self.outputs, other.outputs, self.label, "init output")
         result += self.config_output.diff(other.config_output, "config init output")
         return result
-- 
2.43.0


From eb9a5d6455cf060c3376cc7bec652532b19607ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:01 +0000
Subject: [PATCH 15/84] fix: component inputs whose dimensions differ from
 their parent dataset type's are rejected on resolution

---
 python/lsst/pipe/base/pipeline_graph/_edges.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/lsst/pipe/base/pipeline_graph/_edges.py b/python/lsst/pipe/base/pipeline_graph/_edges.py
index 1a569a6..d841565 100644
--- a/python/lsst/pipe/base/pipeline_graph/_edges.py
+++ b/python/lsst/pipe/base/pipeline_graph/_edges.py
@@ -624,6 +624,12 @@ class ReadEdge(Edge):
                         f"which does not include component {self.component!r} "
                         f"as requested by task {self.task_label!r}."
                     )
+                if not visualization_only and dimensions != current.dimensions:
+                    raise IncompatibleDatasetTypeError(
+                        f"Dataset type {self.parent_dataset_type_name!r} has dimensions "
+                        f"{current.dimensions} (from {report_current_origin()}), but component "
+                        f"{self.component!r} has dimensions {dimensions} in task {self.task_label!r}."
+                    )
                 # Note that we can't actually make a fully-correct DatasetType
                 # for the component the task wants, because we don't have the
                 # parent storage class.
-- 
2.43.0


From 60531de4909bba14907440ef899214f0edcf0196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:01 +0000
Subject: [PATCH 16/84] fix: resolution of skypix placeholders does not depend
 on task insertion order

---
 .../lsst/pipe/base/pipeline_graph/_dataset_types.py  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_dataset_types.py b/python/lsst/pipe/base/pipeline_graph/_dataset_types.py
index 72f2ead..3b8cfd2 100644
--- a/python/lsst/pipe/base/pipeline_graph/_dataset_types.py
+++ b/python/lsst/pipe/base/pipeline_graph/_dataset_types.py
@@ -161,8 +161,16 @@ class DatasetTypeNode:
         consuming_edges = list(
             consuming_edge for _, _, consuming_edge in xgraph.out_edges(key, data="instance")
         )
-        # Put edges that are not component datasets before any edges that are.
-        consuming_edges.sort(key=lambda consuming_edge: consuming_edge.component is not None)
+        # Put edges that are not component datasets before any edges that are,
+        # and those that use the "skypix" placeholder before those that don't,
+        # so whether we can resolve the placeholder does not depend on the
+        # order in which tasks were added.
+        consuming_edges.sort(
+            key=lambda consuming_edge: (
+                consuming_edge.component is not None,
+                "skypix" not in consuming_edge.raw_dimensions,
+            )
+        )
         for consuming_edge in consuming_edges:
             dataset_type, is_initial_query_constraint, is_prerequisite = consuming_edge._resolve_dataset_type(
                 current=dataset_type,
-- 
2.43.0


From 21dd8abc6ce21450da5db3314ec46d94ff881135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:00 +0000
Subject: [PATCH 17/84] fix: task steps of deserialized pipeline graphs are
 looked up in their subsets

---
 .../lsst/pipe/base/pipeline_graph/_pipeline_graph.py  | 11 ++++-------
 python/lsst/pipe/base/pipeline_graph/io.py            |  5 -----
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 5f7a14c..fb29107 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -241,7 +241,10 @@ class PipelineGraph:
         if not self._step_definitions:
             raise InvalidStepsError("No steps have been defined for this pipeline.")
         elif self._step_definitions.verified:
-            return self._xgraph.nodes[NodeKey(NodeType.TASK, task_label)]["step"]
+            for step_label in self._step_definitions:
+                if task_label in self._task_subsets[step_label]:
+                    return step_label
+            raise KeyError(task_label)
         raise UnresolvedGraphError("Steps have not been verified since the last modification.")
 
     @property
@@ -2445,12 +2448,6 @@ class PipelineGraph:
                 new_step_keys.update(self._xgraph.predecessors(task_key))
                 new_step_keys.update(self._xgraph.successors(task_init_key))
                 new_step_keys.update(self._xgraph.successors(task_key))
-                # Also record the step the task is in as a private xgraph
-                # attribute so we can look up the step given a task (or,
-                # indirectly, dataset type); this has to be used with care
-                # because if the steps haven't been verified it can be wrong.
-                self._xgraph.nodes[task_init_key]["step"] = step_label
-                self._xgraph.nodes[task_key]["step"] = step_label
             # Drop step input keys that were already either inputs or outputs
             # of a previous step, since they'll have already been added to
             # sort_keys.
diff --git a/python/lsst/pipe/base/pipeline_graph/io.py b/python/lsst/pipe/base/pipeline_graph/io.py
index d3615fd..6cb1145 100644
--- a/python/lsst/pipe/base/pipeline_graph/io.py
+++ b/python/lsst/pipe/base/pipeline_graph/io.py
@@ -816,11 +816,6 @@ class SerializedPipelineGraph(pydantic.BaseModel):
             dimensions_by_label=dict.fromkeys(self.step_labels, frozenset()),
             verified=self.steps_verified,
         )
-        if self.steps_verified:
-            for step_label in self.step_labels:
-                for task_label in self.task_subsets[step_label].tasks:
-                    xgraph.nodes[NodeKey(NodeType.TASK, task_label)]["step"] = step_label
-                    xgraph.nodes[NodeKey(NodeType.TASK_INIT, task_label)]["step"] = step_label
         result = PipelineGraph.__new__(PipelineGraph)
         result._init_from_args(
             xgraph,
-- 
2.43.0


From a017c02b644543168dcdd74ebc038aba924363c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:47 +0000
Subject: [PATCH 18/84] fix: accept component inputs declared with dimensions
 other than their parent's, as before

---
 python/lsst/pipe/base/pipeline_graph/_edges.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_edges.py b/python/lsst/pipe/base/pipeline_graph/_edges.py
index d841565..1a569a6 100644
--- a/python/lsst/pipe/base/pipeline_graph/_edges.py
+++ b/python/lsst/pipe/base/pipeline_graph/_edges.py
@@ -624,12 +624,6 @@ class ReadEdge(Edge):
                         f"which does not include component {self.component!r} "
                         f"as requested by task {self.task_label!r}."
                     )
-                if not visualization_only and dimensions != current.dimensions:
-                    raise IncompatibleDatasetTypeError(
-                        f"Dataset type {self.parent_dataset_type_name!r} has dimensions "
-                        f"{current.dimensions} (from {report_current_origin()}), but component "
-                        f"{self.component!r} has dimensions {dimensions} in task {self.task_label!r}."
-                    )
                 # Note that we can't actually make a fully-correct DatasetType
                 # for the component the task wants, because we don't have the
                 # parent storage class.
-- 
2.43.0


From 38fd7762b76952c3455005dc08a9768f93698db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:56 +0000
Subject: [PATCH 19/84] fix: strings starting with '-' and quoted elements of
 list and dict strings keep their value in config overrides

---
 python/lsst/pipe/base/configOverrides.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/configOverrides.py b/python/lsst/pipe/base/configOverrides.py
index 6a81fb4..42eeb74 100644
--- a/python/lsst/pipe/base/configOverrides.py
+++ b/python/lsst/pipe/base/configOverrides.py
@@ -35,6 +35,7 @@ import ast
 import contextlib
 import inspect
 from enum import Enum
+from numbers import Number
 from operator import attrgetter
 from types import SimpleNamespace
 from typing import TYPE_CHECKING, Any
@@ -170,6 +171,9 @@ class ConfigExpressionParser(ast.NodeVisitor):
         """
         if isinstance(node.op, ast.USub):
             value = self.visit(node.operand)
+            if not isinstance(value, Number):
+                # Not a negative number, e.g. a string that starts with '-'.
+                raise ValueError("Unable to parse string into literal expression")
             return -1 * value
         self.generic_visit(node)
 
@@ -343,7 +347,7 @@ class ConfigOverrides:
                 #
                 # The same override would remain a string if specified on the
                 # command line, and is handled above.
-                if isinstance(value, dict):
+                elif isinstance(value, dict):
                     new = {}
                     for k, v in value.items():
                         if isinstance(v, str):
-- 
2.43.0


From e427f421224e8fb1d01594d008e463eda2b0f9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:26 +0000
Subject: [PATCH 20/84] fix: repeated config overrides are not merged out of
 order

---
 python/lsst/pipe/base/pipelineIR.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 76cc9ce..56e5768 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -365,13 +365,12 @@ class ConfigIR:
             yield from (self, other_config)
             return
 
-        # create a set of all keys, and verify two keys do not have different
-        # values
-        key_union = self.rest.keys() & other_config.rest.keys()
-        for key in key_union:
-            if self.rest[key] != other_config.rest[key]:
-                yield from (self, other_config)
-                return
+        # Overrides are applied in order, and overrides of other fields made in
+        # between may affect repeated ones, so configs with shared keys cannot
+        # be merged.
+        if not self.rest.keys().isdisjoint(other_config.rest.keys()):
+            yield from (self, other_config)
+            return
         self.rest.update(other_config.rest)
 
         # Combine the lists of override files to load
-- 
2.43.0


From 76773d912027b91c0805531893b96ec212743130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:59 +0000
Subject: [PATCH 21/84] fix: string elements of list and dict strings in config
 overrides are interpreted in turn, as before

---
 python/lsst/pipe/base/configOverrides.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/configOverrides.py b/python/lsst/pipe/base/configOverrides.py
index 42eeb74..2408693 100644
--- a/python/lsst/pipe/base/configOverrides.py
+++ b/python/lsst/pipe/base/configOverrides.py
@@ -347,7 +347,7 @@ class ConfigOverrides:
                 #
                 # The same override would remain a string if specified on the
                 # command line, and is handled above.
-                elif isinstance(value, dict):
+                if isinstance(value, dict):
                     new = {}
                     for k, v in value.items():
                         if isinstance(v, str):
-- 
2.43.0


From afb6d4243049d366ef6628dc01d389d1c2e22dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:59 +0000
Subject: [PATCH 22/84] fix: connections objects are frozen after construction;
 earlier bases take precedence

---
 python/lsst/pipe/base/connections.py | 34 +++++++++++++++++++---------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/python/lsst/pipe/base/connections.py b/python/lsst/pipe/base/connections.py
index 348232b..b08d1d6 100644
--- a/python/lsst/pipe/base/connections.py
+++ b/python/lsst/pipe/base/connections.py
@@ -78,6 +78,19 @@ class ScalarError(TypeError):
     """
 
 
+_RESERVED_NAMES = frozenset(
+    {
+        "dimensions",
+        "inputs",
+        "prerequisiteInputs",
+        "outputs",
+        "initInputs",
+        "initOutputs",
+        "allConnections",
+    }
+)
+
+
 class PipelineTaskConnectionDict(UserDict):
     """A special dict class used by `PipelineTaskConnectionMetaclass`.
 
@@ -113,15 +126,7 @@ class PipelineTaskConnectionDict(UserDict):
 
     def __setitem__(self, name: str, value: Any) -> None:
         if isinstance(value, BaseConnection):
-            if name in {
-                "dimensions",
-                "inputs",
-                "prerequisiteInputs",
-                "outputs",
-                "initInputs",
-                "initOutputs",
-                "allConnections",
-            }:
+            if name in _RESERVED_NAMES:
                 # Guard against connections whose names are reserved.
                 raise AttributeError(f"Connection name {name!r} is reserved for internal use.")
             if (previous := self.data.get(name)) is not None:
@@ -211,9 +216,11 @@ class PipelineTaskConnectionsMetaclass(type):
     def __prepare__(name, bases, **kwargs):  # noqa: N804
         # Create an instance of our special dict to catch and track all
         # variables that are instances of connectionTypes.BaseConnection
-        # Copy any existing connections from a parent class
+        # Copy any existing connections from a parent class, in reverse order
+        # so earlier bases take precedence over later ones (as they do for
+        # regular attributes and templates).
         dct = PipelineTaskConnectionDict()
-        for base in bases:
+        for base in bases[::-1]:
             if isinstance(base, PipelineTaskConnectionsMetaclass):
                 for name, value in base.allConnections.items():
                     dct[name] = value
@@ -421,6 +428,7 @@ class PipelineTaskConnectionsMetaclass(type):
         # type attributes (e.g. `inputs`, `outputs`, etc.), though MyPy can't
         # tell with those since we're using setattr for them.
         instance.dimensions = frozenset(instance.dimensions)  # type: ignore
+        instance._frozen = True
 
         return instance
 
@@ -706,10 +714,14 @@ class PipelineTaskConnections(metaclass=PipelineTaskConnectionsMetaclass):
 
     _allConnections: dict[str, BaseConnection]
 
+    _frozen: bool = False
+
     def __init__(self, *, config: PipelineTaskConfig | None = None):
         pass
 
     def __setattr__(self, name: str, value: Any) -> None:
+        if self._frozen and (name in _RESERVED_NAMES or name in self._allConnections):
+            raise TypeError("Connections objects are frozen after construction.")
         if isinstance(value, BaseConnection):
             previous = self._allConnections.get(name)
             try:
-- 
2.43.0


From 7ab182f48b46630dc07bdd7ccffe65de9a380c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:01 +0000
Subject: [PATCH 23/84] fix: exceptions raised by task construction are
 propagated and recorded

---
 python/lsst/pipe/base/single_quantum_executor.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/single_quantum_executor.py b/python/lsst/pipe/base/single_quantum_executor.py
index cdec3e9..b04ad8b 100644
--- a/python/lsst/pipe/base/single_quantum_executor.py
+++ b/python/lsst/pipe/base/single_quantum_executor.py
@@ -304,10 +304,11 @@ class SingleQuantumExecutor(QuantumExecutor):
                 task_node.label,
                 quantum.dataId,
             )
+            task: PipelineTask | None = None
+            outputs_put: list[uuid.UUID] = []
             try:
                 task = self._task_factory.makeTask(task_node, limited_butler, init_input_refs)
                 logInfo(None, "start", metadata=quantumMetadata)  # type: ignore[arg-type]
-                outputs_put: list[uuid.UUID] = []
                 with limited_butler.record_metrics() as butler_metrics, GcMetrics() as gc_metrics:
                     caveats = self._run_quantum(
                         task, quantum, task_node, limited_butler, quantum_id=quantum_id, ids_put=outputs_put
@@ -334,7 +335,12 @@ class SingleQuantumExecutor(QuantumExecutor):
                 # PropertyList.
             finally:
                 logInfo(None, "end", metadata=quantumMetadata)  # type: ignore[arg-type]
-                fullMetadata = task.getFullMetadata()
+                if task is not None:
+                    fullMetadata = task.getFullMetadata()
+                else:
+                    # Task construction failed.
+                    fullMetadata = _TASK_FULL_METADATA_TYPE()
+                    fullMetadata[task_node.label] = _TASK_METADATA_TYPE()
                 quantumMetadata["outputs"] = [str(output) for output in outputs_put]
                 fullMetadata["quantum"] = quantumMetadata
                 if self._job_metadata is not None:
-- 
2.43.0


From f47a2f2f2adcf61925a86900881b41b76ff49133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:01 +0000
Subject: [PATCH 24/84] fix: log message about an unchained
 AnnotatedPartialOutputsError can be formatted

---
 python/lsst/pipe/base/single_quantum_executor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/single_quantum_executor.py b/python/lsst/pipe/base/single_quantum_executor.py
index b04ad8b..ab446bc 100644
--- a/python/lsst/pipe/base/single_quantum_executor.py
+++ b/python/lsst/pipe/base/single_quantum_executor.py
@@ -613,7 +613,8 @@ class SingleQuantumExecutor(QuantumExecutor):
             error: BaseException
             if caught.__cause__ is None:
                 _LOG.error(
-                    "Incorrect use of AnnotatedPartialOutputsError: no chained exception found.",
+                    "Incorrect use of AnnotatedPartialOutputsError by task '%s' on quantum %s: "
+                    "no chained exception found.",
                     task_node.label,
                     quantum.dataId,
                 )
-- 
2.43.0


From 64f1f102a5f5fa60d1e44c48d29f48cab37d72e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:01 +0000
Subject: [PATCH 25/84] fix: exceptions raised while checking a quantum's
 inputs are recorded in its log

---
 .../lsst/pipe/base/single_quantum_executor.py | 46 ++++++++++++++-----
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/python/lsst/pipe/base/single_quantum_executor.py b/python/lsst/pipe/base/single_quantum_executor.py
index ab446bc..b4054cc 100644
--- a/python/lsst/pipe/base/single_quantum_executor.py
+++ b/python/lsst/pipe/base/single_quantum_executor.py
@@ -285,6 +285,9 @@ class SingleQuantumExecutor(QuantumExecutor):
                     adjusted_no_work=True,
                     task_metadata=fullMetadata,
                 )
+            except Exception as exc:
+                self._record_exception(exc, quantum, task_node, captureLog.extra)
+                raise
 
             # enable lsstDebug debugging
             if self._enable_lsst_debug:
@@ -314,18 +317,7 @@ class SingleQuantumExecutor(QuantumExecutor):
                         task, quantum, task_node, limited_butler, quantum_id=quantum_id, ids_put=outputs_put
                     )
             except Exception as e:
-                _LOG.error(
-                    "Execution of task '%s' on quantum %s failed. Exception %s: %s",
-                    task_node.label,
-                    quantum.dataId,
-                    e.__class__.__name__,
-                    str(e),
-                )
-                captureLog.extra.exception = ExceptionInfo(
-                    type_name=get_full_type_name(e),
-                    message=str(e),
-                    metadata={},
-                )
+                self._record_exception(e, quantum, task_node, captureLog.extra)
                 raise
             else:
                 quantumMetadata["butler_metrics"] = butler_metrics.model_dump()
@@ -362,6 +354,36 @@ class SingleQuantumExecutor(QuantumExecutor):
             task_metadata=fullMetadata,
         )
 
+    @staticmethod
+    def _record_exception(
+        exc: Exception, quantum: Quantum, task_node: TaskNode, log_extra: _ExecutionLogRecordsExtra
+    ) -> None:
+        """Log an exception and save its information with the log records.
+
+        Parameters
+        ----------
+        exc : `Exception`
+            The exception that was raised.
+        quantum : `~lsst.daf.butler.Quantum`
+            Quantum being executed.
+        task_node : `~.pipeline_graph.TaskNode`
+            Task definition structure.
+        log_extra : `.log_capture.TaskLogRecordsExtra`
+            Extra information to attach to log records.
+        """
+        _LOG.error(
+            "Execution of task '%s' on quantum %s failed. Exception %s: %s",
+            task_node.label,
+            quantum.dataId,
+            exc.__class__.__name__,
+            str(exc),
+        )
+        log_extra.exception = ExceptionInfo(
+            type_name=get_full_type_name(exc),
+            message=str(exc),
+            metadata={},
+        )
+
     def _check_existing_outputs(
         self,
         quantum: Quantum,
-- 
2.43.0


From 08bc1283edb908d69946b0951a6f0b24fc2e623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:01 +0000
Subject: [PATCH 26/84] fix: streamed logs keep previous attempts, previous
 quanta and failed metadata, and drop the metadata of successes

---
 python/lsst/pipe/base/log_capture.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/log_capture.py b/python/lsst/pipe/base/log_capture.py
index 356e1c7..cccea6d 100644
--- a/python/lsst/pipe/base/log_capture.py
+++ b/python/lsst/pipe/base/log_capture.py
@@ -227,6 +227,13 @@ class LogCapture:
                     try:
                         with ButlerMDC.set_mdc(mdc):
                             yield ctx
+                    except:
+                        raise
+                    else:
+                        # If the quantum succeeded, we don't need to save the
+                        # metadata in the logs, because we'll have saved them
+                        # in the metadata.
+                        ctx.extra.metadata = None
                     finally:
                         # Ensure that the logs are stored in butler.
                         logging.getLogger().removeHandler(log_handler_file)
@@ -235,7 +242,7 @@ class LogCapture:
                             with open(temporary.ospath, "a") as log_stream:
                                 ButlerLogRecords.write_streaming_extra(
                                     log_stream,
-                                    ctx.extra.model_dump_json(exclude_unset=True, exclude_defaults=True),
+                                    ctx.extra.model_dump_json(exclude_defaults=True),
                                 )
                         if ctx.store:
                             temporary.ingest()
-- 
2.43.0


From a7d8e8b2659a6553d786f7ea66eaa22704f3713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:49 +0000
Subject: [PATCH 27/84] fix: quanta whose scalar outputs were removed by
 adjustQuantum can be executed

---
 python/lsst/pipe/base/connections.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/lsst/pipe/base/connections.py b/python/lsst/pipe/base/connections.py
index b08d1d6..e8a15b5 100644
--- a/python/lsst/pipe/base/connections.py
+++ b/python/lsst/pipe/base/connections.py
@@ -833,6 +833,9 @@ class PipelineTaskConnections(metaclass=PipelineTaskConnectionsMetaclass):
             # Unpack arguments that are not marked multiples (list of
             # length one)
             if not attribute.multiple:
+                if len(value) == 0:
+                    # Output was removed by adjustQuantum.
+                    continue
                 setattr(outputDatasetRefs, attributeName, value[0])
             else:
                 setattr(outputDatasetRefs, attributeName, value)
-- 
2.43.0


From 5f982e376188d719d4b46b9db6f3fff0a05c4ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:19 +0000
Subject: [PATCH 28/84] fix: read worker reports while workers run, so that
 large reports cannot deadlock

---
 python/lsst/pipe/base/mp_graph_executor.py | 25 ++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/python/lsst/pipe/base/mp_graph_executor.py b/python/lsst/pipe/base/mp_graph_executor.py
index ca90f3d..b0effa3 100644
--- a/python/lsst/pipe/base/mp_graph_executor.py
+++ b/python/lsst/pipe/base/mp_graph_executor.py
@@ -106,6 +106,7 @@ class _Job:
         self._state = JobState.PENDING
         self.started: float = 0.0
         self._rcv_conn: multiprocessing.connection.Connection | None = None
+        self._received: QuantumReport | None = None
         self._terminated = False
 
     @property
@@ -294,16 +295,31 @@ class _Job:
             self.process = None
             self._rcv_conn = None
 
+    def receive(self) -> None:
+        """Receive the report if the child process has started sending it.
+
+        Has to be called regularly while the process is running, because a
+        report that does not fit into the pipe's buffer blocks the child
+        process until it is read.
+        """
+        assert self._rcv_conn is not None, "Process must be started"
+        try:
+            if self._received is None and self._rcv_conn.poll():
+                self._received = self._rcv_conn.recv()
+        except Exception:
+            # Likely due to the process being killed; report() handles this.
+            pass
+
     def report(self) -> QuantumReport:
         """Return task report, should be called after process finishes and
         before cleanup().
         """
         assert self.process is not None, "Process must be started"
-        assert self._rcv_conn is not None, "Process must be started"
-        try:
-            report = self._rcv_conn.recv()
+        self.receive()
+        if self._received is not None:
+            report = self._received
             report.exitCode = self.process.exitcode
-        except Exception:
+        else:
             # Likely due to the process killed, but there may be other reasons.
             # Exit code should not be None, this is to keep mypy happy.
             exitcode = self.process.exitcode if self.process.exitcode is not None else -1
@@ -843,6 +859,7 @@ class MPGraphExecutor(QuantumGraphExecutor):
                         else:
                             _LOG.error("%s; processing will continue for remaining tasks.", message)
                 else:
+                    job.receive()
                     # check for timeout
                     now = time.time()
                     if now - job.started > self._timeout:
-- 
2.43.0


From b8efc96399ceb60064ce9ecbd38f554864af64c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:19 +0000
Subject: [PATCH 29/84] fix: report a quantum whose process dies after the work
 as failed

---
 python/lsst/pipe/base/mp_graph_executor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/lsst/pipe/base/mp_graph_executor.py b/python/lsst/pipe/base/mp_graph_executor.py
index b0effa3..809e3b5 100644
--- a/python/lsst/pipe/base/mp_graph_executor.py
+++ b/python/lsst/pipe/base/mp_graph_executor.py
@@ -319,6 +319,9 @@ class _Job:
         if self._received is not None:
             report = self._received
             report.exitCode = self.process.exitcode
+            if report.exitCode != 0 and report.status is ExecutionStatus.SUCCESS:
+                # Process died after the quantum itself had finished.
+                report.status = ExecutionStatus.FAILURE
         else:
             # Likely due to the process killed, but there may be other reasons.
             # Exit code should not be None, this is to keep mypy happy.
-- 
2.43.0


From 1f05df95fae1b949579e0aa1e49fd95031c1ef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:19 +0000
Subject: [PATCH 30/84] fix: raise MPTimeoutError when timeouts block
 downstream quanta

---
 python/lsst/pipe/base/mp_graph_executor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/mp_graph_executor.py b/python/lsst/pipe/base/mp_graph_executor.py
index 809e3b5..d7a96a6 100644
--- a/python/lsst/pipe/base/mp_graph_executor.py
+++ b/python/lsst/pipe/base/mp_graph_executor.py
@@ -918,7 +918,10 @@ class MPGraphExecutor(QuantumGraphExecutor):
                 _LOG.error("  - %s: %s", job.state.name, job)
 
             # if any job failed raise an exception
-            if jobs.failed == jobs.timed_out:
+            if all(
+                job.state in (JobState.TIMED_OUT, JobState.FAILED_DEP)
+                for job in map(jobs.jobs.__getitem__, jobs.failed)
+            ):
                 raise MPTimeoutError("One or more tasks timed out during execution.")
             else:
                 raise MPGraphExecutorError("One or more tasks failed or timed out during execution.")
-- 
2.43.0


From 6b0139faed52d283066b9fe924f5fdbc1ddacd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:26 +0000
Subject: [PATCH 31/84] fix: validate all parameters of in-memory derived
 component reads

---
 python/lsst/pipe/base/_dataset_handle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/_dataset_handle.py b/python/lsst/pipe/base/_dataset_handle.py
index 6eb07be..f710803 100644
--- a/python/lsst/pipe/base/_dataset_handle.py
+++ b/python/lsst/pipe/base/_dataset_handle.py
@@ -202,7 +202,7 @@ class InMemoryDatasetHandle:
                 # For some reason MyPy doesn't see the line above as narrowing
                 # 'component' from 'str | None' to 'str'.
                 component = cast(str, component)
-                thisStorageClass.validateParameters(parameters)
+                thisStorageClass.validateParameters(mergedParameters)
 
                 # Process the parameters (hoping this never modified the
                 # original object).
-- 
2.43.0


From 999eb49c842721798b78af9bda643be4f849947b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:26 +0000
Subject: [PATCH 32/84] fix: return in-memory components with their storage
 class's type

---
 python/lsst/pipe/base/_dataset_handle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/lsst/pipe/base/_dataset_handle.py b/python/lsst/pipe/base/_dataset_handle.py
index f710803..800dc5f 100644
--- a/python/lsst/pipe/base/_dataset_handle.py
+++ b/python/lsst/pipe/base/_dataset_handle.py
@@ -229,6 +229,8 @@ class InMemoryDatasetHandle:
 
             if returnStorageClass:
                 return returnStorageClass.coerce_type(inMemoryDataset)
+            if component:
+                return readStorageClass.coerce_type(inMemoryDataset)
             return inMemoryDataset
         else:
             # If there are no parameters or component requests the object
-- 
2.43.0


From 12cf0e8f6bd9eab9044d4ebcf737ae88803d6731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:16 +0000
Subject: [PATCH 33/84] fix: pipelines written as YAML keep their steps;
 equality considers steps and repeated contracts

---
 python/lsst/pipe/base/pipelineIR.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 56e5768..861512a 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -577,6 +577,10 @@ class StepIR:
     dimensions: list[str]
     """The dimensions to use when sharding this step."""
 
+    def to_primitives(self) -> dict[str, str | list[str]]:
+        """Convert to a representation used in yaml serialization."""
+        return {"label": self.label, "dimensions": list(self.dimensions)}
+
 
 class PipelineIR:
     """Intermediate representation of a pipeline definition.
@@ -1097,6 +1101,8 @@ class PipelineIR:
             accumulate["contracts"] = contracts_list
         if self.labeled_subsets:
             accumulate["subsets"] = {k: v.to_primitives() for k, v in self.labeled_subsets.items()}
+        if self.steps:
+            accumulate["steps"] = [s.to_primitives() for s in self.steps]
         return accumulate
 
     def __str__(self) -> str:
@@ -1115,8 +1121,8 @@ class PipelineIR:
         return (
             all(
                 getattr(self, attr) == getattr(other, attr)
-                for attr in ("tasks", "instrument", "labeled_subsets", "parameters")
+                for attr in ("tasks", "instrument", "labeled_subsets", "parameters", "steps")
             )
             and len(self.contracts) == len(other.contracts)
-            and all(c in self.contracts for c in other.contracts)
+            and all(self.contracts.count(c) == other.contracts.count(c) for c in other.contracts)
         )
-- 
2.43.0


From 3ec7038e9d354780f11bdfc9b4f251d50c15441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:32 +0000
Subject: [PATCH 34/84] fix: imports with rename keep labeled subsets and
 contracts of renamed tasks; subsets in include and empty excludes work with
 it

---
 python/lsst/pipe/base/pipelineIR.py | 79 ++++++++++++++++-------------
 1 file changed, 43 insertions(+), 36 deletions(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 861512a..72203d2 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -45,7 +45,7 @@ import warnings
 from collections import Counter
 from collections.abc import Generator, Hashable, Iterable, MutableMapping
 from dataclasses import dataclass, field
-from typing import Any, Literal, cast
+from typing import Any, Literal
 
 import yaml
 
@@ -505,49 +505,28 @@ class ImportIR:
         if self.instrument is not _Tags.KeepInstrument:
             tmp_pipeline.instrument = self.instrument
 
-        included_labels = set()
-        renamed_tasks = {}
-        for label in tmp_pipeline.tasks:
-            is_included = self.include and label in self.include
-            if (
-                is_included
-                or (self.exclude and label not in self.exclude)
-                or (self.include is None and self.exclude is None)
-            ):
-                if (label_new := self.rename.get(label)) is not None:
-                    renamed_tasks[label] = label_new
-                    if is_included:
-                        self.include = [
-                            label_new if (x == label) else label for x in cast(list[str], self.include)
-                        ]
-                else:
-                    label_new = label
-                included_labels.add(label_new)
+        # Labeled subsets in the include or exclude list stand for all of their
+        # labels.
+        included_labels = set(tmp_pipeline.tasks.keys())
+        if self.include is not None:
+            included_labels.intersection_update(tmp_pipeline._expand_subsets(self.include))
+        elif self.exclude is not None:
+            included_labels.difference_update(tmp_pipeline._expand_subsets(self.exclude))
 
         rename_errors = []
-        for label, label_new in renamed_tasks.items():
-            if label_new in tmp_pipeline.tasks:
+        for label, label_new in self.rename.items():
+            if label not in included_labels:
+                continue
+            if label_new in tmp_pipeline.tasks or label_new in tmp_pipeline.labeled_subsets:
                 rename_errors.append(f"Can't rename {label=} to existing {label_new=}")
             else:
-                task = tmp_pipeline.tasks.pop(label)
-                task.label = label_new
-                tmp_pipeline.tasks[label_new] = task
+                tmp_pipeline._rename_task(label, label_new)
+                included_labels.remove(label)
+                included_labels.add(label_new)
 
         if rename_errors:
             raise ValueError("; ".join(rename_errors))
 
-        # Handle labeled subsets being specified in the include or exclude
-        # list, adding or removing labels.
-        if self.include is not None:
-            subsets_in_include = tmp_pipeline.labeled_subsets.keys() & self.include
-            for label in subsets_in_include:
-                included_labels.update(tmp_pipeline.labeled_subsets[label].subset)
-
-        elif self.exclude is not None:
-            subsets_in_exclude = tmp_pipeline.labeled_subsets.keys() & self.exclude
-            for label in subsets_in_exclude:
-                included_labels.difference_update(tmp_pipeline.labeled_subsets[label].subset)
-
         if not self.importSteps:
             tmp_pipeline.steps = []
 
@@ -940,6 +919,34 @@ class PipelineIR:
             new_contracts.append(contract)
         self.contracts = new_contracts
 
+    def _rename_task(self, old: str, new: str) -> None:
+        """Change the label of a task, in the task definitions and in the
+        labeled subsets and contracts that refer to it.
+        """
+        task = self.tasks.pop(old)
+        task.label = new
+        self.tasks[new] = task
+        for labeled_subset in self.labeled_subsets.values():
+            if old in labeled_subset.subset:
+                labeled_subset.subset.remove(old)
+                labeled_subset.subset.add(new)
+        for contract in self.contracts:
+            contract.contract = re.sub(
+                rf"(?<![A-Za-z0-9_.]){re.escape(old)}(?=[.])", lambda _: new, contract.contract
+            )
+
+    def _expand_subsets(self, labels: Iterable[str]) -> set[str]:
+        """Replace any labeled subsets in an iterable of labels by the task
+        labels they contain.
+        """
+        result: set[str] = set()
+        for label in labels:
+            if label in self.labeled_subsets:
+                result.update(self.labeled_subsets[label].subset)
+            else:
+                result.add(label)
+        return result
+
     def subset_from_labels(
         self, labelSpecifier: set[str], subsetCtrl: PipelineSubsetCtrl = PipelineSubsetCtrl.DROP
     ) -> PipelineIR:
-- 
2.43.0


From 1784878bb846215c813500d52b5dfcc425539f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:32 +0000
Subject: [PATCH 35/84] fix: merged pipelines do not share mutable definitions
 with the pipelines they were merged from

---
 python/lsst/pipe/base/pipelineIR.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 72203d2..6a08719 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -809,8 +809,10 @@ class PipelineIR:
                     f"These labels appear multiple times: {duplicate_labels}"
                 )
                 raise ValueError(msg)
-            accumulate_tasks.update(tmp_IR.tasks)
-            self.contracts.extend(tmp_IR.contracts)
+            # The merged-in pipelines must not share any mutable objects with
+            # this one.
+            accumulate_tasks.update(copy.deepcopy(tmp_IR.tasks))
+            self.contracts.extend(copy.deepcopy(tmp_IR.contracts))
             # verify that tmp_IR has unique labels for named subset among
             # existing labeled subsets, and with existing task labels.
             overlapping_subsets = accumulate_labeled_subsets.keys() & tmp_IR.labeled_subsets.keys()
@@ -822,9 +824,9 @@ class PipelineIR:
                     "Labeled subset names must be unique amongst imports in both labels and "
                     f" named Subsets. Duplicate: {overlapping_subsets | task_subset_overlap}"
                 )
-            accumulate_labeled_subsets.update(tmp_IR.labeled_subsets)
-            accumulated_parameters.update(tmp_IR.parameters)
-            for tmp_step in tmp_IR.steps:
+            accumulate_labeled_subsets.update(copy.deepcopy(tmp_IR.labeled_subsets))
+            accumulated_parameters.update(copy.deepcopy(tmp_IR.parameters))
+            for tmp_step in copy.deepcopy(tmp_IR.steps):
                 existing = accumulated_steps.setdefault(tmp_step.label, tmp_step)
                 if existing != tmp_step:
                     raise ValueError(
-- 
2.43.0


From a89057a13cf9432a893c6d9dc0da7ffb858982e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:32 +0000
Subject: [PATCH 36/84] fix: selecting from a pipeline leaves the caller's
 labels alone and prunes multi-line contracts

---
 python/lsst/pipe/base/pipelineIR.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 6a08719..05faab7 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -916,7 +916,7 @@ class PipelineIR:
         for contract in self.contracts:
             # match a label that is not preceded by an ASCII identifier, or
             # is the start of a line and is followed by a dot
-            if re.match(f".*([^A-Za-z0-9_]|^){label}[.]", contract.contract):
+            if re.search(rf"([^A-Za-z0-9_]|^){re.escape(label)}[.]", contract.contract):
                 continue
             new_contracts.append(contract)
         self.contracts = new_contracts
@@ -986,15 +986,8 @@ class PipelineIR:
         """
         pipeline = copy.deepcopy(self)
 
-        # update the label specifier to expand any named subsets
-        toRemove = set()
-        toAdd = set()
-        for label in labelSpecifier:
-            if label in pipeline.labeled_subsets:
-                toRemove.add(label)
-                toAdd.update(pipeline.labeled_subsets[label].subset)
-        labelSpecifier.difference_update(toRemove)
-        labelSpecifier.update(toAdd)
+        # expand any named subsets in the label specifier
+        labelSpecifier = pipeline._expand_subsets(labelSpecifier)
         # verify all the labels are in the pipeline
         if not labelSpecifier.issubset(pipeline.tasks.keys() | pipeline.labeled_subsets):
             difference = labelSpecifier.difference(pipeline.tasks.keys())
-- 
2.43.0


From 35f165b26d845e1f3d11fa786e4b5ac1f0ba3aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:32 +0000
Subject: [PATCH 37/84] fix: empty config lists and blocks survive a YAML round
 trip

---
 python/lsst/pipe/base/pipelineIR.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/python/lsst/pipe/base/pipelineIR.py b/python/lsst/pipe/base/pipelineIR.py
index 05faab7..713d69f 100644
--- a/python/lsst/pipe/base/pipelineIR.py
+++ b/python/lsst/pipe/base/pipelineIR.py
@@ -298,10 +298,9 @@ class ConfigIR:
         """Convert to a representation used in yaml serialization."""
         accumulate = {}
         for name in ("python", "dataId", "file"):
-            # if this attribute is truthy add it to the accumulation
-            # dictionary
-            if getattr(self, name):
-                accumulate[name] = getattr(self, name)
+            # if this attribute is set add it to the accumulation dictionary
+            if (value := getattr(self, name)) is not None and value != []:
+                accumulate[name] = value
         # Add the dictionary containing the rest of the config keys to the
         # # accumulated dictionary
         accumulate.update(self.rest)
@@ -407,7 +406,7 @@ class TaskIR:
     def to_primitives(self) -> dict[str, str | list[dict]]:
         """Convert to a representation used in yaml serialization."""
         accumulate: dict[str, str | list[dict]] = {"class": self.klass}
-        if self.config:
+        if self.config is not None:
             accumulate["config"] = [c.to_primitives() for c in self.config]
         return accumulate
 
-- 
2.43.0


From ce4edb386d5a3c03c5592834abbff54902cfb36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:32 +0000
Subject: [PATCH 38/84] fix: pipeline edits copy the caller's labels, reject
 subset labels used by tasks, and drop steps with their subsets

---
 python/lsst/pipe/base/pipeline.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline.py b/python/lsst/pipe/base/pipeline.py
index 6417e6b..788decd 100644
--- a/python/lsst/pipe/base/pipeline.py
+++ b/python/lsst/pipe/base/pipeline.py
@@ -372,7 +372,7 @@ class Pipeline:
         than it should.
         """
         # Labels supplied as a set
-        if labelSpecifier.labels:
+        if labelSpecifier.labels is not None:
             labelSet = labelSpecifier.labels
         # Labels supplied as a range, first create a list of all the labels
         # in the pipeline sorted according to task dependency. Then only
@@ -631,11 +631,13 @@ class Pipeline:
             Raised if label already exists in the `Pipeline`.
             Raised if a task label is not found within the `Pipeline`.
         """
-        if label in self._pipelineIR.labeled_subsets.keys():
+        if label in self._pipelineIR.labeled_subsets.keys() or label in self._pipelineIR.tasks:
             raise ValueError(f"Subset label {label} is already found within the Pipeline")
         if extra := (taskLabels - self._pipelineIR.tasks.keys()):
             raise ValueError(f"Task labels {extra} were not found within the Pipeline")
-        self._pipelineIR.labeled_subsets[label] = pipelineIR.LabeledSubset(label, taskLabels, description)
+        self._pipelineIR.labeled_subsets[label] = pipelineIR.LabeledSubset(
+            label, set(taskLabels), description
+        )
 
     def removeLabeledSubset(self, label: str) -> None:
         """Remove a labeled subset from the `Pipeline`.
@@ -653,6 +655,8 @@ class Pipeline:
         if label not in self._pipelineIR.labeled_subsets.keys():
             raise ValueError(f"Subset label {label} was not found in the pipeline")
         self._pipelineIR.labeled_subsets.pop(label)
+        # A step cannot exist without its subset.
+        self._pipelineIR.steps = [step for step in self._pipelineIR.steps if step.label != label]
 
     def addInstrument(self, instrument: Instrument | str) -> None:
         """Add an instrument to the pipeline, or replace an instrument that is
@@ -731,9 +735,8 @@ class Pipeline:
             # in some cases (with command line-generated pipeline) tasks can
             # be defined without label which is not acceptable, use task
             # _DefaultName in that case
-            if isinstance(task, str):
-                task_class = cast(PipelineTask, doImportType(task))
-                label = task_class._DefaultName
+            task_class = cast(PipelineTask, doImportType(task) if isinstance(task, str) else task)
+            label = task_class._DefaultName
         self._pipelineIR.tasks[label] = pipelineIR.TaskIR(label, taskName)
 
     def removeTask(self, label: str) -> None:
-- 
2.43.0


From c453cc000934cdf728ced8c707cc1f1ea09c72b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:12 +0000
Subject: [PATCH 39/84] fix: graph building resolves init datasets in the order
 of the tasks' init steps

---
 python/lsst/pipe/base/quantum_graph_builder.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph_builder.py b/python/lsst/pipe/base/quantum_graph_builder.py
index 88b792f..dbd0141 100644
--- a/python/lsst/pipe/base/quantum_graph_builder.py
+++ b/python/lsst/pipe/base/quantum_graph_builder.py
@@ -70,7 +70,7 @@ from . import automatic_connection_constants as acc
 from ._status import NoWorkFound
 from ._task_metadata import TaskMetadata
 from .connections import AdjustQuantumHelper, QuantaAdjuster
-from .pipeline_graph import Edge, PipelineGraph, TaskNode
+from .pipeline_graph import Edge, NodeType, PipelineGraph, TaskNode
 from .prerequisite_helpers import PrerequisiteInfo, SkyPixBoundsBuilder, TimespanBuilder
 from .quantum_graph_skeleton import (
     DatasetKey,
@@ -478,6 +478,18 @@ class QuantumGraphBuilder(ABC):
             # Loop over tasks again to run the adjust hooks.
             for task_node in self._pipeline_graph.tasks.values():
                 self._adjust_task_quanta(task_node, full_skeleton, skipped_quanta[task_node.label])
+            # Resolve init-inputs and init-outputs, visiting tasks in the order
+            # of their init steps (which can differ from their runtime order),
+            # so an init-output is always added before it is consumed.
+            for node_type, task_label, _ in self._pipeline_graph.iter_nodes():
+                if node_type is NodeType.TASK_INIT:
+                    self._resolve_task_init(
+                        self._pipeline_graph.tasks[task_label],
+                        full_skeleton,
+                        bool(skipped_quanta[task_label]),
+                    )
+                    if not full_skeleton.get_quanta(task_label):
+                        full_skeleton.remove_task(task_label)
             # Add global init-outputs to the skeleton.
             for dataset_type in self._global_init_output_types.values():
                 dataset_key = full_skeleton.add_dataset_node(
@@ -746,7 +758,6 @@ class QuantumGraphBuilder(ABC):
         for no_work_quantum in no_work_quanta:
             skeleton.remove_quantum_node(no_work_quantum, remove_outputs=True)
         remaining_quanta = skeleton.get_quanta(task_node.label)
-        self._resolve_task_init(task_node, skeleton, bool(skipped_quanta))
         message_terms = []
         if no_work_quanta:
             message_terms.append(f"{len(no_work_quanta)} had no work to do")
@@ -766,7 +777,6 @@ class QuantumGraphBuilder(ABC):
             self.log.info(
                 "Dropping task %s because no quanta remain%s.", task_node.label, message_parenthetical
             )
-            skeleton.remove_task(task_node.label)
         if len(no_work_quanta) > len(remaining_quanta):
             only_overall_inputs = self._get_task_inputs_if_overall_only(task_node)
             self.log.warning(
-- 
2.43.0


From aec4c2a762b76a677e03124ae3b90e5a5efc3ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:10 +0000
Subject: [PATCH 40/84] fix: retained dataset type patterns match whole names

---
 python/lsst/pipe/base/quantum_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph_builder.py b/python/lsst/pipe/base/quantum_graph_builder.py
index dbd0141..3024b2a 100644
--- a/python/lsst/pipe/base/quantum_graph_builder.py
+++ b/python/lsst/pipe/base/quantum_graph_builder.py
@@ -903,7 +903,7 @@ class QuantumGraphBuilder(ABC):
                     self.log.warning("Retained dataset type %r not found in the pipeline.", expression)
                 result.add(expression)
             else:
-                matches = {n for n in all_names if expression.search(n)}
+                matches = {n for n in all_names if expression.fullmatch(n)}
                 if not matches:
                     self.log.warning(
                         "Retained dataset type pattern %r matches no dataset types.",
-- 
2.43.0


From 7131213c69800c4e544b5f8eab66b6e039a60fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:10 +0000
Subject: [PATCH 41/84] fix: drop quanta whose adjustment removes every output
 other than metadata and log

---
 python/lsst/pipe/base/quantum_graph_builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph_builder.py b/python/lsst/pipe/base/quantum_graph_builder.py
index 3024b2a..8bc7577 100644
--- a/python/lsst/pipe/base/quantum_graph_builder.py
+++ b/python/lsst/pipe/base/quantum_graph_builder.py
@@ -724,7 +724,9 @@ class QuantumGraphBuilder(ABC):
                 no_work_quanta.append(quantum_key)
                 continue
             if helper.outputs_adjusted:
-                if not any(adjusted_refs for adjusted_refs in helper.outputs.values()):
+                # The automatic metadata and log outputs don't count: they only
+                # describe the production of the others.
+                if not any(helper.outputs[edge.dataset_type_name] for edge in task_node.outputs.values()):
                     # No outputs also means we don't generate this quantum.
                     self.log.debug(
                         "No outputs predicted for quantum %s of task %s.",
-- 
2.43.0


From b811b70aa23e0c1e04447538d9feb76f2597967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:49 +0000
Subject: [PATCH 42/84] fix: bulk prerequisite search leaves connections with
 temporal bounds to per-quantum lookup

---
 python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py b/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py
index 4ab15bd..aba19ca 100644
--- a/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py
+++ b/python/lsst/pipe/base/all_dimensions_quantum_graph_builder.py
@@ -395,7 +395,7 @@ class AllDimensionsQuantumGraphBuilder(QuantumGraphBuilder):
                                 )
                                 continue
                         if finder.dataset_has_timespan:
-                            if task_prerequisite_info.bounds.spatial_connections:
+                            if task_prerequisite_info.bounds.temporal_connections:
                                 self.log.verbose(
                                     "Deferring prerequisite input %r of task %r to per-quantum processing "
                                     "(for temporal-bounds-connections handling).",
-- 
2.43.0


From eac9ce796d0731663312e0cbb89f53a601521902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:23 +0000
Subject: [PATCH 43/84] fix: keep tasks without connections when building or
 loading a quantum graph

---
 python/lsst/pipe/base/graph/_versionDeserializers.py | 2 ++
 python/lsst/pipe/base/graph/graph.py                 | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/python/lsst/pipe/base/graph/_versionDeserializers.py b/python/lsst/pipe/base/graph/_versionDeserializers.py
index 1dd9e81..bcc8c6f 100644
--- a/python/lsst/pipe/base/graph/_versionDeserializers.py
+++ b/python/lsst/pipe/base/graph/_versionDeserializers.py
@@ -653,6 +653,8 @@ class DeserializerV3(DeserializerBase):
         newGraph._count = len(nodes)
         newGraph._taskToQuantumNode = dict(taskToQuantumNode.items())
         newGraph._taskGraph = datasetDict.makeNetworkXGraph()
+        # A task with no inputs or outputs does not appear in any relation.
+        newGraph._taskGraph.add_nodes_from(newGraph._taskToQuantumNode)
         newGraph._connectedQuanta = graph
         newGraph._initInputRefs = initInputRefs
         newGraph._initOutputRefs = initOutputRefs
diff --git a/python/lsst/pipe/base/graph/graph.py b/python/lsst/pipe/base/graph/graph.py
index 133cbf2..da927d9 100644
--- a/python/lsst/pipe/base/graph/graph.py
+++ b/python/lsst/pipe/base/graph/graph.py
@@ -292,6 +292,8 @@ class QuantumGraph:
 
         # Graph of task relations, used in various methods
         self._taskGraph = self._datasetDict.makeNetworkXGraph()
+        # A task with no inputs or outputs does not appear in any relation.
+        self._taskGraph.add_nodes_from(self._taskToQuantumNode)
 
         # convert default dict into a regular to prevent accidental key
         # insertion
-- 
2.43.0


From 8ab76a48901fa222c0ad1662a5126ba885838b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:23 +0000
Subject: [PATCH 44/84] fix: accept single-pass iterators in
 QuantumGraph.subset

---
 python/lsst/pipe/base/graph/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/lsst/pipe/base/graph/graph.py b/python/lsst/pipe/base/graph/graph.py
index da927d9..a117386 100644
--- a/python/lsst/pipe/base/graph/graph.py
+++ b/python/lsst/pipe/base/graph/graph.py
@@ -665,6 +665,9 @@ class QuantumGraph:
         """
         if not isinstance(nodes, Iterable):
             nodes = (nodes,)
+        else:
+            # Guard against single-pass iterators.
+            nodes = tuple(nodes)
         quantumSubgraph = self._connectedQuanta.subgraph(nodes).nodes
         quantumMap = defaultdict(set)
 
-- 
2.43.0


From 95d1c8d32ba1406e3385b0679a44e8ae12da3be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:24 +0000
Subject: [PATCH 45/84] fix: keep init-inputs and init-outputs in
 QuantumGraph.subset

---
 python/lsst/pipe/base/graph/graph.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/graph/graph.py b/python/lsst/pipe/base/graph/graph.py
index a117386..cb6fcc5 100644
--- a/python/lsst/pipe/base/graph/graph.py
+++ b/python/lsst/pipe/base/graph/graph.py
@@ -695,13 +695,22 @@ class QuantumGraph:
         quantumDict: dict[TaskDef, set[Quantum]] = dict(quantumMap.items())
         # Create an empty graph, and then populate it with custom mapping
         newInst = type(self)({}, universe=self._universe)
-        # TODO: Do we need to copy initInputs/initOutputs?
         newInst._buildGraphs(
             quantumDict,
             _quantumToNodeId={n.quantum: n.nodeId for n in nodes},
             _buildId=self._buildId,
             metadata=self._metadata,
             universe=self._universe,
+            initInputs={
+                taskDef: self._initInputRefs[taskDef.label]
+                for taskDef in quantumDict
+                if taskDef.label in self._initInputRefs
+            },
+            initOutputs={
+                taskDef: self._initOutputRefs[taskDef.label]
+                for taskDef in quantumDict
+                if taskDef.label in self._initOutputRefs
+            },
             globalInitOutputs=self._globalInitOutputRefs,
             registryDatasetTypes=registryDatasetTypes,
         )
-- 
2.43.0


From 0e7267b9983416ce2ee873f156da89956c144e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:24 +0000
Subject: [PATCH 46/84] fix: restore all state when unpickling a quantum graph

---
 python/lsst/pipe/base/graph/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/pipe/base/graph/graph.py b/python/lsst/pipe/base/graph/graph.py
index cb6fcc5..116c8e2 100644
--- a/python/lsst/pipe/base/graph/graph.py
+++ b/python/lsst/pipe/base/graph/graph.py
@@ -1428,8 +1428,12 @@ class QuantumGraph:
         self._taskToQuantumNode = qgraph._taskToQuantumNode
         self._taskGraph = qgraph._taskGraph
         self._connectedQuanta = qgraph._connectedQuanta
+        self._universe = qgraph._universe
         self._initInputRefs = qgraph._initInputRefs
         self._initOutputRefs = qgraph._initOutputRefs
+        self._globalInitOutputRefs = qgraph._globalInitOutputRefs
+        self._registryDatasetTypes = qgraph._registryDatasetTypes
+        self._pipeline_graph = None
 
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, QuantumGraph):
-- 
2.43.0


From efb0a814580dc7a71a6ce838855e5ca262944e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:24 +0000
Subject: [PATCH 47/84] fix: count datasets, not dataset types, in the quantum
 graph summary

---
 python/lsst/pipe/base/graph/graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/lsst/pipe/base/graph/graph.py b/python/lsst/pipe/base/graph/graph.py
index 116c8e2..3838de7 100644
--- a/python/lsst/pipe/base/graph/graph.py
+++ b/python/lsst/pipe/base/graph/graph.py
@@ -1476,11 +1476,11 @@ class QuantumGraph:
             )
             qts.numQuanta += 1
 
-            for k in q.quantum.inputs.keys():
-                qts.numInputs[k.name] += 1
+            for k, refs in q.quantum.inputs.items():
+                qts.numInputs[k.name] += len(refs)
 
-            for k in q.quantum.outputs.keys():
-                qts.numOutputs[k.name] += 1
+            for k, refs in q.quantum.outputs.items():
+                qts.numOutputs[k.name] += len(refs)
 
         return summary
 
-- 
2.43.0


From 738571e2e2138b020d622420ef2ea179483c278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:40 +0000
Subject: [PATCH 48/84] fix: construct tasks in the order of their init nodes

---
 .../pipe/base/pipeline_graph/_pipeline_graph.py     | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index fb29107..d7452c5 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -1878,10 +1878,13 @@ class PipelineGraph:
         empty_data_id = DataCoordinate.make_empty(self.universe)
         labels = set(labels) if labels is not None else self.tasks.keys()
         handles: dict[str, InMemoryDatasetHandle] = {}
-        tasks: list[PipelineTask] = []
-        for task_node in self.tasks.values():
-            if task_node.label not in labels:
+        tasks: dict[str, PipelineTask] = {}
+        # Tasks need to be constructed in the order of their init nodes, which
+        # is not necessarily the order of ``self.tasks``.
+        for node_type, task_label, _ in self.iter_nodes():
+            if node_type is not NodeType.TASK_INIT or task_label not in labels:
                 continue
+            task_node = self.tasks[task_label]
             task_init_inputs: dict[str, Any] = {}
             for read_edge in task_node.init.inputs.values():
                 if (handle := handles.get(read_edge.dataset_type_name)) is not None:
@@ -1920,7 +1923,7 @@ class PipelineGraph:
             task = task_node.task_class(
                 config=task_node.config, initInputs=task_init_inputs, name=task_node.label
             )
-            tasks.append(task)
+            tasks[task_label] = task
             for write_edge in task_node.init.outputs.values():
                 dataset_type_node = self.dataset_types[write_edge.parent_dataset_type_name]
                 obj = getattr(task, write_edge.connection_name)
@@ -1943,7 +1946,7 @@ class PipelineGraph:
                         storageClass=dataset_type_node.storage_class,
                         copy=(n_consumers > 1),
                     )
-        return tasks
+        return [tasks[task_label] for task_label in self.tasks if task_label in tasks]
 
     def write_init_outputs(self, butler: Butler) -> None:
         """Write the init-output datasets for all tasks in the pipeline graph.
-- 
2.43.0


From 745b2c5b092e0a2c68e62c0e218ab9eee6418fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:41 +0000
Subject: [PATCH 49/84] fix: do not share mutable init datasets between tasks
 and writes

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index d7452c5..f9de794 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -1919,6 +1919,7 @@ class PipelineGraph:
                             dataId=empty_data_id,
                             copy=True,
                         )
+                        obj = handles[read_edge.dataset_type_name].get()
                 task_init_inputs[read_edge.connection_name] = obj
             task = task_node.task_class(
                 config=task_node.config, initInputs=task_init_inputs, name=task_node.label
@@ -1944,7 +1945,9 @@ class PipelineGraph:
                         dataset_type_node.storage_class.coerce_type(obj),
                         dataId=empty_data_id,
                         storageClass=dataset_type_node.storage_class,
-                        copy=(n_consumers > 1),
+                        # Consumers may modify their init-inputs, and that
+                        # should not affect each other or what gets written.
+                        copy=(n_consumers > 1 or init_outputs is not None),
                     )
         return [tasks[task_label] for task_label in self.tasks if task_label in tasks]
 
-- 
2.43.0


From 70018b992bdbd5fbac54fb130188591340121c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:41 +0000
Subject: [PATCH 50/84] fix: look up existing init-outputs by name when writing
 them

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index f9de794..12da307 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -1975,7 +1975,7 @@ class PipelineGraph:
         found_refs: dict[str, DatasetRef] = {}
         to_put: list[tuple[Any, DatasetType]] = []
         for obj, dataset_type in init_outputs:
-            if (ref := butler.find_dataset(dataset_type, collections=butler.run)) is not None:
+            if (ref := butler.find_dataset(dataset_type.name, collections=butler.run)) is not None:
                 found_refs[dataset_type.name] = ref
             else:
                 to_put.append((obj, dataset_type))
-- 
2.43.0


From a2955c261a9c56eed7015331bbf68d43c5706d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:41 +0000
Subject: [PATCH 51/84] fix: only compare and replace packages in the butler's
 own output run

---
 python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
index 12da307..78dbf90 100644
--- a/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
+++ b/python/lsst/pipe/base/pipeline_graph/_pipeline_graph.py
@@ -2058,7 +2058,7 @@ class PipelineGraph:
             with the current packages.
         """
         new_packages = Packages.fromSystem()
-        if (ref := butler.find_dataset(self.packages_dataset_type)) is not None:
+        if (ref := butler.find_dataset(self.packages_dataset_type, collections=butler.run)) is not None:
             packages = butler.get(ref)
             if compare_packages(packages, new_packages):
                 # have to remove existing dataset first; butler has no
-- 
2.43.0


From aa4d118e4e95dc7cb3bf3c9ec2554442edbb8940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:41 +0000
Subject: [PATCH 52/84] fix: position zip member streams correctly when several
 are open

---
 .../pipe/base/quantum_graph/_multiblock.py    | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_multiblock.py b/python/lsst/pipe/base/quantum_graph/_multiblock.py
index 8223729..1c5f127 100644
--- a/python/lsst/pipe/base/quantum_graph/_multiblock.py
+++ b/python/lsst/pipe/base/quantum_graph/_multiblock.py
@@ -288,6 +288,28 @@ class AddressPage:
         return self.begin + self.n_rows
 
 
+def _seek(stream: IO[bytes], offset: int) -> None:
+    """Seek to an absolute position in a stream that may be a zip member.
+
+    Parameters
+    ----------
+    stream : `typing.IO` [ `bytes` ]
+        File-like object to reposition.
+    offset : `int`
+        Position relative to the start of the stream.
+
+    Notes
+    -----
+    In some Python versions a forward seek in an uncompressed zip member moves
+    the file handle shared by all open members of the archive relative to its
+    current position, even if another member was the last one to use it, so
+    that position needs to be restored first.
+    """
+    if (shared_file := getattr(stream, "_fileobj", None)) is not None:
+        shared_file.seek(shared_file.tell())
+    stream.seek(offset)
+
+
 @dataclasses.dataclass
 class PageBounds:
     """A page index and the UUID interval that page covers."""
@@ -497,7 +519,7 @@ class AddressReader:
         else:
             return self.rows
         # Read the entire rest of the file into memory.
-        self.stream.seek(page.file_offset)
+        _seek(self.stream, page.file_offset)
         data = self.stream.read()
         buffer = BytesIO(data)
         # Shortcut out if we've already read everything, but don't bother
@@ -552,7 +574,7 @@ class AddressReader:
         if page.read:
             return False
         if page_stream is None:
-            self.stream.seek(page.file_offset)
+            _seek(self.stream, page.file_offset)
             page_stream = BytesIO(self.stream.read(page.n_rows * self.row_size))
         row = self._read_row(page_stream)
         uuid_int_begin = row.key.int
@@ -795,7 +817,7 @@ class MultiblockReader:
         """
         if not address.size:
             return None
-        self.stream.seek(address.offset)
+        _seek(self.stream, address.offset)
         data = self.stream.read(address.size)
         if len(data) != address.size:
             raise InvalidQuantumGraphFileError("Multi-block file unexpectedly truncated.")
-- 
2.43.0


From f77e468e088c326fcce99df2d00421c9a3c6e58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:41 +0000
Subject: [PATCH 53/84] fix: keep inputs that are not graph outputs where they
 are when changing the output run

---
 python/lsst/pipe/base/quantum_graph/_predicted.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_predicted.py b/python/lsst/pipe/base/quantum_graph/_predicted.py
index f2b3f36..5a6968f 100644
--- a/python/lsst/pipe/base/quantum_graph/_predicted.py
+++ b/python/lsst/pipe/base/quantum_graph/_predicted.py
@@ -1741,15 +1741,12 @@ class PredictedQuantumGraphComponents:
                 output_dataset.run = output_run
         for quantum_datasets in itertools.chain(self.init_quanta.root, self.quantum_datasets.values()):
             for input_dataset in itertools.chain.from_iterable(quantum_datasets.inputs.values()):
-                if input_dataset.run == self.header.output_run:
+                # A dataset isn't necessarily an output of the graph just because
+                # it's in the output run; the graph could have been built with
+                # extend_run=True, and then it stays where it is.
+                if (new_dataset_id := uuid_map.get(input_dataset.dataset_id)) is not None:
                     input_dataset.run = output_run
-                    input_dataset.dataset_id = uuid_map.get(
-                        input_dataset.dataset_id,
-                        # This dataset isn't necessary an output of the graph
-                        # just because it's in the output run; the graph could
-                        # have been built with extend_run=True.
-                        input_dataset.dataset_id,
-                    )
+                    input_dataset.dataset_id = new_dataset_id
         # Update the keys of the quantum_datasets dict.
         self.quantum_datasets = {qd.quantum_id: qd for qd in self.quantum_datasets.values()}
         # Since the UUIDs have changed, the thin graph needs to be rewritten.
-- 
2.43.0


From d71b10311ffad7e198e9d17aeaaaf1e51670a5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:41 +0000
Subject: [PATCH 54/84] fix: give a predicted graph with a new output run a new
 provenance dataset ID

---
 python/lsst/pipe/base/quantum_graph/_predicted.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/lsst/pipe/base/quantum_graph/_predicted.py b/python/lsst/pipe/base/quantum_graph/_predicted.py
index 5a6968f..f6719e4 100644
--- a/python/lsst/pipe/base/quantum_graph/_predicted.py
+++ b/python/lsst/pipe/base/quantum_graph/_predicted.py
@@ -1753,6 +1753,7 @@ class PredictedQuantumGraphComponents:
         self.set_thin_graph()
         # Update the header last, since we use it above to get the old run.
         self.header.output_run = output_run
+        self.header.provenance_dataset_id = generate_uuidv7()
 
     def assemble(self) -> PredictedQuantumGraph:
         """Construct a `PredictedQuantumGraph` from these components."""
-- 
2.43.0


From 35b4292cd32db1b083c7567ad4d0eba6c4fa8773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:41 +0000
Subject: [PATCH 55/84] fix: refuse to write a predicted graph whose quanta
 were only partially read

---
 python/lsst/pipe/base/quantum_graph/_predicted.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/pipe/base/quantum_graph/_predicted.py b/python/lsst/pipe/base/quantum_graph/_predicted.py
index f6719e4..ef2505b 100644
--- a/python/lsst/pipe/base/quantum_graph/_predicted.py
+++ b/python/lsst/pipe/base/quantum_graph/_predicted.py
@@ -1876,6 +1876,10 @@ class PredictedQuantumGraphComponents:
             raise RuntimeError(
                 "Cannot save graph after partial read of quanta: thin graph is inconsistent with header."
             )
+        if self.header.n_quanta != len(self.quantum_datasets):
+            raise RuntimeError(
+                "Cannot save graph after partial read of quanta: quantum datasets are inconsistent with header."
+            )
         # Ensure we record the actual version we're about to write, in case
         # we're rewriting an old graph in a new format.
         self.header.version = FORMAT_VERSION
-- 
2.43.0


From 401f4936ec0350173739bc66b425aaee9f429840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:41 +0000
Subject: [PATCH 56/84] fix: ignore init quantum IDs when reading quantum
 datasets, as documented

---
 python/lsst/pipe/base/quantum_graph/_predicted.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_predicted.py b/python/lsst/pipe/base/quantum_graph/_predicted.py
index ef2505b..47ed84f 100644
--- a/python/lsst/pipe/base/quantum_graph/_predicted.py
+++ b/python/lsst/pipe/base/quantum_graph/_predicted.py
@@ -2085,7 +2085,16 @@ class PredictedQuantumGraphReader(BaseQuantumGraphReader):
             for quantum_id in quantum_ids:
                 if quantum_id in self.components.quantum_datasets:
                     continue
-                address_row = self.address_reader.find(quantum_id)
+                try:
+                    address_row = self.address_reader.find(quantum_id)
+                except LookupError:
+                    # Init quanta are not in the address file.
+                    init_quanta = self.components.init_quanta.root
+                    if not init_quanta:
+                        init_quanta = self._read_single_block("init_quanta", PredictedInitQuantaModel).root
+                    if any(init_quantum.quantum_id == quantum_id for init_quantum in init_quanta):
+                        continue
+                    raise
                 quantum_datasets = mb_reader.read_model(
                     address_row.addresses[0], PredictedQuantumDatasetsModel, self.decompressor
                 )
-- 
2.43.0


From 49912e3f7d1f57be824b1ca8e2b1a54915a136ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:22 +0000
Subject: [PATCH 57/84] fix: rerunning an interrupted aggregation must still
 add inputs to a new output chain

---
 .../pipe/base/quantum_graph/aggregator/_ingester.py    | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/aggregator/_ingester.py b/python/lsst/pipe/base/quantum_graph/aggregator/_ingester.py
index 1faf59a..9b43383 100644
--- a/python/lsst/pipe/base/quantum_graph/aggregator/_ingester.py
+++ b/python/lsst/pipe/base/quantum_graph/aggregator/_ingester.py
@@ -315,9 +315,13 @@ class Ingester(AbstractContextManager):
             self.predicted.header.output,
             self.predicted.header.output_run,
         )
-        if self.butler.collections.register(self.predicted.header.output, CollectionType.CHAINED):
-            # Chain is new; need to add inputs, but we want to flatten them
-            # first.
+        if (
+            self.butler.collections.register(self.predicted.header.output, CollectionType.CHAINED)
+            or not self.butler.collections.get_info(self.predicted.header.output).children
+        ):
+            # Chain is new (or was left empty when an earlier invocation was
+            # interrupted right here); need to add inputs, but we want to
+            # flatten them first.
             if self.predicted.header.inputs:
                 flattened = self.butler.collections.query(self.predicted.header.inputs, flatten_chains=True)
                 self.butler.collections.extend_chain(self.predicted.header.output, flattened)
-- 
2.43.0


From 2122f3459e1078fbd82f9eaf8e88022ab419a5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:22 +0000
Subject: [PATCH 58/84] fix: let a defensive dry-run aggregation start before
 the output run exists

---
 .../base/quantum_graph/aggregator/_ingester.py     | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/aggregator/_ingester.py b/python/lsst/pipe/base/quantum_graph/aggregator/_ingester.py
index 9b43383..967942e 100644
--- a/python/lsst/pipe/base/quantum_graph/aggregator/_ingester.py
+++ b/python/lsst/pipe/base/quantum_graph/aggregator/_ingester.py
@@ -39,7 +39,7 @@ from typing import Any, Literal, Self
 
 from lsst.daf.butler import Butler, CollectionType, DatasetRef, DimensionGroup
 from lsst.daf.butler.datastore.record_data import DatastoreRecordData
-from lsst.daf.butler.registry import ConflictingDefinitionError
+from lsst.daf.butler.registry import ConflictingDefinitionError, MissingCollectionError
 
 from ...pipeline_graph import TaskImportMode
 from .._common import DatastoreName
@@ -247,9 +247,15 @@ class Ingester(AbstractContextManager):
         RUN collection, and filter and pending datasets accordingly.
         """
         self.comms.log.info("Fetching all UUIDs in output collection %r.", self.predicted.header.output_run)
-        self.already_ingested = set(
-            self.butler.registry._fetch_run_dataset_ids(self.predicted.header.output_run)
-        )
+        try:
+            self.already_ingested = set(
+                self.butler.registry._fetch_run_dataset_ids(self.predicted.header.output_run)
+            )
+        except MissingCollectionError:
+            # A dry run does not register the output RUN collection.
+            if not self.comms.config.dry_run:
+                raise
+            self.already_ingested = set()
         kept: set[uuid.UUID] = set()
         for dimensions, refs in self.refs_pending.items():
             filtered_refs: list[DatasetRef] = []
-- 
2.43.0


From d56b2c69896f8c20ec25d4ff5661ab3e60ffb469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:22 +0000
Subject: [PATCH 59/84] fix: report quanta with neither logs nor metadata as
 UNKNOWN, as documented

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index e7a23e5..1932e5d 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -2410,8 +2410,6 @@ class ProvenanceQuantumScanModels:
                 # at a very unlucky time (in between those two writes), or
                 # something even weirder happened.
                 self.attempts[-1].status = QuantumAttemptStatus.ABORTED_SUCCESS
-            else:
-                self.attempts[-1].status = QuantumAttemptStatus.FAILED
         if len(self.metadata.attempts) < len(self.attempts):
             # Metadata missing usually just means a failure.  In any case, the
             # status will already be correct, either because it was set to a
-- 
2.43.0


From ee00f6a583cfaeb253d627839cbb081519b6c27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:22 +0000
Subject: [PATCH 60/84] fix: do not fail in-process provenance when a quantum
 fails before its task runs

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index 1932e5d..4f37e1a 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -2113,6 +2113,10 @@ class ProvenanceQuantumGraphWriter:
         provenance_models = ProvenanceQuantumScanModels.from_metadata_and_logs(
             predicted_quantum, metadata, logs, incomplete=False
         )
+        # If neither the metadata nor the logs say what was written, execution
+        # failed before the task could write anything.
+        for predicted_output in itertools.chain.from_iterable(predicted_quantum.outputs.values()):
+            provenance_models.output_existence.setdefault(predicted_output.dataset_id, False)
         scan_data = provenance_models.to_scan_data(predicted_quantum, compressor=self.compressor)
         self.write_scan_data(scan_data)
 
-- 
2.43.0


From 6fef1579b8ab1a2ceb4dbf6ebc62aeade2a1e265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:22 +0000
Subject: [PATCH 61/84] fix: trust stored dataset records over what quanta
 imply when reading provenance

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index 4f37e1a..457b630 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -979,8 +979,9 @@ class ProvenanceInitQuantumModel(pydantic.BaseModel):
                 dataset_type_name=write_edge.dataset_type_name,
                 pipeline_node=graph.pipeline_graph.dataset_types[write_edge.dataset_type_name],
                 run=graph.header.output_run,
-                produced=True,
             )
+            # The dataset's own record knows better, if it has been read.
+            graph._bipartite_xgraph.nodes[dataset_id].setdefault("produced", True)
             graph._datasets_by_type[write_edge.dataset_type_name][empty_data_id] = dataset_id
             graph._bipartite_xgraph.add_edge(
                 self.quantum_id,
@@ -1705,6 +1706,11 @@ class ProvenanceQuantumGraphReader(BaseQuantumGraphReader):
     graph: ProvenanceQuantumGraph = dataclasses.field(init=False)
     """Loaded provenance graph, populated in place as components are read."""
 
+    _nodes_read: set[uuid.UUID] = dataclasses.field(init=False, default_factory=set)
+    """IDs of the quanta and datasets whose own records have been read (as
+    opposed to datasets added only on behalf of the quantum that wrote them).
+    """
+
     @classmethod
     @contextmanager
     def open(
@@ -1812,16 +1818,17 @@ class ProvenanceQuantumGraphReader(BaseQuantumGraphReader):
                 int_size=self.header.int_size,
                 page_size=self.page_size,
             ):
-                if "pipeline_node" in self.graph._bipartite_xgraph.nodes.get(node.node_id, {}):
+                if node.node_id in self._nodes_read:
                     # Use the old node to reduce memory usage (since it might
                     # also have other outstanding reference holders).
                     continue
                 node._add_to_graph(self.graph)
+                self._nodes_read.add(node.node_id)
         else:
             with MultiblockReader.open_in_zip(self.zf, mb_name, int_size=self.header.int_size) as mb_reader:
                 for node_id_or_index in nodes:
                     address_row = self.address_reader.find(node_id_or_index)
-                    if "pipeline_node" in self.graph._bipartite_xgraph.nodes.get(address_row.key, {}):
+                    if address_row.key in self._nodes_read:
                         # Use the old node to reduce memory usage (since it
                         # might also have other outstanding reference holders).
                         continue
@@ -1830,6 +1837,7 @@ class ProvenanceQuantumGraphReader(BaseQuantumGraphReader):
                     )
                     if node is not None:
                         node._add_to_graph(self.graph)
+                        self._nodes_read.add(node.node_id)
 
     def fetch_logs(self, nodes: Iterable[uuid.UUID]) -> dict[uuid.UUID, list[ButlerLogRecords | None]]:
         """Fetch log datasets.
-- 
2.43.0


From 199afe5b693146f3e5a36f4c22de5070e53a97c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:23 +0000
Subject: [PATCH 62/84] fix: keep special init quanta out of the provenance
 quantum-only graph

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index 457b630..afda858 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -322,11 +322,14 @@ class ProvenanceDatasetModel(PredictedDatasetModel):
             run=self.run,
             produced=self.produced,
         )
+        # Special init quanta do not appear in the quantum-only graph.
+        producing_edge = dataset_type_node.producing_edge
+        is_init_output = producing_edge is not None and producing_edge.is_init
         if self.producer is not None:
             graph._bipartite_xgraph.add_edge(self.producer, self.dataset_id)
         for consumer_id in self.consumers:
             graph._bipartite_xgraph.add_edge(self.dataset_id, consumer_id)
-            if self.producer is not None:
+            if self.producer is not None and not is_init_output:
                 graph._quantum_only_xgraph.add_edge(self.producer, consumer_id)
         graph._datasets_by_type[self.dataset_type_name][data_id] = self.dataset_id
 
-- 
2.43.0


From 37f8fe1455d59135a89ccf9ebc8b17387ef4949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:33 +0000
Subject: [PATCH 63/84] fix: do not report a worker that has just finished
 aggregating as dead

---
 .../lsst/pipe/base/quantum_graph/aggregator/_communicators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py b/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
index 7b3617f..7fa04d6 100644
--- a/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
+++ b/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
@@ -438,6 +438,10 @@ class SupervisorCommunicator:
             # that should be alive actually are.
             for name, worker in self.workers.items():
                 if not worker.successful and not worker.is_alive():
+                    # The worker may have sent its last reports and finished
+                    # since the timeout.
+                    if (report := self._reports.get(block=False)) is not None:
+                        return report
                     # Delete this worker from the list of workers so we don't
                     # hit this condition again when we try to handle the
                     # exception we raise.
-- 
2.43.0


From b9caab07091cf2736eff92d71b855b19322e3019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:33 +0000
Subject: [PATCH 64/84] fix: wait for the other aggregator workers when one
 fails after scanning

---
 .../pipe/base/quantum_graph/aggregator/_communicators.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py b/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
index 7fa04d6..9ce30d0 100644
--- a/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
+++ b/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
@@ -361,7 +361,14 @@ class SupervisorCommunicator:
             if exc_type is not FatalWorkerError:
                 self.progress.log.critical("Caught %s; attempting to shut down cleanly.", exc_type)
         try:
-            self._wait_for_workers_to_finish(already_failing=exc_type is not None)
+            try:
+                self._wait_for_workers_to_finish(already_failing=exc_type is not None)
+            except FatalWorkerError:
+                # A worker failed after scanning was complete; do not leave the
+                # others running behind.
+                self._cancel_event.set()
+                self._wait_for_workers_to_finish(already_failing=True)
+                raise
         except _WorkerCommunicationError as err:
             self.progress.log.critical(
                 "Worker '%s' was terminated before it could finish (after scanning).", err
-- 
2.43.0


From 315d5071dcb9aa7a85d866b8e46e35f1a9aa59f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:33 +0000
Subject: [PATCH 65/84] fix: do not hang when an aggregator scanner cannot be
 started

---
 .../pipe/base/quantum_graph/aggregator/_communicators.py   | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py b/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
index 9ce30d0..460dc98 100644
--- a/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
+++ b/python/lsst/pipe/base/quantum_graph/aggregator/_communicators.py
@@ -277,6 +277,13 @@ class SupervisorCommunicator:
         if not self._sent_no_more_scan_requests:
             for _ in range(self.n_scanners):
                 self._scan_requests.put(_Sentinel.NO_MORE_SCAN_REQUESTS)
+            # Speak for any scanners that could not even be started, so nothing
+            # waits for them.
+            for scanner_id in range(self.n_scanners):
+                if ScannerCommunicator.get_worker_name(scanner_id) not in self.workers:
+                    self._ingest_requests.put(_Sentinel.NO_MORE_INGEST_REQUESTS)
+                    if self._write_requests is not None:
+                        self._write_requests.put(_Sentinel.NO_MORE_WRITE_REQUESTS)
             self._sent_no_more_scan_requests = True
         if not self._sent_no_more_write_requests and self._write_requests is not None:
             self._write_requests.put(_Sentinel.NO_MORE_WRITE_REQUESTS)
-- 
2.43.0


From 09d8b32c76f0c68b5f98d8fa29ccdc7c93c8bc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:11 +0000
Subject: [PATCH 66/84] fix: do not fail on visible datasets whose run is not
 in any given graph

---
 python/lsst/pipe/base/quantum_provenance_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_provenance_graph.py b/python/lsst/pipe/base/quantum_provenance_graph.py
index 8e2bd57..828d469 100644
--- a/python/lsst/pipe/base/quantum_provenance_graph.py
+++ b/python/lsst/pipe/base/quantum_provenance_graph.py
@@ -1886,13 +1886,13 @@ class QuantumProvenanceGraph:
             for n, ref in enumerate(refs):
                 dataset_key = DatasetKey(ref.datasetType.name, ref.dataId.required_values)
                 try:
-                    dataset_info = self.get_dataset_info(dataset_key)
+                    dataset_run = self.get_dataset_info(dataset_key)["runs"][ref.run]
                 # Ignore if we don't actually have the dataset in any of the
                 # graphs given.
                 except KeyError:
                     continue
                 # queryable datasets are `visible`.
-                dataset_info["runs"][ref.run].visible = True
+                dataset_run.visible = True
                 status_log.log(
                     "Updated visibility for %s of %s datasets of type %s of %s.",
                     n + 1,
-- 
2.43.0


From d2570d093a1ee82d34878d43b0b96b8af6600635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:11 +0000
Subject: [PATCH 67/84] fix: allow outputs predicted for another run when
 reading caveats lazily

---
 python/lsst/pipe/base/quantum_provenance_graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_provenance_graph.py b/python/lsst/pipe/base/quantum_provenance_graph.py
index 828d469..e09c5a5 100644
--- a/python/lsst/pipe/base/quantum_provenance_graph.py
+++ b/python/lsst/pipe/base/quantum_provenance_graph.py
@@ -1799,8 +1799,10 @@ class QuantumProvenanceGraph:
             Current list of futures. Will be modified.
         """
         if read_caveats == "lazy" and all(
-            self.get_dataset_info(dataset_key)["runs"][output_run].produced
+            dataset_run.produced
             for dataset_key in self._xgraph.successors(quantum_key)
+            # Outputs may have been predicted for other runs only.
+            if (dataset_run := self.get_dataset_info(dataset_key)["runs"].get(output_run)) is not None
         ):
             return
         quantum_info = self.get_quantum_info(quantum_key)
-- 
2.43.0


From 7fc06db2b2fb17e6b1455c2635fab8ff1e8113d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:11 +0000
Subject: [PATCH 68/84] fix: list unsuccessful datasets in bad dataset tables

---
 python/lsst/pipe/base/quantum_provenance_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_provenance_graph.py b/python/lsst/pipe/base/quantum_provenance_graph.py
index e09c5a5..1dfd58d 100644
--- a/python/lsst/pipe/base/quantum_provenance_graph.py
+++ b/python/lsst/pipe/base/quantum_provenance_graph.py
@@ -1110,7 +1110,7 @@ class Summary(pydantic.BaseModel):
         for dataset_type_name, dataset_type_summary in self.datasets.items():
             rows = []
             for data_id in dataset_type_summary.unsuccessful_datasets:
-                row = {"Status": "UNSUCCESSFUL", **data_id, "Message": ""}
+                rows.append({"Status": "UNSUCCESSFUL", **data_id, "Message": ""})
             for cursed_dataset_summary in dataset_type_summary.cursed_datasets:
                 row = {"Status": "CURSED", **cursed_dataset_summary.data_id}
                 row["Message"] = (
-- 
2.43.0


From 579b3cd39e10646f0a56460855f3a6270712384b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:11 +0000
Subject: [PATCH 69/84] fix: ingest graphs into runs whose name contains a
 dataset type name

---
 python/lsst/pipe/base/quantum_graph/ingest_graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_graph/ingest_graph.py b/python/lsst/pipe/base/quantum_graph/ingest_graph.py
index 074f216..1490e61 100644
--- a/python/lsst/pipe/base/quantum_graph/ingest_graph.py
+++ b/python/lsst/pipe/base/quantum_graph/ingest_graph.py
@@ -146,6 +146,9 @@ def ingest_graph(
             )
             n_deleted: int = 0
             for top in sorted(helper.directories_to_delete):
+                if not os.path.isdir(top):
+                    # Already deleted as a subdirectory of an earlier one.
+                    continue
                 nonempty: set[str] = set()
                 for root, dirnames, filenames in os.walk(top, topdown=False):
                     if filenames:
@@ -162,7 +165,7 @@ def ingest_graph(
                         top,
                     )
                 else:
-                    os.rmdir(root)
+                    os.rmdir(top)
                     n_deleted += 1
             _LOG.info("Deleted %d directories.", n_deleted)
 
-- 
2.43.0


From 9786b217aaf766013e4fe74549ef7e72852148d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:11 +0000
Subject: [PATCH 70/84] fix: include successful quanta in reports selected by
 caveats

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index afda858..b5defa5 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -1643,6 +1643,9 @@ class ProvenanceQuantumGraph(BaseQuantumGraph):
         if TYPE_CHECKING:
             assert json_obj
 
+        if with_caveats is not None:
+            also = {QuantumAttemptStatus.SUCCESSFUL, *ensure_iterable(also)}
+
         if status_report_file is not None or data_id_table_dir is not None:
             status_report = self.make_status_report(
                 states, also=also, with_caveats=with_caveats, data_id_table_dir=data_id_table_dir
-- 
2.43.0


From e3c5bc6f23ed1644b6014763a011605b3bc11d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:11 +0000
Subject: [PATCH 71/84] fix: keep string data ID values in resource usage
 tables

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index b5defa5..f15f180 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -1458,6 +1458,10 @@ class ProvenanceQuantumGraph(BaseQuantumGraph):
             dimensions = self.pipeline_graph.tasks[task_label].dimensions
             for dimension_name in dimensions.data_coordinate_keys:
                 dtype = np.dtype(self.pipeline_graph.universe.dimensions[dimension_name].primary_key.pytype)
+                if dtype.kind == "U":
+                    # A string column needs an explicit size.
+                    max_len = max((len(data_id[dimension_name]) for data_id in quanta_for_task), default=1)
+                    dtype = np.dtype((np.str_, max_len))
                 dtype_terms.append((dimension_name, dtype))
         fields = QuantumResourceUsage.get_numpy_fields()
         dtype_terms.extend(fields.items())
-- 
2.43.0


From bcb2675fa204ed110319999eb725f9b0038291ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:11 +0000
Subject: [PATCH 72/84] fix: honour requested quanta and datasets when loading
 provenance from a file

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index f15f180..2f1ac9e 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -1206,14 +1206,8 @@ class ProvenanceQuantumGraph(BaseQuantumGraph):
                 )
                 raise
             with exit_stack:
-                if quanta is None:
-                    reader.read_quanta()
-                elif not quanta:
-                    reader.read_quanta(quanta)
-                if datasets is None:
-                    reader.read_datasets()
-                elif not datasets:
-                    reader.read_datasets(datasets)
+                reader.read_quanta(quanta)
+                reader.read_datasets(datasets)
                 yield reader.graph, None
 
     @property
-- 
2.43.0


From eebe179c90abb15a9857a9db35925a9ed0f24c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:11 +0000
Subject: [PATCH 73/84] fix: set dataset_id on all dataset nodes of provenance
 graphs

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index 2f1ac9e..7251aeb 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -316,6 +316,7 @@ class ProvenanceDatasetModel(PredictedDatasetModel):
         data_id = DataCoordinate.from_full_values(dataset_type_node.dimensions, tuple(self.data_coordinate))
         graph._bipartite_xgraph.add_node(
             self.dataset_id,
+            dataset_id=self.dataset_id,
             data_id=data_id,
             dataset_type_name=self.dataset_type_name,
             pipeline_node=dataset_type_node,
@@ -809,6 +810,7 @@ class ProvenanceQuantumModel(pydantic.BaseModel):
             if connection_name == acc.METADATA_OUTPUT_CONNECTION_NAME:
                 graph._bipartite_xgraph.add_node(
                     dataset_ids[0],
+                    dataset_id=dataset_ids[0],
                     data_id=data_id,
                     dataset_type_name=write_edge.dataset_type_name,
                     pipeline_node=graph.pipeline_graph.dataset_types[write_edge.dataset_type_name],
@@ -821,6 +823,7 @@ class ProvenanceQuantumModel(pydantic.BaseModel):
             if connection_name == acc.LOG_OUTPUT_CONNECTION_NAME:
                 graph._bipartite_xgraph.add_node(
                     dataset_ids[0],
+                    dataset_id=dataset_ids[0],
                     data_id=data_id,
                     dataset_type_name=write_edge.dataset_type_name,
                     pipeline_node=graph.pipeline_graph.dataset_types[write_edge.dataset_type_name],
@@ -978,6 +981,7 @@ class ProvenanceInitQuantumModel(pydantic.BaseModel):
             write_edge = task_init_node.get_output_edge(connection_name)
             graph._bipartite_xgraph.add_node(
                 dataset_id,
+                dataset_id=dataset_id,
                 data_id=empty_data_id,
                 dataset_type_name=write_edge.dataset_type_name,
                 pipeline_node=graph.pipeline_graph.dataset_types[write_edge.dataset_type_name],
-- 
2.43.0


From 0e90400b112575cf4f5fc801c6710c7a45f8bd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:11 +0000
Subject: [PATCH 74/84] fix: count caveats without a code letter in expanded
 caveat summaries

---
 python/lsst/pipe/base/_status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/_status.py b/python/lsst/pipe/base/_status.py
index 342dfcf..fb91dc7 100644
--- a/python/lsst/pipe/base/_status.py
+++ b/python/lsst/pipe/base/_status.py
@@ -148,7 +148,7 @@ class QuantumSuccessCaveats(enum.Flag):
             `code`, and `count` keys; or `None` if the string does not
             represent a concise flag.
         """
-        r = re.compile(r"(?P<token>\*|\+)?(?P<code>[A-Z]{1})\((?P<count>[0-9]+)\)")
+        r = re.compile(r"(?=[*+A-Z])(?P<token>\*|\+)?(?P<code>[A-Z]{1})?\((?P<count>[0-9]+)\)")
         m = re.match(r, concise)
         return m.groupdict() if m is not None else None
 
-- 
2.43.0


From 20bb2ebdb835319aebfd9cef508b19a2979ccc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:48 +0000
Subject: [PATCH 75/84] Revert "fix: list unsuccessful datasets in bad dataset
 tables"

This reverts commit 7fc06db2b2fb17e6b1455c2635fab8ff1e8113d6.
---
 python/lsst/pipe/base/quantum_provenance_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/quantum_provenance_graph.py b/python/lsst/pipe/base/quantum_provenance_graph.py
index 1dfd58d..e09c5a5 100644
--- a/python/lsst/pipe/base/quantum_provenance_graph.py
+++ b/python/lsst/pipe/base/quantum_provenance_graph.py
@@ -1110,7 +1110,7 @@ class Summary(pydantic.BaseModel):
         for dataset_type_name, dataset_type_summary in self.datasets.items():
             rows = []
             for data_id in dataset_type_summary.unsuccessful_datasets:
-                rows.append({"Status": "UNSUCCESSFUL", **data_id, "Message": ""})
+                row = {"Status": "UNSUCCESSFUL", **data_id, "Message": ""}
             for cursed_dataset_summary in dataset_type_summary.cursed_datasets:
                 row = {"Status": "CURSED", **cursed_dataset_summary.data_id}
                 row["Message"] = (
-- 
2.43.0


From 37fee5b59824636234873bc8ccf755faf6d33e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:53 +0000
Subject: [PATCH 76/84] fix: reading the init quanta of a provenance graph
 twice does not duplicate edges

---
 python/lsst/pipe/base/quantum_graph/_provenance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/lsst/pipe/base/quantum_graph/_provenance.py b/python/lsst/pipe/base/quantum_graph/_provenance.py
index 7251aeb..ee42c70 100644
--- a/python/lsst/pipe/base/quantum_graph/_provenance.py
+++ b/python/lsst/pipe/base/quantum_graph/_provenance.py
@@ -1766,6 +1766,9 @@ class ProvenanceQuantumGraphReader(BaseQuantumGraphReader):
         """Read the thin graph, with all edge information and categorization of
         quanta by task label.
         """
+        if self.graph._init_quanta:
+            # Already read; edges must not be added twice.
+            return
         init_quanta = self._read_single_block("init_quanta", ProvenanceInitQuantaModel)
         for init_quantum in init_quanta.root:
             self.graph._init_quanta[init_quantum.task_label] = init_quantum.quantum_id
-- 
2.43.0


From aefde6173d2cb7f95b6b538b07314102063d83db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:51 +0000
Subject: [PATCH 77/84] fix: make a local repository for graphs with
 init-inputs or component inputs

---
 .../pipe/base/simple_pipeline_executor.py     | 35 ++++++++++++-------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/python/lsst/pipe/base/simple_pipeline_executor.py b/python/lsst/pipe/base/simple_pipeline_executor.py
index e93d747..8a6793f 100644
--- a/python/lsst/pipe/base/simple_pipeline_executor.py
+++ b/python/lsst/pipe/base/simple_pipeline_executor.py
@@ -538,19 +538,28 @@ class SimplePipelineExecutor:
         for name, dataset_type_node in pipeline_graph.iter_overall_inputs():
             assert dataset_type_node is not None, "PipelineGraph should be resolved."
             to_tag_for_type = to_tag_by_type.setdefault(name, {})
-            for task_node in pipeline_graph.consumers_of(name):
-                for quantum in self.predicted.build_execution_quanta(task_label=task_node.label).values():
-                    for ref in quantum.inputs[name]:
-                        ref = dataset_type_node.generalize_ref(ref)
-                        refs.add(ref)
-                        if to_tag_for_type.setdefault(ref.dataId, ref) != ref:
-                            # There is already a dataset with the same data ID
-                            # and dataset type, but a different UUID/run.  This
-                            # can only happen for calibrations found in
-                            # calibration collections, and for now we have no
-                            # choice but to leave them out of the TAGGED inputs
-                            # collection in the local butler.
-                            to_tag_for_type[ref.dataId] = None
+            for edge in pipeline_graph.consuming_edges_of(name):
+                edge_refs: list[DatasetRef] = []
+                if edge.is_init:
+                    # There are no init-inputs to transfer for tasks that have
+                    # no quanta.
+                    if self.predicted.quanta_by_task.get(edge.task_label):
+                        init_inputs = self.predicted.get_init_inputs(edge.task_label)
+                        edge_refs.append(init_inputs[edge.connection_name])
+                else:
+                    for quantum in self.predicted.build_execution_quanta(task_label=edge.task_label).values():
+                        edge_refs.extend(quantum.inputs[edge.dataset_type_name])
+                for ref in edge_refs:
+                    ref = dataset_type_node.generalize_ref(ref)
+                    refs.add(ref)
+                    if to_tag_for_type.setdefault(ref.dataId, ref) != ref:
+                        # There is already a dataset with the same data ID
+                        # and dataset type, but a different UUID/run.  This
+                        # can only happen for calibrations found in
+                        # calibration collections, and for now we have no
+                        # choice but to leave them out of the TAGGED inputs
+                        # collection in the local butler.
+                        to_tag_for_type[ref.dataId] = None
 
         out_butler.transfer_from(
             self.butler,
-- 
2.43.0


From 6baa9ff6ec3da57d5c857c1b408b7a725e46e773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:51 +0000
Subject: [PATCH 78/84] fix: match dataset type globs against the whole name
 when transferring

---
 python/lsst/pipe/base/script/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/script/utils.py b/python/lsst/pipe/base/script/utils.py
index ff93c40..47071b6 100644
--- a/python/lsst/pipe/base/script/utils.py
+++ b/python/lsst/pipe/base/script/utils.py
@@ -45,7 +45,7 @@ def _matches_dataset_type(dataset_type_name: str, regexes: list[str | re.Pattern
         if isinstance(regex, str):
             if dataset_type_name == regex:
                 return True
-        elif regex.search(dataset_type_name):
+        elif regex.fullmatch(dataset_type_name):
             return True
     return False
 
-- 
2.43.0


From f426bdc55e8d2a3922ade4e1d7b12a18eaa9ef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:51 +0000
Subject: [PATCH 79/84] fix: leave the output chain alone in a dry run of
 transfer-from-graph

---
 python/lsst/pipe/base/script/transfer_from_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/script/transfer_from_graph.py b/python/lsst/pipe/base/script/transfer_from_graph.py
index eab78ad..3b2be29 100644
--- a/python/lsst/pipe/base/script/transfer_from_graph.py
+++ b/python/lsst/pipe/base/script/transfer_from_graph.py
@@ -124,7 +124,7 @@ def transfer_from_graph(
             count += len(transferred)
 
         # If asked to do so, update output chain definition.
-        if update_output_chain and (metadata := qgraph.metadata) is not None:
+        if update_output_chain and not dry_run and (metadata := qgraph.metadata) is not None:
             # These are defined in CmdLineFwk.
             output_run = metadata.get("output_run")
             output = metadata.get("output")
-- 
2.43.0


From fff32942ca7df24895664211a5397f4e453ace09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:51 +0000
Subject: [PATCH 80/84] fix: keep the labels of large merged task nodes in
 drawings

---
 python/lsst/pipe/base/pipeline_graph/visualization/_dot.py     | 3 ++-
 python/lsst/pipe/base/pipeline_graph/visualization/_mermaid.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/visualization/_dot.py b/python/lsst/pipe/base/pipeline_graph/visualization/_dot.py
index 69353eb..1b0f403 100644
--- a/python/lsst/pipe/base/pipeline_graph/visualization/_dot.py
+++ b/python/lsst/pipe/base/pipeline_graph/visualization/_dot.py
@@ -141,7 +141,8 @@ def _render_task_node(
     stream : TextIO
         The stream to write the node to
     """
-    labels, *_ = _format_label(str(node_key))
+    labels, label_extras, _ = _format_label(str(node_key))
+    labels += label_extras
 
     # Add the fully resolved task class name
     if options.task_classes and (node_key.node_type in (NodeType.TASK, NodeType.TASK_INIT)):
diff --git a/python/lsst/pipe/base/pipeline_graph/visualization/_mermaid.py b/python/lsst/pipe/base/pipeline_graph/visualization/_mermaid.py
index 243685d..440eae5 100644
--- a/python/lsst/pipe/base/pipeline_graph/visualization/_mermaid.py
+++ b/python/lsst/pipe/base/pipeline_graph/visualization/_mermaid.py
@@ -298,7 +298,8 @@ def _render_task_node(
     """
     # Convert node_key into a label, handling line splitting and prefix
     # extraction.
-    lines, _, _ = _format_label(str(node_key))
+    lines, line_extras, _ = _format_label(str(node_key))
+    lines += line_extras
 
     # If requested, show the fully qualified task class name beneath the task
     # label.
-- 
2.43.0


From 294ee3b59ce5f4751615cfbaa095ff744c4581bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:07 +0000
Subject: [PATCH 81/84] fix: never merge pipeline graph nodes of different
 types in drawings

---
 .../pipe/base/pipeline_graph/visualization/_merge.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py b/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py
index b1463ba..d7e7b2a 100644
--- a/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py
+++ b/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py
@@ -156,6 +156,7 @@ def merge_graph_intermediates(
     groups: dict[_MergeKey, set[NodeKey]] = defaultdict(set)
     for node, state in xgraph.nodes.items():
         merge_key = _MergeKey.from_node_state(
+            node.node_type,
             state,
             xgraph.predecessors(node),
             xgraph.successors(node),
@@ -189,6 +190,11 @@ class _MergeKey:
     when grouping nodes that may be merged by their attributes.
     """
 
+    node_type: NodeType
+    """Type of the nodes being considered for merging; nodes of different types
+    are never merged.
+    """
+
     parents: frozenset[Any]
     """Nodes of the original graph that are successors or predecessors of
     the nodes being considered for merging.
@@ -224,6 +230,7 @@ class _MergeKey:
     @classmethod
     def from_node_state[P, C](
         cls,
+        node_type: NodeType,
         state: dict[str, Any],
         parents: Iterable[P],
         children: Iterable[C],
@@ -233,6 +240,8 @@ class _MergeKey:
 
         Parameters
         ----------
+        node_type : `NodeType`
+            Type of the node.
         state : `dict`
             Dictionary used to hold NetworkX node attributes.
         parents : `~collections.abc.Iterable` [ `NodeKey` ]
@@ -245,6 +254,7 @@ class _MergeKey:
             Options for which node attributes to include in the new key.
         """
         return cls(
+            node_type=node_type,
             parents=frozenset(parents),
             dimensions=state.get("dimensions"),
             storage_class_name=(state.get("storage_class_name") if options.storage_classes else None),
@@ -300,7 +310,7 @@ def _make_tree_merge_groups(
             # merged (with isomorphism defined as both both structure and
             # whatever comparisons are in 'options').
             merge_key = _MergeKey.from_node_state(
-                xgraph.nodes[node], xgraph.successors(node), children.values(), options
+                node.node_type, xgraph.nodes[node], xgraph.successors(node), children.values(), options
             )
             result_for_depth[merge_key].add(node)
             if len(result) <= depth:
-- 
2.43.0


From d590e6daf300d4082af995449bf2f496aa1ea67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:07 +0000
Subject: [PATCH 82/84] fix: order the members of merged nodes by name when
 naming them

---
 python/lsst/pipe/base/pipeline_graph/visualization/_merge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py b/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py
index d7e7b2a..a226ca7 100644
--- a/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py
+++ b/python/lsst/pipe/base/pipeline_graph/visualization/_merge.py
@@ -71,8 +71,8 @@ class MergedNodeKey(frozenset[NodeKey]):
     def node_id(self) -> str:
         """A unique string representation of the merged node key."""
         hasher = hashlib.blake2b(digest_size=4)
-        for member in sorted(self):
-            hasher.update(str(member).encode())
+        for member in sorted(str(member) for member in self):
+            hasher.update(member.encode())
         return f"{hasher.digest().hex()}:{self.node_type.value}"
 
 
-- 
2.43.0


From 8f8deabf8835056a17e6ab886776e5b580161984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:07 +0000
Subject: [PATCH 83/84] fix: draw every edge in text drawings of pipeline
 graphs

---
 .../pipe/base/pipeline_graph/visualization/_layout.py    | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/visualization/_layout.py b/python/lsst/pipe/base/pipeline_graph/visualization/_layout.py
index 54e9b3d..0e40d2e 100644
--- a/python/lsst/pipe/base/pipeline_graph/visualization/_layout.py
+++ b/python/lsst/pipe/base/pipeline_graph/visualization/_layout.py
@@ -215,12 +215,19 @@ class Layout[K]:
             current = backbone.pop(0)
             # Find descendants of the previous node that are:
             # - in this subgraph
-            # - not descendants of the current node.
+            # - not descendants of the current node
+            # - not blocked by nodes we are not ready to add yet.
             followers_of_previous = set(descendants)
             descendants = frozenset(networkx.algorithms.dag.descendants(xgraph, current))
             followers_of_previous.remove(current)
             followers_of_previous.difference_update(descendants)
             followers_of_previous.difference_update(self._locations.keys())
+            ready = followers_of_previous | self._locations.keys()
+            followers_of_previous = {
+                node
+                for node in followers_of_previous
+                if ready.issuperset(networkx.algorithms.dag.ancestors(self._xgraph, node))
+            }
             # Add those followers of the previous node.  We like adding these
             # here because this terminates edges as soon as we can, freeing up
             # those columns for new new nodes.
-- 
2.43.0


From bc0b1e0e7eca21b659c2f014946bb0a2d19a0f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:07 +0000
Subject: [PATCH 84/84] fix: do not show incomplete tasks as 100% complete in
 drawings

---
 .../lsst/pipe/base/pipeline_graph/visualization/_formatting.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/pipe/base/pipeline_graph/visualization/_formatting.py b/python/lsst/pipe/base/pipeline_graph/visualization/_formatting.py
index 3a4069c..a6e96ed 100644
--- a/python/lsst/pipe/base/pipeline_graph/visualization/_formatting.py
+++ b/python/lsst/pipe/base/pipeline_graph/visualization/_formatting.py
@@ -496,7 +496,7 @@ def format_node_status(
         if status_options.display_percent:
             pct = round(percent)
             if pct == 100 and not full_success:
-                pct == 99  # Avoid showing 100% if not fully successful.
+                pct = 99  # Avoid showing 100% if not fully successful.
             prefix += f"{pct}%"
         if not status_options.visualize and status_options.display_percent and status_options.display_counts:
             prefix += " | "
-- 
2.43.0

