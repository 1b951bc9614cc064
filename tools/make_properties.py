"""Regenerates properties.jsonl (kept as a script so statements stay readable)."""
import json, os
B = "python/lsst/pipe/base/"
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[B + f for f in files],
                               mechanism=[dict(name=n, where=B + w) for n, w in mech], **kw)))

# ---------------------------------------------------------------- execution
prop("E01", "Graph walking hands out each node once, in dependency order, for any outcome",
 "Walking a directed acyclic graph hands out a node only after all of its predecessors have been reported finished, and hands out each node at most once. Reporting a failure blocks exactly the node's not-yet-blocked descendants (which are returned once and never handed out) and nothing else. When every handed-out node has been reported, the walk ends having handed out or blocked every node.",
 ["inputs", "schedules", "fault_sequences"], "every finite DAG, every order in which handed-out nodes are reported finished or failed, interleaved arbitrarily with asking for more work",
 "The tests walk four fixed small graphs with one completion order each; the guarantee quantifies over all DAGs and all completion/failure interleavings.",
 ["graph_walker.py"], [("GraphWalker", "graph_walker.py")])
prop("E02", "A run executes every runnable quantum exactly once, after its upstreams succeed",
 "Executing a quantum graph starts a quantum only after every quantum it depends on (through datasets or through explicitly added ordering constraints) has completed successfully, never starts a quantum twice, never starts one downstream of a failed, crashed or timed-out quantum, and - unless told to stop at the first failure - runs every other quantum. This holds both when quanta run in the calling process and when they run concurrently in worker processes, for any number of workers, never more than requested at once.",
 ["inputs", "schedules", "fault_sequences", "configurations"], "every quantum graph, worker count, completion order, and set of quanta that raise, exit, are killed by a signal or time out",
 "Tests run a handful of one- or two-task graphs with one failing data ID; they cannot cover graph shapes, completion orders and failure sets.",
 ["mp_graph_executor.py", "graph_walker.py", "exec_fixup_data_id.py"], [("MPGraphExecutor", "mp_graph_executor.py"), ("GraphWalker", "graph_walker.py"), ("ExecFixupDataId", "exec_fixup_data_id.py")])
prop("E03", "The execution report and raised error match what happened to every quantum",
 "After a quantum graph is executed, in one process or several, the execution report contains exactly one entry for every quantum that ran or was skipped because of an upstream failure, with the task, data ID and the true outcome (success, failure, timeout or skipped; exception details or exit code for failures). Execution raises an error exactly when some quantum failed or timed out, the overall status of the report agrees with that, and a timeout is reported as a timeout. (When told to stop at the first failure, quanta stopped or never reached because of that need no entry.)",
 ["inputs", "schedules", "fault_sequences", "configurations"], "every quantum graph, worker count, and set of quanta that raise, exit, are killed or time out",
 "Tests count statuses on fixed graphs; the report must match ground truth for every failure pattern and completion order.",
 ["mp_graph_executor.py", "quantum_reports.py"], [("MPGraphExecutor.getReport / QuantumReport", "mp_graph_executor.py"), ("Report", "quantum_reports.py")])
prop("E04", "Existing outputs are skipped, clobbered or refused exactly as requested",
 "When a quantum is executed and some of its outputs already exist, it is skipped without running or changing anything if skipping is enabled and its metadata (or, for quanta without one, every output) exists; otherwise, if clobbering is enabled, exactly its stale outputs are removed before it runs and are replaced by the new ones; otherwise execution refuses with an error before the task runs and leaves every existing dataset untouched. With none of its outputs present it always runs, and no dataset of any other quantum is ever removed or modified.",
 ["inputs", "configurations", "histories"], "every subset of pre-existing outputs, every combination of skip/clobber settings, every number of outputs and prior attempts",
 "Tests exercise two or three combinations on a single-output quantum; the policy is a decision over all subsets of existing outputs and all settings.",
 ["single_quantum_executor.py"], [("SingleQuantumExecutor.check_existing_outputs", "single_quantum_executor.py")])
prop("E05", "Each quantum attempt records its true outcome in metadata and logs",
 "After a quantum attempt, its task metadata dataset exists exactly when the attempt succeeded (including success with no work or with partial outputs) and its log dataset exists whether it succeeded or failed; the log contains the messages the task emitted and, for a failure, the exception. The outcome returned or raised, the success caveats, and the list of outputs recorded as written agree with what the task really did and which outputs were really stored.",
 ["inputs", "configurations", "fault_sequences"], "every way a task can end (success, no work, partial outputs, algorithm error, arbitrary exception, failure during construction), every subset of outputs written before that, every executor setting",
 "Tests cover the plain success path and a few exceptions with one output; caveats, written outputs and logs must agree for every combination.",
 ["single_quantum_executor.py", "log_capture.py", "_status.py"], [("SingleQuantumExecutor.execute", "single_quantum_executor.py"), ("LogCapture", "log_capture.py"), ("QuantumSuccessCaveats.from_adjust_quantum / ExceptionInfo", "_status.py")])
prop("E06", "A running quantum can touch only its own predicted inputs and outputs",
 "During execution a task can read only datasets predicted as inputs of its quantum and that are actually available, and can write only datasets predicted as its outputs: any other request raises and has no effect. Requests in any accepted form (single reference, list, structured group, deferred) return objects matching the requested references position by position, missing inputs are dropped before the task runs, and a quantum whose remaining inputs fall below a connection's minimum is not run.",
 ["inputs", "configurations"], "every quantum shape (scalar, multiple, optional, deferred, prerequisite connections), every subset of inputs missing at execution, every request",
 "Tests check a few hand-built requests; containment quantifies over all requests and all missing-input subsets.",
 ["_quantumContext.py", "single_quantum_executor.py", "connections.py"], [("QuantumContext.get/put", "_quantumContext.py"), ("SingleQuantumExecutor.update_quantum_inputs", "single_quantum_executor.py"), ("AdjustQuantumHelper", "connections.py")])
prop("E07", "The caching butler is indistinguishable from the butler it wraps",
 "For any sequence of writes, reads (whole datasets, components, deferred, converted storage classes, with parameters), existence checks and removals, a caching butler returns the same values and raises in the same cases as an uncached butler would. Objects handed out never expose another reader's modifications unless the dataset type was declared safe not to copy. Plain repeated reads of the most recently cached dataset of a type declared for caching are served from memory, and no more than that one dataset per type is held.",
 ["histories", "configurations"], "every operation sequence, set of cached and no-copy dataset types, and failures of the wrapped butler",
 "The only test checks five operations on one dataset.",
 ["caching_limited_butler.py"], [("CachingLimitedButler", "caching_limited_butler.py")])
prop("E08", "The blocking butler waits exactly for late datasets and otherwise is transparent",
 "Reading or checking a dataset through a blocking butler returns what the wrapped butler holds as soon as the dataset appears within the dataset type's timeout, and reports absence (failing the read) only after the timeout has elapsed with the dataset still absent. Dataset types with no timeout never wait more than a single attempt, no-limit timeouts wait until the dataset appears, and every answer agrees with the wrapped butler's state.",
 ["schedules", "configurations", "histories"], "every arrival time of every dataset relative to the poll schedule, every mix of timeouts, every batch of references",
 "Tests use one or two datasets and one arrival pattern.",
 ["blocking_limited_butler.py"], [("BlockingLimitedButler", "blocking_limited_butler.py")])

prop("E09", "Running a pipeline end to end yields exactly the outputs its data imply",
 "Running a pipeline with the simple or the separable pipeline executor, from a file, a pipeline, a task class or a ready graph, in one process or several, leaves in the output run exactly the datasets that the data and the tasks' behaviour imply, each computed from exactly the predicted inputs that exist: quanta downstream of a failure are not run, failures are raised, quanta with no work leave only their metadata and logs. Later rounds that skip and clobber existing outputs complete the run without touching finished quanta, a local repository receives every input needed and all outputs while the original one stays as it was, and recorded provenance gives each quantum's true status.",
 ["inputs", "configurations", "histories"], "every pipeline, data set, way of starting it, pattern of failures, partial outputs and no-work quanta, and sequence of rounds",
 "Tests run one- or two-task pipelines on one data ID; that construction, initialization, execution and recovery agree must hold for every pipeline and history.",
 ["simple_pipeline_executor.py", "separable_pipeline_executor.py", "taskFactory.py", "single_quantum_executor.py", "mp_graph_executor.py"], [("SimplePipelineExecutor.from_* / run / use_local_butler", "simple_pipeline_executor.py"), ("SeparablePipelineExecutor.pre_execute_qgraph / build_quantum_graph / run_pipeline", "separable_pipeline_executor.py")])

# ---------------------------------------------------------------- data containers
prop("D01", "Task metadata is a lossless nested mapping with type-preserving serialization",
 "Task metadata behaves as a nested mapping with dotted keys: for any history of sets, adds, deletes, updates and copies of scalars, lists, nested mappings and metadata, scalar, array, dict, length, iteration and membership queries all agree with one another and with the values stored. Writing it to JSON and reading it back yields equal metadata with the same keys, the same value types and the same values, including non-finite floats; invalid values are rejected without changing anything.",
 ["histories", "inputs"], "every operation sequence over keys of any depth and supported values of any type",
 "Tests apply one scripted sequence of operations with a few values.",
 ["_task_metadata.py"], [("TaskMetadata", "_task_metadata.py")])
prop("D02", "In-memory dataset handles and result structs behave like their real counterparts",
 "An in-memory dataset handle returns, for every component, parameter and storage-class request, what a butler read of the same object would return, and reads never modify the original; when copying is requested, changes to a returned object never affect the original or later reads. A result struct holds exactly the fields given to it, never silently overwrites a field when merging, and round-trips through pickling and copying.",
 ["inputs", "histories"], "every supported request combination and every sequence of reads and mutations",
 "Tests enumerate a few requests on one dataframe-like object.",
 ["_dataset_handle.py", "struct.py"], [("InMemoryDatasetHandle", "_dataset_handle.py"), ("Struct", "struct.py")])
prop("D03", "Configuration overrides apply in order, last one wins, with exact values",
 "A task's final configuration equals its defaults with instrument overrides, then pipeline-level overrides (parameters, values, files, Python snippets) and later additions applied strictly in the order they were given, so that the last override of a field wins and unmentioned fields keep their previous value. String values are interpreted as the literal, named parameter or variable they denote, anything else is kept as the string itself, and an invalid override raises instead of being dropped.",
 ["inputs", "configurations"], "every sequence of override kinds over nested fields and every literal value",
 "Tests check a dozen fixed override lists; order and literal interpretation must hold for all sequences.",
 ["configOverrides.py", "pipeline.py", "pipelineIR.py"], [("ConfigOverrides.applyTo", "configOverrides.py"), ("Pipeline.addConfigOverride", "pipeline.py"), ("ConfigIR", "pipelineIR.py")])
prop("D04", "Task connections reflect declaration and configuration, independently and frozen",
 "A task's connections, built from a connections class and a configuration, have exactly the declared connections with names obtained by substituting configured templates (or explicit configured names), plus exactly the additions, removals and replacements its customization made; classification into inputs, outputs, prerequisites and init connections always agrees with the connections themselves. Instances never affect one another or the class, cannot be changed after construction, and mapping a quantum onto them assigns every reference to the right connection.",
 ["inputs", "programs", "configurations"], "every connections class hierarchy, template/name configuration, and customization of connections",
 "Tests check a handful of classes; the guarantee is over all declarations, inheritance and dynamic customizations.",
 ["connections.py", "config.py", "connectionTypes.py"], [("PipelineTaskConnectionsMetaclass / PipelineTaskConnections", "connections.py"), ("PipelineTaskConfigMeta", "config.py")])

prop("D05", "A task hierarchy names, configures, measures and pickles every subtask",
 "Building a task builds exactly the subtasks it makes, each of the class and with the very configuration its parent's configuration selects, under the full name formed from its ancestors' names, with a logger named after it. The full metadata holds exactly every task's own metadata under its full name, timed blocks always record both their start and end even when they fail, and emptying clears every task's metadata and nothing already handed out. Pickling yields an equal, independent hierarchy, and a refused construction leaves the hierarchy unchanged.",
 ["inputs", "histories"], "every tree of configurable, retargeted and registry subtasks, names, loggers and sequence of measurements",
 "Tests build one two-level hierarchy.",
 ["task.py"], [("Task", "task.py")])

# ---------------------------------------------------------------- pipelines
prop("P01", "Writing a pipeline to YAML and reading it back preserves it entirely",
 "A pipeline written as YAML and read back is equal to the original and expands to the same tasks, configurations, parameters, contracts, labeled subsets and steps, in text or in files. Equality of pipelines distinguishes pipelines that differ in any of those parts.",
 ["inputs", "histories"], "every pipeline definition, including ones assembled by edits, and repeated round trips",
 "Tests round-trip two or three documents; any section can be dropped by a serializer for some document.",
 ["pipelineIR.py", "pipeline.py"], [("PipelineIR.to_primitives / from_string / to_file", "pipelineIR.py"), ("Pipeline.write_to_uri", "pipeline.py")])
prop("P02", "Importing and merging pipelines follows the documented composition rules",
 "A pipeline that imports others contains exactly the tasks selected by include or exclude (and renames), with the importing pipeline's own declarations and configuration taking precedence over imported ones in order; imported parameters, contracts, subsets and steps carry over, refer only to tasks that exist, and follow renames. Conflicting definitions that are documented as errors raise, composition does not depend on how nested imports are split into files, and merging never modifies the pipeline being merged in.",
 ["inputs", "programs"], "every tree of importing pipelines with any include/exclude/rename and any overlap of declarations",
 "Tests use about a dozen hand-written documents; combinations of options over nested imports are unbounded.",
 ["pipelineIR.py", "pipeline.py"], [("ImportIR.toPipelineIR / PipelineIR.merge_pipelines / process_args", "pipelineIR.py")])
prop("P03", "Selecting or editing part of a pipeline changes exactly what was asked",
 "Selecting tasks of a pipeline by labels, label ranges, subset names or file fragment yields exactly the requested tasks in a pipeline whose configurations match the original's, with contracts and subsets that mention removed tasks dropped (or edited, as requested) and none other; unknown labels raise. Adding and removing tasks, subset members, subsets and overrides changes exactly what was asked, never the original or the caller's arguments.",
 ["inputs", "histories"], "every pipeline, selection and sequence of edits",
 "Tests use one or two pipelines with fixed selections.",
 ["pipelineIR.py", "pipeline.py"], [("PipelineIR.subset_from_labels", "pipelineIR.py"), ("Pipeline.subsetFromLabels / fromFile fragments / removeTask", "pipeline.py")])

# ---------------------------------------------------------------- pipeline graphs
prop("G01", "A pipeline graph's views describe one DAG, whatever the insertion order",
 "For any set of tasks, every view of a pipeline graph (task and dataset mappings, producers, consumers, inputs and outputs of a task, overall inputs, exported networkx graphs, copies) describes the same directed acyclic graph implied by the tasks' connections. Sorting gives a topological order that depends only on the content and not on insertion order; cycles and two tasks producing the same dataset type are rejected.",
 ["inputs", "histories"], "every set of tasks and connections, insertion order and sequence of additions and removals",
 "Tests inspect one four-task pipeline in detail.",
 ["pipeline_graph/_pipeline_graph.py", "pipeline_graph/_mapping_views.py", "pipeline_graph/_tasks.py", "pipeline_graph/_edges.py"], [("PipelineGraph", "pipeline_graph/_pipeline_graph.py")])
prop("G02", "Resolving a pipeline graph gives one consistent definition per dataset type",
 "Resolving a pipeline graph gives each dataset type a single definition: the repository's if registered there, else its producer's, else one consistent with every consumer, with components traced to parents and skypix placeholders filled in only from the repository or the producing task. Any incompatibility between producer, consumers or repository in the dimensions, storage class or kind of whole-dataset connections raises an error instead of resolving, adapting a reference between a connection's and the resolved storage class loses nothing, and the result does not depend on task insertion order.",
 ["inputs", "configurations"], "every combination of producers, consumers, prerequisites, components, storage classes, dimensions and registry contents",
 "Tests check about twenty hand-written two-task conflicts.",
 ["pipeline_graph/_dataset_types.py", "pipeline_graph/_edges.py", "pipeline_graph/_pipeline_graph.py"], [("DatasetTypeNode._from_edges / ReadEdge._resolve_dataset_type", "pipeline_graph/_dataset_types.py")])
prop("G03", "Saving and loading a pipeline graph reproduces it exactly",
 "A pipeline graph written to a file or stream and read back - with or without importing the task code, resolved or not, sorted or not - has the same tasks, connections, configurations, dataset types, dimensions, subsets, steps, description and ordering, and writing it again gives the same content.",
 ["inputs"], "every pipeline graph, resolution state and import mode",
 "Tests round-trip the same four-task pipeline.",
 ["pipeline_graph/io.py", "pipeline_graph/_pipeline_graph.py"], [("SerializedPipelineGraph", "pipeline_graph/io.py")])
prop("G04", "A failed edit of a pipeline graph leaves it exactly as it was",
 "Every editing operation on a pipeline graph (adding, removing or reconfiguring tasks, adding, editing or removing labeled subsets, changing steps or description, resolving) either succeeds completely or raises and leaves the graph's tasks, configurations, edges, subsets, steps and queries exactly as before, unless it raises the dedicated error that says the graph was corrupted (a failed resolution may leave some dataset types resolved, but changes none of those). Successful edits have exactly the documented effect on tasks, subsets and steps.",
 ["histories", "fault_sequences"], "every sequence of valid and invalid edits",
 "Tests try a few invalid edits in isolation.",
 ["pipeline_graph/_pipeline_graph.py", "pipeline_graph/_task_subsets.py"], [("PipelineGraph.add_task_nodes / reconfigure_tasks / remove_tasks", "pipeline_graph/_pipeline_graph.py"), ("StepDefinitions", "pipeline_graph/_task_subsets.py")])
prop("G05", "Task-selection expressions select exactly the set they denote",
 "Any task-selection expression built from task labels, dataset type names, subset labels, ancestor/descendant operators, complement, union and intersection selects exactly the set of tasks its set-algebra meaning denotes, with intersection binding tighter than union and complement tightest. Syntactically invalid expressions and unknown identifiers raise an error rather than selecting something.",
 ["inputs", "programs"], "every pipeline and every expression",
 "Tests evaluate about fifteen expressions on one pipeline.",
 ["pipeline_graph/expressions.py", "pipeline_graph/_pipeline_graph.py"], [("expressions.parse", "pipeline_graph/expressions.py"), ("PipelineGraph.select_tasks", "pipeline_graph/_pipeline_graph.py")])
prop("G06", "Step definitions stay a consistent partition in dependency order",
 "A pipeline graph whose steps have been verified has every task in exactly one step, steps ordered so that no task depends on a task of a later step, and a task order that visits steps in sequence; step dimensions and labels are those assigned, and steps stay in agreement with labeled subsets under edits. Inconsistent steps are rejected when the graph is resolved.",
 ["inputs", "histories"], "every assignment of tasks to ordered steps and every sequence of edits to subsets and steps",
 "Tests use one pipeline with two steps.",
 ["pipeline_graph/_task_subsets.py", "pipeline_graph/_pipeline_graph.py"], [("StepDefinitions", "pipeline_graph/_task_subsets.py"), ("PipelineGraph.resolve", "pipeline_graph/_pipeline_graph.py")])

prop("G07", "Drawings of pipeline and quantum graphs show exactly the graph",
 "Text, Graphviz and Mermaid drawings of a pipeline graph, and drawings of quantum graphs, show exactly the nodes that were asked for (with or without dataset types, init nodes and automatic outputs) and exactly the dependencies between them: every edge of the graph can be read back and no other, whatever merging of nodes was requested, with the requested details (task classes, dimensions, storage classes, execution status) correct on each node. A merged node lists every node it stands for, all of one kind, and text drawings list nodes in dependency order.",
 ["inputs", "configurations"], "every graph, resolved or not, and every combination of drawing options",
 "Tests compare a few substrings of the drawings of two fixed pipelines.",
 ["pipeline_graph/visualization/_show.py", "pipeline_graph/visualization/_layout.py", "pipeline_graph/visualization/_printer.py", "pipeline_graph/visualization/_merge.py", "pipeline_graph/visualization/_dot.py", "pipeline_graph/visualization/_mermaid.py", "pipeline_graph/visualization/_formatting.py", "quantum_graph/visualization.py"], [("Layout / Printer", "pipeline_graph/visualization/_layout.py"), ("merge_graph_input_trees / merge_graph_intermediates", "pipeline_graph/visualization/_merge.py"), ("show_dot / show_mermaid", "pipeline_graph/visualization/_dot.py")])

# ---------------------------------------------------------------- quantum graph generation
prop("Q01", "A built quantum graph holds exactly the quanta and edges the data implies",
 "Building a quantum graph yields exactly the quanta whose data IDs follow from joining the pipeline's dimensions, the data query and the existing input datasets, each connected to exactly the input and output datasets with consistent data IDs, with inputs being the first match in the input collection search path. Every output has one producer and a fresh identity in the output run, the graph is acyclic and self-consistent, init inputs and outputs are complete, and the result does not depend on task insertion order or query details.",
 ["inputs", "configurations"], "every pipeline, repository content, data query and collection search path",
 "Tests compare a few pipelines on fixed repositories; no test computes the expected graph independently.",
 ["all_dimensions_quantum_graph_builder.py", "quantum_graph_builder.py", "quantum_graph_skeleton.py", "trivial_quantum_graph_builder.py"], [("AllDimensionsQuantumGraphBuilder.process_subgraph", "all_dimensions_quantum_graph_builder.py"), ("QuantumGraphBuilder.build", "quantum_graph_builder.py")])
prop("Q02", "Skip-existing and clobber decisions at build time match what exists",
 "When a quantum graph is built against an output run or skip-existing collections that already hold outputs, a quantum is dropped exactly when skipping is requested and its metadata exists there, its existing outputs are then reused as inputs of the remaining quanta (and unproduced ones are treated as missing), and quanta with leftover outputs are kept with those identities if clobbering allows it and otherwise building fails. Existing datasets keep their identity and nothing else is dropped.",
 ["inputs", "configurations", "histories"], "every subset of previously executed quanta and written outputs, every skip/clobber/retain setting and collection order",
 "Tests run one or two histories per setting.",
 ["quantum_graph_builder.py"], [("QuantumGraphBuilder._skip_quantum_if_metadata_exists / _discard_output_if_... / _update_quantum_for_adjust", "quantum_graph_builder.py")])
prop("Q03", "Graph pruning removes exactly the quanta with no work, transitively",
 "A quantum is dropped from a built graph exactly when its required regular inputs are not available (below a connection's minimum, counting only datasets that exist or that a kept quantum will produce) or its task's own adjustment says there is no work, and this propagates downstream until no more quanta qualify. Adjustments that remove inputs or outputs are reflected in the graph, datasets left with no quanta are removed, and a missing required prerequisite is an error, not a silent drop.",
 ["inputs", "programs"], "every graph, minimum setting, adjustment behaviour and pattern of missing inputs",
 "Tests use one or two adjusting tasks on fixed data.",
 ["quantum_graph_builder.py", "connections.py", "quantum_graph_skeleton.py"], [("QuantumGraphBuilder._resolve_task_quanta", "quantum_graph_builder.py"), ("AdjustQuantumHelper", "connections.py")])
prop("Q04", "Prerequisite inputs found are exactly those that apply to each quantum",
 "Each quantum is given, for every prerequisite connection, exactly the datasets that exist in the input collections with data IDs matching the quantum, certified valid over its time span for calibrations, overlapping its region for sky-pixel datasets (using the quantum's own bounds or those of the connections the task names), or returned by the connection's custom lookup - using the first match along the collection search path. Scalar connections with more than one match and non-optional ones with none raise an error.",
 ["inputs", "configurations"], "every set of prerequisite datasets, validity ranges, regions, collection orders and bounds customizations",
 "Tests check one or two prerequisite patterns with fixed validity ranges.",
 ["prerequisite_helpers.py", "all_dimensions_quantum_graph_builder.py", "quantum_graph_builder.py"], [("PrerequisiteInfo / PrerequisiteFinder", "prerequisite_helpers.py")])

# ---------------------------------------------------------------- quantum graph storage
prop("S01", "The random-access graph file format returns exactly what was stored",
 "Any set of records written to the random-access multi-block file format, in any order and under any identifiers and page sizes, can be read back individually by identifier, in bulk, or sequentially, giving exactly the bytes stored; identifiers that were not stored are reported as absent, and records whose content was never written are reported as such. Truncated files produce an error and never wrong data or an endless loop.",
 ["inputs", "fault_sequences"], "every set of identifiers (dense, sparse, adversarial), record sizes, page sizes, integer sizes, lookup orders and truncation points",
 "Tests only use this format through two small graphs.",
 ["quantum_graph/_multiblock.py"], [("AddressWriter / AddressReader / MultiblockWriter / MultiblockReader", "quantum_graph/_multiblock.py")])
prop("S02", "A predicted quantum graph survives saving and loading, in full or in part",
 "A predicted quantum graph written to a file and read back is the same graph: same header, pipeline, quanta, data IDs with records, datasets with identities, edges, init quanta and datastore records. Reading only some quanta or only some parts gives exactly those parts with the same content as a full read, for any page size; identifiers of init quanta are ignored, requesting unknown identifiers raises, and a partially read graph cannot be written as if it were whole.",
 ["inputs", "configurations"], "every graph, every subset of quanta and components read, every page size and compression setting",
 "Tests round-trip one graph and load a couple of subsets.",
 ["quantum_graph/_predicted.py", "quantum_graph/_common.py", "quantum_graph/_multiblock.py"], [("PredictedQuantumGraphComponents.write", "quantum_graph/_predicted.py"), ("PredictedQuantumGraphReader", "quantum_graph/_predicted.py")])
prop("S03", "Old-format graphs and output-run changes preserve the graph's meaning",
 "Converting between the old and new in-memory quantum graph forms, saving and loading the old form (in full or by node), and subsetting it preserve quanta, dataset references, edges, init datasets and metadata, and its summary counts what it contains. Changing a graph's output run changes exactly the run and identity of output and intermediate datasets, consistently everywhere the dataset appears, and leaves inputs, structure and data IDs alone.",
 ["inputs", "histories"], "every graph, node subset and sequence of conversions and output-run changes",
 "Tests convert one or two graphs once.",
 ["graph/graph.py", "graph/_versionDeserializers.py", "quantum_graph/_predicted.py"], [("QuantumGraph.saveUri / loadUri / subset / updateRun", "graph/graph.py"), ("PredictedQuantumGraphComponents.update_output_run / from_old_quantum_graph", "quantum_graph/_predicted.py")])
prop("S04", "Initializing an output run is repeatable and refuses inconsistent reruns",
 "Initializing an output run stores one config per task, one packages record and every init-output, with exactly the content the graph's tasks define and the identities the graph predicts, leaving everything else untouched; doing it again with the same definitions changes nothing. If a stored config or software version differs from the current one, or a dataset of another identity stands where the graph predicts one (or anything exists when nothing is supposed to), initialization raises and leaves the stored datasets unchanged (other than recording additional packages).",
 ["histories", "configurations"], "every pipeline, every partially initialized run, every difference between stored and current definitions",
 "Tests try single differences on fixed pipelines.",
 ["quantum_graph/_predicted.py", "pipeline_graph/_pipeline_graph.py", "graph/graph.py"], [("PipelineGraph.init_output_run / check_packages / write_configs", "pipeline_graph/_pipeline_graph.py"), ("PredictedQuantumGraph.init_output_run", "quantum_graph/_predicted.py")])

prop("S05", "Transfer and retrieval scripts copy exactly the selected graph outputs",
 "The scripts that transfer a graph's outputs into the data repository, pack them into a zip archive, or retrieve them as files handle exactly the datasets that the graph predicts, that exist, and that the dataset-type patterns (or quanta) select, with their predicted identity and unchanged content. Dataset types, collections and output chains are changed only as asked; repeating a transfer adds nothing, a refused or dry run changes nothing, the number reported is the number transferred, and the original files are never modified.",
 ["inputs", "configurations", "histories"], "every graph, every subset of existing outputs, every selection and option, first and repeated invocations",
 "Tests transfer one graph once with mocked butlers.",
 ["script/transfer_from_graph.py", "script/zip_from_graph.py", "script/retrieve_artifacts_for_quanta.py", "script/utils.py"], [("transfer_from_graph", "script/transfer_from_graph.py"), ("zip_from_graph", "script/zip_from_graph.py"), ("retrieve_artifacts_for_quanta", "script/retrieve_artifacts_for_quanta.py"), ("filter_by_dataset_type_glob", "script/utils.py")])

# ---------------------------------------------------------------- provenance
prop("V01", "Aggregated provenance equals what really happened in the run",
 "After a run is aggregated, the stored provenance graph has exactly the predicted quanta and datasets, each quantum with the true status, attempts, exception, caveats, resource usage, log and metadata of its executions, each dataset marked produced exactly when it exists, and the repository holds exactly the output datasets that were written. The result is the same for any number of workers, batch size or compression setting and for a graph written during execution instead of aggregated.",
 ["inputs", "schedules", "configurations", "histories"], "every execution outcome pattern (successes, failures, blocked, not attempted, retries, hard crashes) and every aggregator configuration",
 "Tests aggregate one four-task graph with one failing quantum.",
 ["quantum_graph/aggregator/__init__.py", "quantum_graph/aggregator/_scanner.py", "quantum_graph/aggregator/_ingester.py", "quantum_graph/aggregator/_writer.py", "quantum_graph/_provenance.py"], [("aggregate_graph / Supervisor", "quantum_graph/aggregator/_supervisor.py"), ("ProvenanceQuantumScanData", "quantum_graph/_provenance.py")])
prop("V02", "Aggregation never hangs or loses data when workers fail, and can be rerun",
 "Whatever worker fails, raises or dies during aggregation, the call ends with an error once its workers have stopped, instead of hanging or reporting success, and no predicted dataset is ingested twice or with a wrong identity. Running the aggregation again after any interruption (or after complete success) finishes and gives the same repository content and provenance as an uninterrupted run.",
 ["fault_sequences", "crash_points", "schedules"], "every worker kind and point of failure, every number of workers, threads or processes",
 "Tests inject one failure per worker kind at one point.",
 ["quantum_graph/aggregator/_communicators.py", "quantum_graph/aggregator/_supervisor.py", "quantum_graph/aggregator/_scanner.py", "quantum_graph/aggregator/_ingester.py", "quantum_graph/aggregator/_writer.py"], [("SupervisorCommunicator / WorkerCommunicator", "quantum_graph/aggregator/_communicators.py")])
prop("V03", "Ingesting a provenance graph never loses logs, metadata or configs at any crash",
 "Ingesting a provenance graph into the repository replaces individual log, metadata and config files by the graph file; at every point where the process may die, each of those datasets is still readable either from its original file or from the ingested graph with unchanged content. Rerunning completes the job from any interruption, a second run on a finished one changes nothing, and no other dataset or file is removed.",
 ["crash_points", "fault_sequences", "configurations"], "every prefix of the ingestion's file and database effects, every batch size and option",
 "Tests run ingestion to completion, with one simulated interruption.",
 ["quantum_graph/ingest_graph.py", "quantum_graph/formatter.py"], [("ingest_graph", "quantum_graph/ingest_graph.py"), ("ProvenanceFormatter", "quantum_graph/formatter.py")])
prop("V04", "Provenance graph reads and reports agree with the stored records",
 "Reading a provenance graph in full, by selected quanta or datasets, or one component at a time gives the same records, logs and metadata for everything requested; requests for specific items return all of those items. Summary tables, status counts, exception summaries and quantum reports derived from it agree exactly with a direct count over the quanta, under every filter.",
 ["inputs", "configurations"], "every provenance graph, subset of quanta and datasets, and report filter",
 "Tests check totals for one graph.",
 ["quantum_graph/_provenance.py"], [("ProvenanceQuantumGraphReader / ProvenanceQuantumGraph.from_args", "quantum_graph/_provenance.py"), ("make_status_table / make_exception_table / ProvenanceReport", "quantum_graph/_provenance.py")])
prop("V05", "Multi-run provenance summaries classify every quantum and dataset correctly",
 "Given a sequence of runs of the same pipeline, the multi-run provenance summary classifies each quantum (successful, failed, blocked, unknown, wonky) and each dataset (visible, shadowed, predicted-only, unsuccessful, cursed) consistently with what each run really did and with which run's outputs are visible, and its totals add up to the number of expected quanta and datasets.",
 ["histories", "configurations"], "every sequence of runs with any pattern of successes, failures and recoveries and any collection ordering",
 "Tests check two or three scripted histories.",
 ["quantum_provenance_graph.py"], [("QuantumProvenanceGraph", "quantum_provenance_graph.py")])

# ---------------------------------------------------------------- misc
prop("M01", "Packed observation identifiers are unique, bounded and reversible",
 "For any instrument bounds, packing an observation and detector identifier gives an integer that fits in the advertised number of bits, distinct data IDs give distinct integers, unpacking returns the original data ID, and out-of-range identifiers raise.",
 ["inputs", "configurations"], "every instrument bound and every identifier pair",
 "Tests pack a couple of IDs.",
 ["_observation_dimension_packer.py", "_instrument.py"], [("ObservationDimensionPacker", "_observation_dimension_packer.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
