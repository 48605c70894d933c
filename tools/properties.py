"""The properties: single source for properties.jsonl and MANIFEST.json."""

B = "python/lsst/pipe/base/"
NOT_APPLICABLE: dict[str, str] = {}
PROPS: list[dict] = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="model_checking", observe=()):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": [f if f.startswith("python/") else B + f for f in files],
                    "mechanism": [{"name": n, "where": B + w} for n, w in mech],
                    "observe_at": list(observe), "hook_needed": None},
        "technique": technique, "level": level, "level_note": note,
    })


TV = ("TLA+ specification explored by TLC; behaviours generated by TLC and by seeded drivers are run in the real "
      "code and every recorded trace is judged by the specification")

prop("P01", "A node is handed out exactly once, after all its predecessors, unless blocked",
     "Walking a dependency graph hands out every node exactly once, and only after all of its predecessors were "
     "marked finished. Marking a node as failed withholds exactly its not-yet-completed descendants for good, and "
     "reports them. The walk ends exactly when every node is finished, failed or blocked, and there is always "
     "something ready or in progress until then, whatever the order in which nodes are marked (marked nodes need "
     "not have been handed out).",
     ["schedules", "inputs"], "for every acyclic graph and every order of next/finish/fail calls",
     "tests walk one or two small graphs in one order", ["graph_walker.py"],
     [("GraphWalker", "graph_walker.py")], TV,
     "Exhaustive over all DAGs of 3 nodes in any order and 4 nodes in protocol order (TLC), replayed in the code; "
     "random DAGs up to 9 nodes beyond that.")

prop("P02", "Single-process runs attempt exactly the unblocked quanta and report truthfully",
     "In a single-process run every quantum is attempted at most once and only after all of its upstream quanta "
     "succeeded; a failure skips exactly its downstream quanta, unless fail-fast is set or the error is fatal, in "
     "which case nothing further is attempted. The run raises if and only if something failed (with the documented "
     "exit codes for repeatable errors under fail-fast and for invalid quanta), and the report lists every quantum "
     "of a completed run exactly once with its true status, and an overall status of success exactly when nothing "
     "failed.",
     ["inputs", "fault_sequences", "configurations"],
     "for every quantum graph, every assignment of outcomes to quanta, with and without fail-fast",
     "tests run a handful of graphs with a single failing quantum",
     ["mp_graph_executor.py", "graph_walker.py", "quantum_reports.py"],
     [("MPGraphExecutor in-process loop", "mp_graph_executor.py"), ("GraphWalker", "graph_walker.py")], TV,
     "Design exhaustively checked for 3 quanta (all DAGs, all outcomes); conformance on randomized quantum graphs "
     "with a scripted quantum executor. Trusts the graph builder used to make the input graphs.")

prop("P03", "Multi-process runs respect order, pool size and timeouts and report truthfully",
     "In a multi-process run at most the requested number of processes run at once, each quantum is started at most "
     "once and only after all of its upstream quanta succeeded, quanta that exceed the timeout (and only those, "
     "unless the run is being stopped) are terminated, and the run always terminates. Each attempted quantum is "
     "reported once as success, failure or timeout according to how its process really ended and each quantum "
     "downstream of a failure or timeout once as skipped; the overall status is failure if anything failed, else "
     "timeout if anything timed out. With fail-fast, or after an invalid quantum, no further quantum is started "
     "and all running processes are stopped.",
     ["schedules", "fault_sequences", "configurations"],
     "for every quantum graph, pool size, timing of process exits, crashes, timeouts and signal handling",
     "tests sample a few timings with real sleeps; interleavings of exits, polls and timeouts are not controlled",
     ["mp_graph_executor.py", "graph_walker.py", "quantum_reports.py"],
     [("MPGraphExecutor multiprocess loop, _Job, _JobList", "mp_graph_executor.py")],
     TV + " (simulated processes and clock, plus real processes)",
     "Design exhaustively checked for 3 quanta and 2 slots including liveness; the real polling loop is run with "
     "simulated processes under virtual time, and a few times with real spawned processes.")

prop("P04", "Ordering fixups add only the requested order and never lose or deadlock quanta",
     "Applying execution-ordering fixups yields extra edges between quanta of the named tasks only, in exactly the "
     "order of the chosen dimension values (forwards or in reverse), leaves every quantum and every data dependency "
     "in place, and rejects with an error any fixup that would create a cycle. A run with fixups attempts each "
     "quantum at most once and never before the quanta ordered ahead of it are finished, and a failure does not "
     "prevent quanta that are merely ordered after it, except in what the added order states.",
     ["inputs", "configurations"], "for every quantum graph and every set of ordering constraints",
     "tests apply one fixup to one small graph",
     ["exec_fixup_data_id.py", "execution_graph_fixup.py", "mp_graph_executor.py"],
     [("ExecFixupDataId", "exec_fixup_data_id.py"), ("fixups in MPGraphExecutor", "mp_graph_executor.py")], TV,
     "Random quantum graphs over several dimension combinations with random fixups; TLC judges the edges and the "
     "runs against the specification's FixEdges.")

prop("P05", "Re-running a quantum skips, refuses or replaces, and commits only on success",
     "A new attempt at a quantum is skipped without touching the repository if skipping was requested and the quantum "
     "is already complete, is refused without touching the repository if outputs exist and neither skipping applies "
     "nor clobbering was requested, and otherwise first removes everything earlier attempts left. The quantum's "
     "metadata is stored if and only if the attempt succeeded (doing nothing for lack of inputs counts), logs are "
     "stored whether it succeeded or failed, and the original error is what the caller sees. At no time, even if the "
     "process dies between any two writes, does the repository combine metadata or outputs of different attempts.",
     ["histories", "crash_points", "configurations", "inputs"],
     "for every sequence of attempts with any options, missing inputs, outputs written, way of ending, and crash point",
     "tests run one or two attempts without crashes",
     ["single_quantum_executor.py", "log_capture.py"],
     [("SingleQuantumExecutor", "single_quantum_executor.py"), ("LogCapture", "log_capture.py")], TV,
     "All 2-attempt (thorough: 3) histories of the specification; 4-attempt TLC histories and random histories up to 6 "
     "attempts are run on an in-memory butler with injected crashes and on a real SQLite/file butler.")

prop("P06", "The repository records every attempt at a quantum, and what it really did",
     "The log stored for a quantum carries, in order and exactly once, every earlier attempt made in the same run with "
     "its own messages, error and (only if it failed) metadata, and the quanta the process had run before. The stored "
     "metadata is that of the successful attempt, lists exactly the outputs written, and flags exactly the caveats "
     "that apply: no work, unprocessable data, upstream failure, partial outputs, some or all outputs missing.",
     ["histories", "configurations"],
     "for every sequence of attempts, in memory and when logs are streamed to a file",
     "tests look at one retry with one kind of butler",
     ["log_capture.py", "single_quantum_executor.py", "_status.py"],
     [("_ExecutionLogRecordsExtra, LogCapture", "log_capture.py"), ("QuantumSuccessCaveats", "_status.py")], TV,
     "Same histories as for re-running; the judged record is the metadata and log content read back from the butler.")

prop("P07", "Rebuilding a graph skips finished work, reruns the rest and guards outputs",
     "When a quantum graph is built with earlier runs to skip, exactly the quanta whose metadata exists there are left "
     "out, and downstream quanta read the outputs found there, or go without those that are missing; if retained "
     "dataset types are declared, exactly the finished quanta whose non-retained outputs are needed again are put "
     "back. A build that would predict an output already present in the output run is refused unless clobbering is "
     "enabled, in which case the existing dataset's identity is reused.",
     ["histories", "crash_points", "configurations"],
     "for every pipeline, every state the repository can be left in by earlier (partial, failed, trimmed) runs, and "
     "every combination of skip, clobber, retention and output-run options",
     "tests check a few hand-made repository states with one option at a time",
     ["quantum_graph_builder.py", "quantum_graph_skeleton.py", "all_dimensions_quantum_graph_builder.py"],
     [("QuantumGraphBuilder skip-existing and retention", "quantum_graph_builder.py"),
      ("follow-up dataset queries", "all_dimensions_quantum_graph_builder.py")], TV,
     "TLC explores histories of build/execute/crash/trim/rebuild over two small pipelines (exhaustive for 2 rounds in "
     "the thorough tier) and replays sampled states in the real builder; random pipelines with random earlier runs "
     "are judged by the same specification. Uses an in-memory registry and four dimension combinations.")

prop("P08", "A built graph contains exactly the quanta and datasets the data supports",
     "For any pipeline and repository contents, a built quantum graph contains exactly the quanta implied by the data "
     "ID constraints and input datasets whose required inputs exist or will be produced (quanta with too few inputs, "
     "no work or no remaining outputs vanish along with everything that depended on them), with exactly the matching "
     "inputs, prerequisites, outputs and init datasets, each dataset having one identity shared by its producer and "
     "all consumers. Pruning removes exactly the quanta without an anchor downstream and their descendants; missing "
     "prerequisites or init inputs make the build fail.",
     ["inputs", "configurations"],
     "for every pipeline structure, set of existing inputs, user constraint and per-quantum adjustment",
     "tests build a handful of fixed pipelines in which all inputs exist",
     ["quantum_graph_builder.py", "quantum_graph_skeleton.py", "all_dimensions_quantum_graph_builder.py",
      "connections.py", "prerequisite_helpers.py"],
     [("QuantumGraphBuilder", "quantum_graph_builder.py"), ("QuantumGraphSkeleton", "quantum_graph_skeleton.py"),
      ("AllDimensionsQuantumGraphBuilder", "all_dimensions_quantum_graph_builder.py")], TV,
     "TLC enumerates all small build problems of two shapes (checking no dangling input, minima, pruning) and a sample "
     "is replayed; random pipelines of up to 5 tasks over five dimension combinations beyond that. Spatial and "
     "temporal joins are not covered.")

prop("P09", "Quantum graph files give back exactly the graph, however they are read",
     "Writing a predicted quantum graph and reading it back, in whole or in any sequence of partial reads, yields "
     "exactly the quanta, dataset links, dimension records and task information that were written for what was asked "
     "for, and nothing else; writing what was read, or going through the older file format, changes nothing. Changing "
     "the output run gives every quantum and every dataset the graph produces a new identity in the new run, "
     "consistently wherever it appears, and leaves the inputs it does not produce alone.",
     ["inputs", "histories"], "for every quantum graph, every order of partial reads, page size and compression setting",
     "tests read one or two graphs completely or for one subset",
     ["quantum_graph/_predicted.py", "quantum_graph/_common.py", "quantum_graph/_multiblock.py", "graph/graph.py"],
     [("PredictedQuantumGraphReader, PredictedQuantumGraphComponents", "quantum_graph/_predicted.py")], TV,
     "TLC explores all reading orders up to 3 operations (4 thorough) for what must be loaded; all 2-operation "
     "histories and random ones up to 4 are replayed on random graphs. Datastore records are not covered.")

prop("P10", "Every record of a multi-block file is found by its key, and only those are",
     "For any set of records written to a multi-block file, looking up a key returns exactly the record and blocks "
     "stored under it, or reports that the key is absent, whatever the page size, the distribution of keys and the "
     "lookups made before; reading everything returns each record once in key order, and streaming the blocks "
     "returns them in the order written.",
     ["inputs", "histories"], "for every key set, page size and sequence of lookups and full reads",
     "tests use one random key set and default pages; lookups next to page boundaries are a matter of luck",
     ["quantum_graph/_multiblock.py"],
     [("AddressReader, AddressWriter, MultiblockReader, MultiblockWriter", "quantum_graph/_multiblock.py")], TV,
     "Exhaustive for all key sets within 5 (thorough 7) consecutive values, all page sizes and 2 lookups; random "
     "files of up to 40 keys. Corrupt files are out of scope.")

prop("P11", "Aggregation records every finished quantum and keeps what exists, exactly once",
     "Aggregating a run, with any number of workers and any interleaving of their messages, ingests exactly the "
     "datasets that executed quanta left behind (each once, excluding what is configured to be left out) and writes a "
     "provenance graph that states, for every quantum, what its execution left behind. Quanta that are not known to be "
     "finished are not passed off as finished unless incomplete runs were declared acceptable, and a second "
     "aggregation of the same or of a further advanced run adds exactly what is new. The result does not depend on the "
     "number of workers or on how their messages interleave.",
     ["schedules", "inputs", "histories", "configurations"],
     "for every outcome of an execution, worker count, threads or processes, interleaving and repetition",
     "tests aggregate a few executions with the interleavings the operating system happens to produce",
     ["quantum_graph/aggregator/_supervisor.py", "quantum_graph/aggregator/_scanner.py",
      "quantum_graph/aggregator/_ingester.py", "quantum_graph/aggregator/_writer.py",
      "quantum_graph/aggregator/_communicators.py"],
     [("Supervisor", "quantum_graph/aggregator/_supervisor.py"), ("Scanner", "quantum_graph/aggregator/_scanner.py"),
      ("Ingester", "quantum_graph/aggregator/_ingester.py"), ("Writer", "quantum_graph/aggregator/_writer.py")],
     TV + " (deterministic scheduler in place of threads, processes and queues, plus real spawned processes)",
     "TLC explores the supervisor/scanner/ingester/writer protocol including failures; real aggregations run under "
     "seeded schedules on SQLite repositories. Message latency is bounded by the scheduler's choices.")

prop("P12", "A failing aggregation stops everything, says so, and can be repeated",
     "If any aggregation worker raises, dies without a word, cannot be started, or the user interrupts, then the whole "
     "aggregation ends by itself in bounded time, raises an error, and leaves no worker behind. "
     "Whatever it had already ingested is valid, and running it "
     "again completes the job as if nothing had happened.",
     ["schedules", "fault_sequences", "crash_points"],
     "for every fault of every worker at every point, and every interleaving",
     "tests do not inject worker failures at chosen points",
     ["quantum_graph/aggregator/_communicators.py", "quantum_graph/aggregator/_supervisor.py",
      "quantum_graph/aggregator/_workers.py"],
     [("SupervisorCommunicator, WorkerCommunicator", "quantum_graph/aggregator/_communicators.py")],
     TV + " (deterministic scheduler with injected faults, plus real processes that are killed)",
     "Faults: exceptions inside each worker's real work, sudden death, interrupts, failure to start; liveness is "
     "checked on the protocol specification, termination of the code by exhausting the scheduler.")

prop("P13", "Provenance graphs state what really happened to each quantum and dataset",
     "A provenance graph lists every quantum reported to it once, with the status, exception, caveats, attempts, logs "
     "and metadata implied by what its execution left behind, and every dataset with whether it was produced. Any "
     "sequence of partial reads agrees with a full read, and reports made from it count each quantum in exactly the "
     "right category. A provenance file written during in-process execution agrees with what was executed and stored.",
     ["inputs", "histories", "fault_sequences"],
     "for every combination of leftovers of an execution (earlier attempts, logs, metadata, outputs), every mixture of "
     "blocked and executed quanta, and every sequence of reads",
     "tests examine the provenance of a few runs, with at most one failure each",
     ["quantum_graph/_provenance.py", "quantum_graph/formatter.py", "mp_graph_executor.py", "_status.py"],
     [("ProvenanceQuantumGraph, its reader, writer and scan models", "quantum_graph/_provenance.py"),
      ("provenance of in-process runs", "mp_graph_executor.py")], TV,
     "Derivation of one quantum's record is enumerated exhaustively for up to 2 earlier attempts (thorough 3); "
     "file contents and reads, and whole executed graphs with planned failures, are randomized.")

prop("P14", "Ingesting provenance never loses content and can resume from any crash",
     "Ingesting a provenance graph ends with the graph in the repository and every metadata, log and config dataset "
     "the run produced readable with its original content through the graph, the original files and their emptied "
     "directories gone, and everything else untouched. If it is stopped at any point, that content is still in the "
     "original files or in the ingested graph, nothing listed in the repository is unreadable, and running it again "
     "(from the file, or without it once the graph is in) completes the job.",
     ["crash_points", "histories", "configurations"],
     "for every run, batch size, transfer mode, crash point (also repeated) and way of resuming",
     "tests ingest once or twice and do not stop between operations",
     ["quantum_graph/ingest_graph.py", "quantum_graph/formatter.py"],
     [("_GraphIngester", "quantum_graph/ingest_graph.py"), ("ProvenanceFormatter", "quantum_graph/formatter.py")],
     TV,
     "All crash histories for 3 datasets and 2 crashes (thorough 4) are explored; sampled ones are replayed on SQLite "
     "repositories, ending the process around every change to files or database.")

prop("P15", "Every edit of a pipeline graph happens as specified or changes nothing",
     "Adding, removing and reconfiguring tasks, editing subsets and steps, resolving, sorting, copying and saving a "
     "pipeline graph either has exactly the specified effect or is refused and leaves the graph as it was; whatever "
     "the history, nodes, edges, producers, consumers and views agree with the tasks. A graph that says it is sorted is "
     "in topological order and follows its steps, one whose steps are verified has steps that partition the tasks "
     "without backward data flow, and copies and saved graphs equal the original and are independent of it.",
     ["histories", "inputs"],
     "for every sequence of edits, including refused ones",
     "tests exercise a few edits of one small graph",
     ["pipeline_graph/_pipeline_graph.py", "pipeline_graph/_task_subsets.py", "pipeline_graph/_tasks.py",
      "pipeline_graph/io.py"],
     [("PipelineGraph", "pipeline_graph/_pipeline_graph.py"), ("TaskSubset, StepDefinitions",
      "pipeline_graph/_task_subsets.py"), ("SerializedPipelineGraph", "pipeline_graph/io.py")],
     TV,
     "All edit sequences of length 3 (thorough 4) over 3 labels are explored in the specification; sampled sequences of "
     "length 14 and random ones with up to 6 tasks are replayed on real graphs, judging every state.")

prop("P16", "Every dataset type of a pipeline has one definition all its users can live with",
     "Resolving a pipeline gives every dataset type the definition registered in the repository, else the one of the "
     "task that writes it, else the one all its readers share, and succeeds exactly if every connection is compatible "
     "with it (same dimensions and calibration flag, or an existing component; convertible storage class, consistent "
     "prerequisite status, a single writer), raising the documented kind of error otherwise, regardless of the order of tasks or of earlier "
     "resolutions. Each task then sees the dataset type with its own storage class or component, exactly the plain "
     "inputs of the pipeline constrain the initial query unless deferred, and registering or checking the "
     "pipeline's dataset types in a repository covers exactly these definitions.",
     ["inputs", "configurations", "histories"],
     "for every registered definition, set of writers and readers, and order",
     "tests cover a handful of pairs of connections",
     ["pipeline_graph/_edges.py", "pipeline_graph/_dataset_types.py", "pipeline_graph/_pipeline_graph.py"],
     [("ReadEdge, WriteEdge", "pipeline_graph/_edges.py"), ("DatasetTypeNode", "pipeline_graph/_dataset_types.py")],
     TV,
     "Order independence is explored exhaustively for 2 readers (thorough 3) over an abstract set of storage classes; "
     "random combinations with real storage classes are resolved in the code and judged. Trusts the butler's "
     "statements about which storage classes convert.")

prop("P17", "Selections and queries of a pipeline graph return exactly what is meant",
     "Selecting tasks of a pipeline graph by a boolean expression over task labels, subsets, dataset types and "
     "upstream or downstream searches gives exactly the tasks the expression denotes, in a graph that keeps their "
     "definition, order and resolution, and leaves the original alone; an expression that is malformed or names "
     "something that does not exist is refused with the documented error. Every structural query and exported view "
     "(task, dataset and bipartite graphs, inputs and outputs of tasks, producers and consumers of datasets, overall "
     "inputs, tasks between, lists of edges) states exactly the relations the tasks' connections define. Splitting a "
     "pipeline into independent parts gives exactly its connected components, losing nothing.",
     ["inputs", "configurations"], "for every pipeline graph and every expression or query",
     "tests evaluate a few expressions and queries on one fixed graph",
     ["pipeline_graph/_pipeline_graph.py", "pipeline_graph/expressions.py", "pipeline_graph/_tasks.py",
      "pipeline_graph/_mapping_views.py"],
     [("PipelineGraph.select", "pipeline_graph/_pipeline_graph.py"), ("expressions", "pipeline_graph/expressions.py")],
     TV,
     "TLC enumerates all expressions up to 5 (thorough 6) tokens over a fixed graph and checks algebraic laws; those up "
     "to 3 (thorough 4) tokens are evaluated by the code and judged; random graphs and longer expressions beyond that. A label that names both a task and a "
     "subset is left open.")

prop("P18", "Loading, combining, reducing and editing pipelines gives what was asked for",
     "Loading a pipeline document with imports (including, excluding and renaming labels, keeping or dropping "
     "contracts, steps and instrument), merging pipelines, reducing one to labels, subsets or a range, and editing "
     "tasks, subsets, parameters and instruments gives exactly the tasks, subsets, steps, contracts, parameters and "
     "instrument the documentation calls for, or raises the documented kind of error and changes nothing. Writing a "
     "pipeline and reading it back, copying it, and turning it into a graph all preserve that definition. No such "
     "operation changes any other pipeline or any argument it was given.",
     ["inputs", "histories", "configurations"], "for every set of documents importing each other and every sequence of edits",
     "tests load a handful of documents and apply one operation to each",
     ["pipelineIR.py", "pipeline.py"],
     [("PipelineIR", "pipelineIR.py"), ("Pipeline", "pipeline.py")],
     TV,
     "All histories of one (thorough two) operations on small pipelines are explored by TLC for validity and algebraic "
     "laws; random documents (up to 4, nested imports) with up to 7 operations are run in the code and judged. Left "
     "open: contracts that mention a renamed label, imports that disagree about a parameter, removing a task that a "
     "subset or contract still mentions.")

prop("P19", "Config overrides apply in documented order, and contracts judge the result",
     "The configuration of every task of a pipeline is its defaults, then the instrument's overrides, then those of "
     "imported pipelines, then its own, each block in the order files, code, single values with parameters "
     "substituted, then later edits in the order they were made. This does not depend on how the pipeline was "
     "combined, copied or written and read back. Making a graph fails for a violated contract if and only if a "
     "contract of the pipeline is violated by these configurations.",
     ["inputs", "histories", "configurations"], "for every combination of documents, instruments, overrides and contracts",
     "tests apply one or two kinds of override to one task",
     ["config.py", "configOverrides.py", "pipelineIR.py", "pipeline.py"],
     [("ConfigOverrides", "configOverrides.py"), ("applyConfigOverrides", "config.py"), ("ContractIR", "pipelineIR.py")],
     TV,
     "Same histories as P18. Contracts compare two fields or a field and a constant, written in four syntactic forms.")

prop("P20", "Regions, sky pixels and times decide which data meet in a quantum",
     "When observations, sky-map regions and sky pixels are related by position, a built graph has a quantum for "
     "exactly the data IDs whose regions overlap, reading exactly the overlapping datasets that exist, restricted by "
     "the user's expression and tables of data IDs. Sky pixels that no repository lists are generated from the "
     "regions of the data they are joined to. Prerequisites are the datasets that overlap the quantum (or the bounds "
     "its task declares) in sky and time, a calibration being the one valid then, with ambiguity refused.",
     ["inputs", "configurations"], "for every sky, pipeline over observations, sky map and pixels, set of datasets and validity ranges",
     "tests build graphs over one fixed repository with a handful of regions",
     ["all_dimensions_quantum_graph_builder.py", "prerequisite_helpers.py", "quantum_graph_builder.py"],
     [("AllDimensionsQuantumGraphBuilder", "all_dimensions_quantum_graph_builder.py"),
      ("PrerequisiteFinder", "prerequisite_helpers.py"), ("_DimensionGroupTree", "all_dimensions_quantum_graph_builder.py")],
     TV,
     "TLC enumerates small skies (two visits, three patches, one change of calibrations), whose builds are replayed; "
     "random skies with up to 4 visits, 2 tracts and 6 patches beyond that. Left open: lookups that raise "
     "NotImplementedError, three families of regions in one query, queries a dataset with two regions joins by itself, "
     "and bounds connections that leave gaps in time.")

prop("P21", "The report on a campaign tells what happened to every quantum and dataset",
     "From the graphs of a campaign in order and the datasets that exist, the report lists every quantum with its status in "
     "each run and overall, and every predicted dataset with its status: success needs both metadata and log, a success "
     "that is lost or whose log is missing stays flagged, and a visible dataset of an unsuccessful quantum is cursed. Counts, "
     "lists, tables, caveats, exceptions and messages of the summary agree with those statuses, however the runs overlap and "
     "whatever else the collections hold. Summaries of parts of a campaign aggregate to the sum of the parts.",
     ["histories", "fault_sequences", "inputs"],
     "for every sequence of graphs and runs, outcome of each quantum, order of collections and reading mode",
     "tests look at a handful of hand-made rescue campaigns",
     ["quantum_provenance_graph.py", "_status.py"],
     [("QuantumProvenanceGraph", "quantum_provenance_graph.py"), ("Summary", "quantum_provenance_graph.py")],
     TV,
     "TLC enumerates all campaigns of two chained tasks over three rounds (four in the thorough tier) and checks what the "
     "report may claim; samples of those are replayed and random campaigns of up to 3 graphs, 3 tasks and 3 detectors "
     "with shared, skipped and unrelated runs are judged.")

prop("P22", "Caching and waiting butlers behave as the butler they wrap",
     "Whatever was put, read, changed in memory, removed or refused before, reading, writing, listing or removing "
     "datasets through a caching butler gives the value, the converted type, the component or the error that the "
     "wrapped butler would give. A waiting butler returns a dataset as soon as it appears, waits only for the dataset "
     "types it was told to wait for and no longer than their timeout, and otherwise behaves as the butler it wraps.",
     ["histories", "configurations", "fault_sequences"],
     "for every history of operations, failing stores, cached and uncached types, and moment at which datasets appear",
     "tests put and get one dataset per configuration",
     ["caching_limited_butler.py", "blocking_limited_butler.py"],
     [("CachingLimitedButler", "caching_limited_butler.py"), ("BlockingLimitedButler", "blocking_limited_butler.py")],
     TV,
     "TLC enumerates all histories of four (thorough five) operations on two datasets; those are replayed against the "
     "real classes, and random histories with components, storage class conversions, failing puts and a virtual clock "
     "are judged. Left open: in-place changes to types declared not to need copies.")

prop("P23", "A task reads and writes exactly its quantum's datasets",
     "Whatever a task drops from its quantum when offered to adjust it, it is then handed, per connection, exactly the "
     "remaining datasets in the declared form (one or several, loaded or deferred), with adjustments that add datasets "
     "or leave too few refused by the documented error. Through its context it can read only its quantum's inputs and "
     "write only its quantum's outputs. The record of what was used and written is exact, also after a call fails half way.",
     ["inputs", "histories", "fault_sequences"],
     "for every set of connections, adjustment, history of reads and writes, and dataset that is missing or fails to be stored",
     "tests adjust and run a few fixed quanta",
     ["connections.py", "_quantumContext.py"],
     [("PipelineTaskConnections.buildDatasetRefs", "connections.py"), ("AdjustQuantumHelper", "connections.py"),
      ("QuantumContext", "_quantumContext.py")],
     TV,
     "TLC enumerates histories of two (thorough three) reads and writes with faults on a small quantum; these are "
     "replayed, and random connections, quanta and histories are judged. Left open: lists to put that contain None, "
     "single connections with several output datasets.")

prop("P24", "A task's connections are exactly what its class and configuration declare",
     "The connections of a task are those its class and base classes declare, with names formatted from the defaults "
     "and the configured templates or replaced by configured names, changed only by what its constructor adds, "
     "replaces or removes. Sets of names, mappings, attributes and dimensions agree with each other at all times and "
     "cannot be changed once construction has ended. Contradictory declarations are refused with the documented error.",
     ["programs", "configurations", "inputs"],
     "for every hierarchy of connections classes, configuration and constructor",
     "tests declare a handful of connections classes",
     ["connections.py", "connectionTypes.py", "config.py"],
     [("PipelineTaskConnectionsMetaclass", "connections.py"), ("PipelineTaskConnections", "connections.py")],
     TV,
     "TLC enumerates constructor scripts of three (thorough five) edits; these are replayed, and random hierarchies of "
     "up to four classes with templates and configurations are judged. Left open: two bases declaring the same "
     "connection, unused templates named like a connection.")

prop("P25", "Initialising an output run writes what is missing and replaces nothing",
     "Whatever an output run and its inputs already hold, initialising the run for a pipeline or a graph leaves exactly one "
     "configuration per task, one of each init-output and one set of package versions in it, equal to what the current "
     "tasks and environment produce. Existing ones are kept if they agree and refused with the documented error "
     "otherwise, nothing is overwritten, and a repeated or interrupted initialisation can be completed. Tasks are "
     "constructed with the init-inputs the pipeline connects them to, and no task can alter what another task is given.",
     ["histories", "configurations", "fault_sequences"],
     "for every pipeline, content of the collections, history of initialisations and option",
     "tests initialise one or two pipelines in an empty run",
     ["pipeline_graph/_pipeline_graph.py", "quantum_graph/_predicted.py", "graph/graph.py", "separable_pipeline_executor.py"],
     [("PipelineGraph.init_output_run", "pipeline_graph/_pipeline_graph.py"),
      ("PredictedQuantumGraph.init_output_run", "quantum_graph/_predicted.py"),
      ("SeparablePipelineExecutor.pre_execute_qgraph", "separable_pipeline_executor.py")],
     TV,
     "TLC enumerates all histories of two to three (thorough three to four) initialisations and edits of runs that differ "
     "in tasks, configuration and packages; behaviours are replayed against real repositories and random pipelines with chained init datasets "
     "are judged after every step.")

prop("P26", "Task metadata keeps what tasks put in it",
     "After any sequence of assignments, additions, deletions and refused operations, lookups, membership, names and "
     "conversions of task metadata give exactly the values and types that were put in under those hierarchical keys, and a "
     "refused operation changes nothing. Copies made through JSON, dictionaries or copying are equal and independent. The "
     "full metadata of a tree of tasks holds the metadata of each of them under its full name.",
     ["histories", "inputs"],
     "for every sequence of operations, key, value and tree of tasks",
     "tests set and read a dozen keys",
     ["_task_metadata.py", "task.py"],
     [("TaskMetadata", "_task_metadata.py"), ("Task.getFullMetadata", "task.py")],
     TV,
     "TLC enumerates all histories of three (thorough four) operations on nested keys; those are replayed and random "
     "histories with every kind of value, refused values and copies are judged after each step. Left open: clearing the "
     "metadata of a subtask, dictionary form of entries that are not mappings.")

prop("P27", "Parts, files and queries of older graphs agree with the whole",
     "For every older-style quantum graph, its queries (inputs, outputs, tasks, dataset types, neighbours, dataset "
     "references and their counts) agree with its quanta; subsets and connected parts are exactly those parts and keep "
     "the identity of quanta. Saving, loading in whole or in part, copying between processes and changing the output run "
     "give a graph with the same quanta, edges, datasets and header data apart from what was asked to change.",
     ["inputs", "configurations", "histories"],
     "for every graph, part of it, way of loading it, and change of run",
     "tests save, load and subset one or two fixed graphs",
     ["graph/graph.py", "graph/_loadHelpers.py", "graph/_versionDeserializers.py", "graph/quantumNode.py",
      "graph/_implDetails.py"],
     [("QuantumGraph", "graph/graph.py"), ("LoadHelper", "graph/_loadHelpers.py"),
      ("DeserializerV3", "graph/_versionDeserializers.py")],
     TV,
     "TLC enumerates all histories of three (thorough five) operations on all graphs of three quanta, checking what a part "
     "is; those of two are replayed and random graphs with prerequisites, components, init datasets and duplicate data IDs are judged. "
     "Left open: init datasets of subsets.")
