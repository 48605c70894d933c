----------------------------- MODULE IngestGraph ----------------------------
(* Moving a run's metadata, logs and configs into its provenance graph:    *)
(* the central repository forgets the datasets, the graph is ingested, the *)
(* original files are deleted and the datasets ingested again, backed by   *)
(* the graph, all in batches; the process can stop anywhere.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

ISeqSet(s) == {s[i] : i \in 1..Len(s)}

(* State of the repository as far as a managed dataset is concerned:       *)
(* file  whether the original file is there                                *)
(* reg   "none", "orig" or "graph": what the repository says backs it      *)
(* and graph, one of "out" or "in".                                        *)
Consistent(file, reg, graph) ==
    /\ (reg = "orig") => (file /\ graph = "out")
    /\ (reg = "graph") => graph = "in"
    /\ (~file) => graph = "in"

(* r.views: Seq([graph, ds: Seq([file, reg, content]), others, extra]), one*)
(* before the first run and one after each run; r.runs: Seq([outcome,      *)
(* crashed]).  content is "ok" if what the repository returns is what was  *)
(* stored, "bad" otherwise and "none" if it does not list the dataset.     *)
(* extra: directories and files that nothing may touch.                    *)
IGClauses == {"ingest-raises", "ingest-content-lost", "ingest-inconsistent", "ingest-unreadable", "ingest-incomplete",
              "ingest-originals-left", "ingest-graph-missing", "ingest-others-touched", "ingest-graph-forgotten",
              "ingest-graph-content", "ingest-empty-directories"}

IGOK(r, k) ==
    LET n == Len(r.views)
        last == r.views[n]
        done == ~r.runs[Len(r.runs)].crashed
    IN
    CASE k = "ingest-raises" -> \A i \in 1..Len(r.runs) : r.runs[i].crashed \/ r.runs[i].outcome = ""
      [] k = "ingest-content-lost" -> \A i \in 1..n : \A d \in ISeqSet(r.views[i].ds) : d.file \/ r.views[i].graph = "in"
      [] k = "ingest-inconsistent" -> \A i \in 1..n : \A d \in ISeqSet(r.views[i].ds) : Consistent(d.file, d.reg, r.views[i].graph)
      [] k = "ingest-unreadable" -> \A i \in 1..n : \A d \in ISeqSet(r.views[i].ds) : d.content # "bad"
      [] k = "ingest-incomplete" -> done => \A d \in ISeqSet(last.ds) : d.reg = "graph" /\ d.content = "ok"
      [] k = "ingest-originals-left" -> done => \A d \in ISeqSet(last.ds) : ~d.file
      [] k = "ingest-graph-missing" -> done => last.graph = "in"
      [] k = "ingest-others-touched" -> \A i \in 1..n : r.views[i].others = r.views[1].others /\ r.views[i].extra = r.views[1].extra
      [] k = "ingest-graph-forgotten" -> \A i \in 1..(n - 1) : r.views[i].graph = "in" => r.views[i + 1].graph = "in"
      [] k = "ingest-graph-content" -> \A i \in 1..n : r.views[i].graphok
      [] k = "ingest-empty-directories" -> (done /\ Len(r.runs) = 1) => last.emptydirs = <<>>

IGVerdict(r) == {k \in IGClauses : ~IGOK(r, k)}
=============================================================================
