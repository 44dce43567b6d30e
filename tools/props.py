T = "runtime monitoring: online oracle over generated executions of the real code "

prop("C01", "store", "Saved telemetry comes back complete and unchanged",
 "Every data point, log record and span that was saved is returned by a scan covering its time, exactly once, with its own resource, scope, metric and every field unchanged. Nothing that was not saved is ever returned.",
 ["inputs", "histories"], "all OTLP metrics, logs and traces payloads, in any number of save batches, over any hours",
 "The tests save one recorded metrics file and compare one answer; logs, traces, nested values, absent versus empty messages, several batches into the same period and several periods are all unbounded inputs they never touch.",
 ["internal/store/store.go", "internal/store/scan.go", "internal/dataframe/dataframe.go", "internal/arrow3/node.go", "internal/data/data.go"],
 [("columnar frame per period, sample id is the row", "internal/dataframe/dataframe.go Append/appendView"), ("reading rows back", "internal/dataframe/dataframe.go View/read"), ("merging samples of an answer", "internal/data Collapse*")],
 T + "against a conservation (multiset of leaves) oracle and message equality", "reference list of what was saved; generated payloads incl. unusual but legal ones")

prop("C02", "store", "Filters select exactly the samples that carry every requested label",
 "A scan with filters returns all samples of the requested signal that carry every one of the requested labels, and no other sample. A label nobody ever saved gives an empty document of the requested kind, never an error or unrelated data.",
 ["inputs", "histories"], "all sets of saved samples and all filter sets, wherever the labels' ids lie (any number of labels ever seen)",
 "Existing tests ask for one resource attribute on one data set; conjunctions, misses, other signals and label ids beyond the first 65536 or 1048576 labels are never executed.",
 ["internal/store/scan.go", "internal/shards/shards.go", "internal/batch/batch.go", "internal/transform/transform.go", "internal/labels/labels.go"],
 [("labels of a sample", "internal/transform"), ("bitmap index by label", "internal/batch, internal/shards"), ("filters to label ids, intersection", "internal/store/scan.go CompileFilters, internal/shards Rows")],
 T + "with a reference model recomputing each sample's labels", "labels are spread over id regions by abandoning id leases, so multi-container and multi-shard indexes are reached")

prop("C03", "store", "A time range returns everything in it and nothing from untouched hours",
 "A scan of [start, end) returns every matching sample whose earliest known timestamp lies in the range, whatever the range's length and alignment. It never returns a sample from an hour the range does not touch, and never returns one twice.",
 ["inputs", "histories"], "all ranges (from nanoseconds to centuries, aligned or not) and all sample times, including unknown (zero) timestamps",
 "The tests pin the views of three hand-picked ranges and never compare a scan over a range with the times of saved samples; calendar edges make the space of ranges unbounded.",
 ["internal/view/view.go", "internal/x/x.go", "internal/batch/time.go", "internal/dataframe/dataframe.go", "internal/transform/transform.go"],
 [("views covering a range", "internal/view Search"), ("views of a sample", "internal/batch QuantizedTime"), ("time of a sample", "internal/transform Range/Timestamp")],
 T + "with a reference model of sample times", "bounds on, next to and away from samples and calendar edges")

prop("C04", "store", "A scan without a time range answers with the latest matching sample",
 "A scan without time range returns exactly one sample, unchanged: the latest saved one among the matching samples of the last 15 minutes before the evaluation time (moved back by the offset), or an empty document when there is none.",
 ["inputs", "histories"], "all histories of saves, evaluation times, offsets and filters",
 "One test evaluates one instant with no competing samples from other signals, hours or offsets.",
 ["internal/store/scan.go", "internal/x/x.go", "internal/shards/shards.go"],
 [("evaluation window", "internal/x TimeBounds"), ("choice of the last row", "internal/store/scan.go Scan")],
 T + "with a reference model", "the window is resolved to whole hours, as all ranges are")

prop("C05", "store", "A clean restart changes nothing",
 "After shutting the store down and opening it again in the same directory, every scan and every sample's index answers as before, and further samples are saved and found together with the old ones.",
 ["histories"], "all sequences of open, save, scan, close over the same directory",
 "No existing test ever reopens a data directory.",
 ["internal/shards/shards.go", "internal/translate/translate.go", "internal/seq/seq.go", "internal/store/store.go", "cmd/rq/main.go"],
 [("index shards reopened", "internal/shards load/open"), ("label dictionary and id sequences persisted", "internal/translate, internal/seq")],
 T + "across generations of the on-disk store, with a reference model", "on-disk stack opened with the server's options and order")

prop("C06", "store", "A crash loses no acknowledged sample and leaves no torn one",
 "After the process is killed at any moment, the store opens again and every sample whose saving was acknowledged is returned complete by time range and by its labels. A sample being saved at that moment is returned complete or not at all, and the store keeps accepting samples.",
 ["crash_points", "histories"], "all moments a process can be killed at, repeatedly, during opening, saving and closing",
 "Tests never kill a process; the moments between the writes of the key-value store and of the index are only reached by crashing there.",
 ["internal/store/store.go", "internal/shards/shards.go", "internal/dataframe/dataframe.go"],
 [("frames written before the index, each in a transaction", "internal/store SaveSamples"), ("index transactions", "internal/shards Update")],
 "runtime monitoring: crash injection (SIGKILL by time, by system call and at chosen commits of the key-value store) into child processes, offline oracle over their begin/acknowledge logs and the recovered state", "kill points are timed, the n-th write/sync/truncate/rename/mmap call, or before or after a chosen commit; process crash, not power loss", level="fault_enumeration", env="ZV_COMMITS=1")

prop("C29", "store", "Limit and reverse give the first or last matching samples in order",
 "A scan with a limit of n returns the n earliest matching samples, or the n latest when reversed; reversed answers list samples latest first. No limit, or one larger than the number of matches, returns all of them.",
 ["inputs", "histories"], "all limits, orders, filters and saved histories",
 "No existing test sets a limit or asks for reverse order.",
 ["internal/store/scan.go", "internal/data/data.go"],
 [("cutting and ordering rows", "internal/store/scan.go limitSamples, Scan")],
 T + "with a reference model of the expected sample sequence", "samples arrive in time order and ranges are whole hours")

prop("C07", "svc", "Every export the server acknowledged is stored exactly once",
 "Once an OTLP export call returns success, its data is stored completely and exactly once and scans return it, whatever the concurrency, buffering, interleaving with periodic flushes, or a graceful shutdown (SIGINT or SIGTERM of rq) directly afterwards. Data of a call that failed is stored at most once.",
 ["schedules", "histories"], "all interleavings of concurrent exports, flushes and graceful shutdown",
 "The existing test exports one document sequentially and never stops the server; loss windows between buffer, flusher and shutdown are schedules.",
 ["internal/service/service.go", "internal/f2/pool.go", "internal/store/store.go", "internal/seq/seq.go", "cmd/rq/main.go"],
 [("buffering and flushing of exports", "internal/service/service.go Start/build/save"), ("final flush at shutdown", "internal/service/service.go Close, cmd/rq/main.go")],
 "runtime monitoring: client-side ledger of acknowledged exports against an offline exactly-once oracle over the stored state, concurrent clients over real gRPC, and the real rq binary stopped by signals", "flush interval shortened by the verif hook so that many flushes interleave with exports", env="ZV_PROCS=1")

prop("C08", "svc", "Scans under concurrent writes are consistent",
 "A scan running while samples are saved returns every matching sample acknowledged before it began and only whole samples whose saving had begun. What one client saw in a scan it sees in its later scans too.",
 ["schedules"], "all interleavings of scans and saves, with and without filters and time ranges",
 "No existing test runs a scan and a save at the same time; visibility of half-applied batches depends on the schedule.",
 ["internal/store/store.go", "internal/store/scan.go", "internal/shards/shards.go", "internal/service/service.go"],
 [("frames saved before index bits", "internal/store SaveSamples"), ("index read snapshots", "internal/shards View"), ("frame read snapshots", "internal/dataframe View")],
 "runtime monitoring: recorded history of concurrent saves and scans, checked against a monotone-visibility (regular register set) specification", "", env="ZV_PROCS=2")

prop("C09", "svc", "A label keeps one id forever and no two labels share one",
 "The dictionary gives one label the same id on every call, from any goroutine, after any restart and after a crash once the id was handed out and committed. Two different labels never share an id, and looking up a label nobody stored finds nothing and stores nothing.",
 ["inputs", "schedules", "crash_points"], "all label byte strings of any length, all interleavings of lookups and allocations, all restarts",
 "The existing test translates a handful of short keys on one goroutine and never reopens.",
 ["internal/translate/translate.go", "internal/keys/keys.go"],
 [("key to id with allocation", "internal/translate TranslateKey/TranslateBulkID"), ("lookup without allocation", "internal/translate Tr/Find")],
 "runtime monitoring: online reference dictionary (injective and stable) over concurrent histories, restarts and crashes", "", env="ZV_PROCS=4")

prop("C10", "svc", "Sample ids are unique and grow over the life of the data",
 "No sample id is ever handed out twice, and ids grow, for all goroutines together, across restarts and crashes of the process.",
 ["schedules", "crash_points", "histories"], "all interleavings of allocations and all restarts and kills",
 "No existing test allocates concurrently or reopens the sequence.",
 ["internal/seq/seq.go"],
 [("leased badger sequence", "internal/seq/seq.go")],
 "runtime monitoring: uniqueness and order oracle over the ids recorded by concurrent and killed allocators", "", env="ZV_PROCS=4")

prop("C11", "index", "The on-disk index answers exactly what was written to it",
 "For all inserted rows (id, time, set of columns) a search over a time range for a set of columns returns exactly the rows of touched hours that have all the columns, and a row lookup returns exactly its columns. Failed updates leave nothing, and reopening or first opening by many goroutines at once changes nothing.",
 ["inputs", "histories", "schedules"], "all sets of rows and columns over any containers and shards, all histories of updates, failures, lookups and reopenings, all interleavings of first openings",
 "The index package has no tests at all.",
 ["internal/shards/shards.go", "internal/rows/row.go", "internal/view/view.go"],
 [("search over views and shards", "internal/shards Rows/match"), ("row lookup", "internal/shards Row/row"), ("shards opened on demand", "internal/shards get/open/load")],
 T + "with a reference list of rows over recorded histories", "")

prop("C12", "index", "Index entries of a batch lie in exactly their shards, periods and rows",
 "Building the index entries of a batch puts every (row, column) once into the shard of the column under the year, month, day and hour of the row's time, and puts nothing anywhere else. Entries of one build never appear in, or change, another build.",
 ["inputs", "histories"], "all ids, times, column sets, and sequences of builds from one builder or many in parallel",
 "The single existing test writes its expected file from the result it checks and has one row in one shard.",
 ["internal/batch/batch.go", "internal/batch/time.go", "internal/bitmaps/bitmaps.go"],
 [("fragments of a batch", "internal/batch makeFragments/Build"), ("periods of a time", "internal/batch/time.go Views")],
 T + "against the fragments computed from their definition", "")

prop("C13", "index", "Labels and times of a sample depend on that sample only",
 "The labels a sample is indexed under are exactly those of its own resources, scopes, metric or span names, ids, severities and string attributes, plus the one of its signal; its recorded time span is that of its own entries. Neither depends on other samples, on the batch or on what was processed before.",
 ["inputs", "histories"], "all telemetry payloads and all ways to batch them",
 "One test compares labels of one metrics file; logs and traces, several samples per batch and reused contexts are unbounded inputs.",
 ["internal/transform/transform.go", "internal/transform/metrics.go", "internal/transform/logs.go", "internal/transform/trace.go", "internal/batch/batch.go"],
 [("labels of telemetry", "internal/transform"), ("time span of telemetry", "internal/transform Range/Timestamp")],
 T + "against labels and times recomputed from the telemetry", "")

prop("C14", "index", "Different labels never have the same encoding",
 "The encoded form of a label determines its signal, kind, key and value: two different labels are never encoded alike whatever characters they contain, and one label is always encoded the same way, also on reused and pooled objects in parallel.",
 ["inputs", "schedules"], "all label texts (separators, escapes, empty, binary) and interleavings of pooled encoders",
 "No existing test encodes a label with a separator in it.",
 ["internal/labels/labels.go"],
 [("escaping and joining", "internal/labels Encode")],
 T + "with an injectivity oracle over everything encoded", "")

prop("C15", "dataq", "Merging documents keeps everything and groups what belongs together",
 "Merging the documents of an answer keeps every data point, log record and span exactly once under its own resource, scope and metric, in order. Entries of equal resource, scope and metric are grouped; entries of different ones are never mixed, whatever their content.",
 ["inputs", "schedules"], "all lists of documents of a signal, merged by any number of goroutines at once",
 "One test merges one recorded list of metrics; logs and traces are never merged.",
 ["internal/data/data.go", "internal/data/sort.go", "internal/data/metrics.go", "internal/data/logs.go", "internal/data/trace.go"],
 [("identity of resource, scope, metric", "internal/data/sort.go"), ("merging", "internal/data Collapse*")],
 T + "with conservation, order and grouping oracles", "includes texts crafted to collide under 64-bit xxhash")

prop("C16", "dataq", "Client-side filtering keeps exactly the entries asked for",
 "Filtering a document keeps exactly the data points, log records and spans that are in the time range, have one of the requested values of each requested kind and carry all requested attributes of each level. They keep order, their fields, and those of their metric, scope and resource, and the document given is not changed.",
 ["inputs", "schedules"], "all documents, filters and time ranges, filtered by any number of goroutines at once",
 "One existing test filters one metrics document; logs, traces and most kinds of filters are never applied.",
 ["internal/visit/visit.go", "internal/visit/metrics.go", "internal/visit/logs.go", "internal/visit/trace.go", "internal/js/rq.go"],
 [("accepting entries", "internal/visit/visit.go Accept*"), ("rebuilding the document", "internal/visit/metrics.go, logs.go, trace.go"), ("filter of a script's scan", "internal/js/rq.go Scan")],
 T + "deciding every entry independently", "includes texts crafted to collide under 64-bit xxhash")

prop("C17", "codec", "Columnar storage gives back every message as it was written",
 "Messages of any signal written to the columnar store format, in any number of parts and with empty rows between them, are read back equal, at their rows, in order, whole or projected to their signal's columns. Appending to a written table changes no earlier row.",
 ["inputs", "histories"], "all telemetry messages, table sizes and sequences of writes, appends and projected reads, on any number of goroutines",
 "The existing tests compare schemas as text and round-trip one small message.",
 ["internal/arrow3/arrow3.go", "internal/arrow3/node.go", "internal/arrow3/parquet.go"],
 [("messages to columns", "internal/arrow3 node.go build/WriteMessage"), ("columns to messages", "internal/arrow3 unmarshal"), ("parquet files", "internal/arrow3 Write/Read/parquet.go")],
 T + "with a round-trip oracle (deep message equality and digests)", "")

prop("C18", "codec", "Stored samples stay in their rows whatever is saved around them",
 "After any sequence of saves (any signals, hours, gaps between ids and interleaving with reads and reopening), reading a sample's row in its hour and signal returns exactly that sample, rows of other ids are absent, and rows of other signals in the same hour are not returned as this signal's.",
 ["inputs", "histories"], "all histories of batches over periods, ids and signals",
 "The existing tests append to one frame in memory and never leave gaps between ids, mix signals or reopen.",
 ["internal/dataframe/dataframe.go", "internal/dataframe/columns.go", "internal/arrow3/arrow3.go"],
 [("frames by period and shard", "internal/dataframe Append"), ("reading rows of a frame", "internal/dataframe View")],
 T + "with a reference map of saved samples", "in-memory frames stay below badger's 1 MB value limit, the on-disk ones grow beyond it")

prop("C19", "codec", "Compression returns the original bytes or an error, never other bytes",
 "Decompressing what was compressed gives exactly the original bytes or message, for any content and size and from any number of goroutines sharing the pools. Damaged or truncated input gives an error rather than bytes that were never compressed, and leaves the pools usable.",
 ["inputs", "schedules"], "all inputs and damage to them, all interleavings over the shared pools",
 "No existing test compresses anything.",
 ["internal/compress/zstd.go", "internal/compress/grpc.go"],
 [("pooled encoders and decoders", "internal/compress/zstd.go"), ("gRPC codec over them", "internal/compress/grpc.go")],
 T + "with round-trip and damage-detection oracles", "")

prop("C20", "client", "A script's scans ask for exactly what the script says",
 "For every sequence of builder calls, each scan a script runs sends one request with exactly the resource, filters, limit, offset, order and time range the script set on that scan, relative ranges counted from its evaluation time. Scans built at once do not affect each other; invalid durations and failing scans raise errors in the script.",
 ["inputs"], "all sequences of builder calls over any number of scans, all texts, evaluation times and zones",
 "One test compares the request of a single scan with one filter.",
 ["internal/js/scan.go", "internal/js/rq.go", "internal/js/bundle/index.js", "internal/compile/compile.go"],
 [("builder", "internal/js/scan.go"), ("script library", "internal/js/bundle/index.js"), ("running a scan", "internal/js/rq.go Scan")],
 T + "with requests computed independently from the calls", "")

prop("C21", "client", "A script never affects another script",
 "What a script prints and asks for is the same as if it ran alone, whatever scripts ran before or run at the same time in the process, including ones that overwrite globals, prototypes and native objects or fail half way.",
 ["inputs", "schedules", "histories"], "all sequences and interleavings of scripts in one process",
 "The existing tests run well-behaved scripts one after the other in one runtime.",
 ["internal/js/rq.go"],
 [("fresh runtime per script", "internal/js/rq.go New/Release")],
 T + "comparing each script's output and requests with those of the script run alone", "")

prop("C22", "client", "Rendered metrics show every number, once, in order and in its unit",
 "The text of a metric document shows every resource, scope and metric and every data point of gauges and sums once, in order, with time, value in its unit and attributes, and the details asked for by the options. The JSON form reads back as the same document. Rendering in parallel or from a script gives the same.",
 ["inputs", "schedules"], "all metric documents and options, rendered by any number of goroutines",
 "One test renders one recorded document and never looks at the result; another formats six values.",
 ["internal/render/metrics.go", "internal/render/attribute.go", "internal/render/unit.go", "internal/render/pool.go", "internal/js/rq.go"],
 [("text of metrics", "internal/render/metrics.go"), ("units", "internal/render/unit.go"), ("attributes", "internal/render/attribute.go"), ("pooled buffers", "internal/render/pool.go")],
 T + "against an independent rendering and a JSON round trip", "")

prop("C28", "client", "rq query runs exactly the script it is given",
 "rq query prints exactly what the given file's script prints and succeeds exactly when it does, whatever other scripts were compiled and cached before, whatever processes run at the same time, and whatever earlier runs were killed. A script that does not compile or throws fails with a message, and nothing but the cache stays behind.",
 ["inputs", "histories", "schedules", "crash_points"], "all scripts, all histories of runs over one home directory, all interleavings and kills",
 "The query command has no tests; the cache outlives processes.",
 ["internal/commands/query/query.go", "internal/compile/compile.go", "internal/commands/home.go"],
 [("cache of compiled packages", "internal/commands/query build/writeCache"), ("compilation in a scratch package", "internal/compile")],
 "runtime monitoring: exact-output oracle over histories of real rq query processes, in parallel and killed at random moments", "kill points are timed")

prop("C31", "client", "What a script prints is what was exported",
 "From export over gRPC, compressed (gzip, zstd) or not, through storage, index, scan, client filter and rendering: a script run with rq query prints exactly the data points, log records and spans exported to the server which match its filters, time range or instant, and limit, now and after a restart.",
 ["inputs", "histories"], "all exported telemetry and all queries over it",
 "No existing test runs the server and the client together.",
 ["cmd/rq/main.go", "internal/service/service.go", "internal/store/scan.go", "internal/visit/visit.go", "internal/js/rq.go", "internal/commands/query/query.go"],
 [("export to storage", "internal/service, internal/store"), ("scan to script", "internal/js, internal/commands/query")],
 "runtime monitoring: end-to-end conservation oracle over the real server and client processes", "the verif hook shortens the flush interval")

prop("C32", "svc", "A data directory and an address have one server at a time",
 "Another rq started on a directory or an address in use ends by itself with an error and never serves a call. The first server keeps answering, and both directories afterwards hold exactly what was acknowledged and serve again.",
 ["schedules", "histories"], "all moments of starting one or several further servers, with data or without, on the directory, the address or both",
 "No existing test starts the program, or opens a store twice.",
 ["cmd/rq/main.go", "internal/commands/home.go", "internal/service/service.go"],
 [("exclusive use of the directory", "cmd/rq/main.go badger.Open"), ("order of opening, listening and giving up", "cmd/rq/main.go")],
 "runtime monitoring: offline conservation oracle over real competing server processes under load", "", env="ZV_PROCS=2")

prop("C33", "client", "Scripts read every field of telemetry by its documented name",
 "A script sees each field of the metrics, logs and traces it queried under the name or getter its types give, complete and in order, with the value of the document (numbers as floats), whichever way it goes through the lists. Reading changes nothing; what it filters out or renames before rendering is rendered so.",
 ["inputs"], "all documents of the three signals and all ways scripts walk them",
 "The existing tests of scripts read a few names of one document.",
 ["internal/js/rq.go", "internal/js/bundle/index.js", "packages/rq/src/otel.ts"],
 [("documents handed to scripts", "internal/js/rq.go Scan, field name mapper"), ("the script library", "internal/js/bundle/index.js")],
 T + "with scripts generated from the telemetry schema, compared value by value with the documents", "")

prop("C34", "svc", "The server stores what it observes about itself",
 "rq keeps its own telemetry beside that of clients, under a resource whose service.name is requiemdb: for every call it served exactly one server span (name, status code, times, the caller's span as parent, its trace state), sampled or not, and cumulative metrics whose counts of calls are those made, with database size, processed samples, runtime and host. What it observed before a clean shutdown is stored by it.",
 ["schedules", "histories"], "all histories of calls of any kind and outcome by concurrent clients, within spans or not, over any number of clean restarts",
 "No existing test starts the program; telemetry of the server is never looked at.",
 ["cmd/rq/main.go", "internal/self/self.go", "internal/self/metrics.go", "internal/self/trace.go", "internal/store/scan.go", "internal/service/service.go"],
 [("providers, sampling and propagation", "internal/self/self.go Setup"), ("order of the shutdown", "cmd/rq/main.go run"), ("size of the database", "internal/store/scan.go MonitorSize"), ("processed samples", "internal/service/service.go flush")],
 "runtime monitoring: offline exactly-once oracle over the telemetry of real server processes, compared with recorded calls", "the verif hook shortens the flush interval", env="ZV_PROCS=2")

prop("C35", "svc", "rq goes by its flags, environment and directories",
 "A server keeps everything below the directory it is given, relative or absolute, or $HOME/.rq without one, and writes nowhere else; it listens on the address it is told and no other, and logs lines of the level it is told or above. Flags win over the environment, which wins over defaults. rq query and rq version talk to the address they are told, :4317 without one. What can not be is refused with a message and a failing exit; a signal ends it with success.",
 ["inputs", "histories"], "all combinations of flags, variables, directories, and servers side by side, over restarts told otherwise",
 "No existing test starts the program or a command of it.",
 ["cmd/rq/main.go", "internal/commands/home.go", "internal/commands/query/query.go", "internal/commands/version/version.go", "internal/logger/setup.go", "internal/home/homedir.go"],
 [("flags and their variables", "cmd/rq/main.go main, internal/commands/home.go FLags"), ("places of the data", "internal/commands/home.go Home/Data/DB/Index/Cache"), ("log levels", "internal/logger/setup.go"), ("refusals and exits", "cmd/rq/main.go run")],
 "runtime monitoring: oracle over real processes' answers, exit codes, logs, listening addresses and files, known from what they were told", "IPv6 addresses are not told; the default port is tried when it is free", env="ZV_PROCS=2")

prop("C23", "rowsx", "Row operations compute exactly the sets they stand for",
 "Intersection, union, difference, xor, merge, clone, serialization and setting columns of rows give exactly the columns set theory says, over any number of shards and columns. No operation, and no later change of a result or an operand, changes any other row. Counts, membership, JSON and tables agree with the columns.",
 ["inputs", "histories"], "all sequences of operations over all sets of columns (sparse, dense, runs; at shard and container edges)",
 "The existing tests only build rows; filters of every scan are intersections and merges of them.",
 ["internal/rows/row.go", "internal/shards/shards.go"],
 [("set operations by shard segment", "internal/rows/row.go Intersect/Union/Difference/Xor/Merge"), ("sharing of containers", "internal/rows/row.go ensureWritable/Clone"), ("views", "internal/rows/row.go Columns/ShardColumns/ToTable/MarshalJSON")],
 T + "with a reference set per row, checked after every operation", "columns below 2^50; Shift is documented as unsupported")

prop("C24", "rowsx", "Bit-sliced numbers add up and read back in order",
 "Numbers built by column read back exactly, in descending order of value, restricted to any filter and cut by any limit and offset. The sum of two has at every column the sum of their values, and neither summing nor changing a sum changes the operands. A builder can be used again and again.",
 ["inputs", "histories"], "all columns and values, filters, limits and offsets",
 "The existing tests read back a handful of values of one shard.",
 ["internal/rows/bsi.go", "internal/rows/row.go"],
 [("building", "internal/rows/bsi.go BsiBuilder/RowBuilder"), ("reading in order", "internal/rows/bsi.go PivotDescending"), ("sums", "internal/rows/bsi.go AddBSI")],
 T + "with a reference map from column to value", "values below 2^62, sums below 2^63, columns inserted in order as documented")


prop("C25", "selfx", "The server's own metrics are collected with their true numbers",
 "Every metric the server measures about itself reaches the buffer which is saved with the numbers, names, units, attributes, times, temporality and exemplars measured at that collection, one document per collection; measurements made later never change documents collected before. What OTLP cannot express is an error, not a wrong document.",
 ["inputs", "schedules", "histories"], "all metrics documents of the sdk and all interleavings of measurements and collections",
 "The existing tests convert one hand-written document and never keep it past the next collection.",
 ["internal/self/metrics.go", "internal/self/metrics/transform/metricdata.go", "internal/self/metrics/transform/attribute.go", "internal/self/self.go"],
 [("conversion", "internal/self/metrics/transform"), ("handing over to the collector", "internal/self/metrics.go Export")],
 T + "against documents generated side by side in both forms, and against the measurements made", "attribute values of the sdk's types")

prop("C26", "selfx", "The server's own spans are collected whole, each one once",
 "Every span the server records about itself reaches the buffer exactly once, under its own resource and scope, with its identity, parent, kind, status, times, attributes, events and links as recorded, up to and including shutdown, from any number of goroutines.",
 ["inputs", "schedules"], "all batches of spans and all interleavings of ending spans, exports and shutdown",
 "The existing tests convert a few hand-written spans.",
 ["internal/self/trace.go", "internal/self/trace/tracetransform/span.go", "internal/self/trace/tracetransform/attribute.go", "internal/self/self.go"],
 [("grouping and conversion", "internal/self/trace/tracetransform"), ("export and shutdown", "internal/self/trace.go, internal/self/self.go")],
 T + "against spans generated side by side in both forms, and a conservation count over concurrent use", "attribute values of the sdk's types")

prop("C27", "svc", "No request harms the service or another client's data",
 "Whatever arrives (legal but unusual telemetry, odd scans, malformed messages, raw connections), every request is answered in time, the server keeps running and restarts, and every acknowledged export with a time, usual or not, is stored exactly once and found.",
 ["inputs", "schedules", "histories"], "all requests and their interleavings with those of well-behaved clients",
 "The existing tests send one well-formed document; a panic or an unsaved batch needs input nobody thought of.",
 ["internal/service/service.go", "internal/store/store.go", "internal/store/scan.go", "internal/transform/transform.go", "internal/visit/visit.go", "cmd/rq/main.go"],
 [("everything a request reaches", "internal/service, internal/store"), ("indexing of unusual telemetry", "internal/transform, internal/labels, internal/translate"), ("filters of unusual scans", "internal/visit, internal/view")],
 "runtime monitoring: hostile request generator against the in-process service and the real rq process, with liveness, exactly-once and restart oracles", "messages up to the 4 MB limit of gRPC", env="ZV_PROCS=2")


prop("C30", "svc", "No data races between anything the server and the client do at once",
 "Exports, scans, flushes, the server's own telemetry, opening and using shards, translating keys, drawing ids, running scripts, filtering, collapsing, rendering and compressing, and stopping while all of this goes on, never access the same memory at the same time with one of them writing.",
 ["schedules"], "all interleavings of concurrent requests, background work and shutdown",
 "The existing tests start no two requests at once and are not run with the race detector.",
 ["internal/service/service.go", "internal/store/store.go", "internal/store/scan.go", "internal/shards/shards.go", "internal/translate/translate.go", "internal/seq/seq.go", "internal/js/rq.go", "internal/render/pool.go", "internal/data/data.go", "internal/visit/visit.go", "internal/self/self.go"],
 [("buffer shared by exports and flushes", "internal/service/service.go"), ("caches and pools", "internal/store, internal/translate, sync.Pool users"), ("lazy opening", "internal/shards/shards.go")],
 "runtime monitoring: Go race detector over the service, the real rq process, and each shared component under concurrent load", "races the schedules of the run make visible to the happens-before detector", env="ZV_RACE=1 ZV_PROCS=3 ZV_GOGC=100")
