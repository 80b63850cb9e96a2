#!/usr/bin/env python3
# Writes /verif/properties.jsonl. One P(...) per property.
import json,os
out=[]
def P(id,title,statement,over,text,why,files,mech,observe,state=None):
    out.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over.split(),text=text),why_tests_cant=why,
      anchors=dict(files=files.split(),
        mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
        observe_at=observe.split("; "),hook_needed=None)))

# ---------------------------------------------------------------- DATA
P("C01","int values stay inside the configured range",
  "Every value of an `int` data key lies in the inclusive range [min, max] that the user configured, for the uniform and for the normal distribution, whatever the random source returns. Uniformly distributed keys can return every value of the range, including max; normally distributed ones every value within a standard deviation of the mean, and a copy of a key (of each client, for example) is distributed like it. Generating a value never crashes a client for a valid range (min <= max).",
  "inputs configurations","all min<=max (64-bit), all dist/mean/stddev settings, every outcome of the random source",
  "TestInteger_* sample a few thousand random values of two or three fixed configurations; the extremes of the random source are never hit.",
  "data/integer.go",[("NewInt parameter handling","data/integer.go:NewInt"),("value generation and clamping","data/integer.go:(*Int).Values")],
  "data.Make(\"int\").Values")
P("C02","int-gaps values stay inside the configured range",
  "Every value of an `int-gaps` data key lies in [min, max] for every accepted min, max and p, whatever the random source returns, and p percent of the range maps to distinct evenly spread values. A configuration that the generator accepts never crashes the client.",
  "inputs configurations","all accepted min, max, p; every outcome of the random source",
  "The one test samples values of one configuration.",
  "data/integer.go",[("gap slope computation","data/integer.go:NewIntGaps"),("value generation","data/integer.go:(*IntGaps).Values")],
  "data.Make(\"int-gaps\").Values")
P("C03","int-range pairs are ordered, in range and never wider than size",
  "Every pair [lower, upper] of an `int-range` data key satisfies min <= lower <= upper <= max and spans at most `size` values; it spans exactly `size` values unless it is cut short at max. Accepted configurations never crash or wrap around.",
  "inputs configurations","all accepted min, max, size (64-bit); every outcome of the random source",
  "The test samples a fixed configuration; boundary outcomes of the random source and extreme limits are not reached.",
  "data/integer.go",[("validation","data/integer.go:NewIntRange"),("pair generation","data/integer.go:(*IntRange).Values")],
  "data.Make(\"int-range\").Values")
P("C04","int-range-seq chunks tile [begin, end] without gap or overlap",
  "Successive pairs of an `int-range-seq` data key tile [begin, end] exactly: the first pair starts at begin, each pair starts one past the previous upper bound, no pair exceeds `size` values, the last pair of a round ends exactly at end, and then the sequence restarts at begin. This also holds, with every chunk handed to exactly one caller, when clients share the key and call it concurrently.",
  "inputs configurations schedules","all accepted begin, end, size (64-bit); every interleaving of concurrent callers",
  "The test walks one small configuration from one goroutine.",
  "data/integer.go",[("validation","data/integer.go:NewIntRangeSeq"),("chunk generation under a mutex","data/integer.go:(*IntRangeSeq).Values")],
  "data.Make(\"int-range-seq\").Values")
P("C05","auto-inc counts start+step, start+2*step, ... with no loss or repeat",
  "The k-th value of an `auto-inc` data key is start + k*step, also when several clients share the key and call it concurrently: together they receive each of the first n values exactly once.",
  "inputs configurations schedules","all start and step; every interleaving of concurrent callers",
  "Tests check a handful of sequential values.",
  "data/integer.go",[("atomic increment","data/integer.go:(*AutoInc).Values")],
  "data.Make(\"auto-inc\").Values")
P("C06","str-fill-az returns exactly len letters a-z A-Z",
  "Every value of a `str-fill-az` data key is a string of exactly `len` characters, each a letter a-z or A-Z, whatever the random source returns. Copies of the key made for other clients keep the length. A key shared by several clients, and its copies, can be used concurrently.",
  "inputs configurations schedules","all outcomes of the random source; every len up to the bound; concurrent callers",
  "The test checks the length of one value.",
  "data/string.go",[("string fill","data/string.go:(*StrFillAz).Values")],
  "data.Make(\"str-fill-az\").Values")
P("C07","a single-client data scope changes its value exactly when the scope changes",
  "For a data key with statement, trx, iter or client scope, a client sees a new value the first time the key is used after the client entered a new statement, transaction, iteration or connection respectively, and the same value on every other use; explicit calls @d() always generate a new value, which following uses in the same scope repeat. A value-scoped key generates a new value for every use.",
  "histories inputs","every sequence of run-count advances and of plain and explicit uses",
  "Tests replay a few scripted histories per scope.",
  "data/scope.go finch.go",[("scope tracking","data/scope.go:(*ScopedGenerator).Values"),("explicit call","data/scope.go:(*ScopedGenerator).Call")],
  "ScopedGenerator.Values; ScopedGenerator.Call",[("RunCount","per-client counters of statements, trx, iterations, connections","data/scope.go")])
P("C08","a multi-client data scope keeps one value per client and iteration",
  "For a data key shared with client-group, exec-group or workload scope, each client sees one value per iteration: a new value on the first use in an iteration and that same value on every later use in the iteration, independent of what other clients using the key do, whichever client groups or execution groups they belong to and however their uses interleave.",
  "histories schedules configurations","every interleaving of uses by clients of different client groups and execution groups",
  "Tests use two clients with distinct numbers in sequence; clients with the same number in different groups and true interleavings are not covered.",
  "data/scope.go",[("per-client value cache","data/scope.go:(*ScopedGenerator).Values")],
  "ScopedGenerator.Values; ScopedGenerator.Call")
P("C09","stage and global scope generate one value that every client sees",
  "A data key with stage or global scope generates exactly one value, on first use, and every use by every client afterwards returns that same value, also when the first uses happen concurrently. The value is never missing.",
  "histories schedules","every sequence and interleaving of uses",
  "No test calls Values on a one-time scope.",
  "data/scope.go",[("one-time scopes","data/scope.go:(*ScopedGenerator).Values")],
  "ScopedGenerator.Values")
P("C10","data keys are shared exactly as far as their scope says",
  "When a workload is allocated, two uses of a data key share one generator exactly when they are in the same instance of the key's scope: the same statement, trx, client (for iter and client scope), client group, execution group, workload or stage, or the whole run for global scope. Every use gets a generator, and the original generator is never used itself.",
  "configurations","every shape of execution groups, client groups, clients, trx and statements within the bound, and every scope",
  "boot/scope_test.go covers a few fixed configurations with a generator mock; many shapes and global scope are not covered.",
  "data/scope.go finch.go workload/workload.go",[("copy on scope change","data/scope.go:(*Scope).Copy"),("scope comparison","finch.go:(RunLevel).GreaterThan"),("reset between stages","data/scope.go:(*Scope).Reset")],
  "data.Scope.Copy; workload.Allocator.Clients")
P("C11","client-id returns the run counters it was asked for, in order",
  "A `client-id` data key returns one number per configured id, in the configured order: the client's current statement, trx, iteration and connection counts and its client, client group and execution group numbers; by default only the client number. Unknown ids are rejected.",
  "inputs configurations","every list of ids up to the bound and every run count",
  "Tests check fixed id lists with one run count.",
  "data/id.go",[("id selection","data/id.go:NewClientId"),("value","data/id.go:(*ClientId).Values")],
  "data.Make(\"client-id\").Values")
P("C12","saved columns and insert IDs return the value most recently saved",
  "A saved column or insert ID used as input yields exactly the value most recently scanned into it (when the scope of its key calls for a new value), unaffected by the driver reusing its buffers afterwards, by other columns, or by the type of value changing between rows; copies for other clients are independent.",
  "inputs histories","every sequence of scanned values of different kinds, with arbitrary buffer reuse",
  "No test scans twice or reuses the buffer.",
  "data/column.go client/client.go",[("scan copies bytes","data/column.go:(*Column).Scan")],
  "data.Column.Scan; data.Column.Values")
# ---------------------------------------------------------------- LIMIT
P("C13","a row limit stops writes exactly when the limit is reached",
  "With a rows limit (max, offset), more data is allowed exactly while offset plus the rows affected so far is less than max, however clients sharing the limit interleave. Combined limits allow more only while every one of them does, a limit of zero means no limit, and affected rows count towards each combined limit. Progress reporting never changes the outcome or crashes.",
  "inputs histories schedules configurations","all max, offset and affected counts; every history up to the bound; concurrent clients",
  "Tests cover one short sequence; combined and zero limits are not covered.",
  "limit/data.go trx/trx.go",[("row counting","limit/data.go:(*Rows).Affected,More"),("combination","limit/data.go:Or")],
  "limit.NewRows; limit.Or; trx.Load")
P("C14","a size limit stops writes once the measured size reaches it",
  "With a table-size or database-size limit, writes are allowed until the measured size (data plus index length, over all base tables for a database) reaches the limit; size is re-measured with ANALYZE TABLE followed by the size query at a fixed cadence of calls, and writes stop on measurement errors. The tables analyzed are exactly the base tables of the database (or the configured table).",
  "inputs histories fault_sequences","every sequence of measured sizes, tables and query errors up to the bound",
  "Needs a MySQL server, so the tests do not run it at all here.",
  "limit/data.go",[("size check","limit/data.go:(*Size).More")],
  "limit.NewSize; SQL sent to the connection")
P("C15","rate limits never allow more than the configured rate",
  "A QPS or TPS limiter allows at most rate*t + burst executions in any period t, however slowly clients take permits, and a waiting client gets the next permit within one period of the rate; a combination of two limiters allows an execution only after both of them allowed one, so it never exceeds either rate; with rate 0 there is no limiter.",
  "schedules histories configurations","every interleaving of limiter, combiner and clients and every arrival order of permits up to the bound",
  "The rate tests sample wall-clock behaviour of a few settings.",
  "limit/rate.go workload/workload.go",[("token pump","limit/rate.go:(*rate).run"),("combination","limit/rate.go:(*and).run")],
  "limit.NewRate(...).Allow; limit.And(...).Allow")
P("C16","a rate-limited client takes one permit per query and one per transaction",
  "A client with a QPS limit takes exactly one QPS permit before each query it executes, and a client with a TPS limit takes exactly one TPS permit before each BEGIN (or START TRANSACTION) and for no other statement; it executes nothing for which it has not taken its permits.",
  "configurations histories schedules","every mix of statements up to the bound, every limit combination, every point where permits run out",
  "No test drives a client with limits: the client tests need MySQL.",
  "client/client.go trx/trx.go",[("permit waits","client/client.go:(*Client).Run")],
  "permits taken and queries executed by client.Run")
# ---------------------------------------------------------------- TRX
P("C17","trx files are split into the statements the user wrote",
  "Loading a trx file yields its statements in order, one per block of non-blank lines separated by blank lines, with lines joined by a space; modifiers apply only to the statement that follows them; `-- EOF` ends the file; each statement is classified (read, write, begin, commit, DDL, idle, prepared) by its own first word and modifiers. Malformed input is rejected with an error, never with a crash.",
  "inputs programs","every trx file up to the bound over the line alphabet",
  "Tests load a dozen fixed files.",
  "trx/trx.go",[("line state machine","trx/trx.go:(*File).line"),("statement construction","trx/trx.go:(*File).statements")],
  "trx.Load")
P("C18","data keys in a query are replaced by their own value, in order",
  "Every data key in a statement becomes one input in order of appearance, its placeholder in the query is exactly that key's format (or ? when prepared) and nothing else of the query text changes, even when one key's name is a prefix of another's. The query sent to the server therefore contains, for each key, the values of that key's generator.",
  "inputs programs","every query over the alphabet of overlapping key names up to the bound; every map iteration order",
  "Tests use keys that do not overlap, and map order is sampled once.",
  "trx/trx.go",[("replacement","trx/trx.go:(*File).statements")],
  "trx.Load Statement.Query/Inputs/Calls")
P("C19","csv templates expand to N rows with row-scoped keys called once per row",
  "A /*!csv N template*/ expands to exactly N copies of the template joined by commas; in each row the first use of every row-scoped key generates a new value and later uses in the same row repeat it, while keys with a wider scope are not called per row. Keys whose names overlap do not affect each other.",
  "inputs programs","every template over the alphabet of overlapping keys and scopes up to the bound, every N up to the bound, every map iteration order",
  "Tests use a few templates with one or two distinct keys.",
  "trx/trx.go data/scope.go",[("row scope rewrite","trx/trx.go:RowScope"),("expansion","trx/trx.go:(*File).statements")],
  "trx.Load; trx.RowScope")
P("C20","copies: N yields N statements numbered 1..N, prepared once when identical",
  "`copies: N` yields exactly N copies of the statement with copy numbers 1 to N substituted (0 copies removes it, 1 keeps it), all other modifiers apply to every copy, and the statement that follows is unaffected. A prepared statement whose copies are textually identical is prepared once and shared by all N copies; otherwise each copy is prepared itself.",
  "inputs programs configurations","every N up to the bound, every modifier combination and position",
  "Tests use fixed N and one combination each.",
  "trx/trx.go client/client.go",[("copy recursion","trx/trx.go:(*File).statements"),("shared prepared statement","client/client.go:(*Client).Connect")],
  "trx.Load; prepare calls of client.Run")
# ---------------------------------------------------------------- CLIENT
P("C21","a client executes all its statements in order, iteration after iteration",
  "Without errors a client executes its statements in trx order, each exactly once per iteration, every iteration from the first statement, and stops after exactly the configured number of iterations; idle statements only wait. The inputs of each statement are generated once per execution in input order.",
  "configurations histories","every statement list, idle placement, iteration limit up to the bound",
  "The client tests need MySQL and do not run here.",
  "client/client.go",[("iteration loop","client/client.go:(*Client).Run")],
  "queries the database driver receives")
P("C22","shared iteration limits are met exactly",
  "Clients sharing an iteration limit (iter-clients per client group, iter-exec-group per execution group) together start exactly that many iterations, under every interleaving, unless a smaller limit stops them first; the per-client limit holds at the same time.",
  "schedules configurations","every interleaving of up to the bound clients and iterations",
  "No test runs several clients against a shared limit.",
  "client/client.go workload/workload.go",[("atomic counters","client/client.go:(*Client).Run"),("shared counter wiring","workload/workload.go:(*Allocator).Clients")],
  "iterations executed per client")
P("C23","query errors are handled as documented and never skip or repeat statements",
  "When a query fails, the client handles the MySQL error code as documented: lock wait timeout and read-only errors roll back an active transaction and continue, deadlock, killed queries and duplicate keys continue, other errors reconnect, and an unhandled error on a DDL statement stops the client. After a handled error the client starts the next iteration at its first statement, its iteration limits still hold, the error is counted once under its code, and the default database is selected again after a reconnect.",
  "fault_sequences configurations","every placement of failing statements and error codes up to the bound, including connection failures",
  "Needs a MySQL server, and the error schedules cannot be produced with one.",
  "client/client.go finch.go",[("error dispatch","client/client.go:(*Client).Connect"),("error table","finch.go:MySQLErrorHandling")],
  "sequence of statements, connects and rollbacks the driver receives")
P("C24","prepared statements are used on the connection that prepared them",
  "A statement marked prepared is prepared once per connection before the first iteration on it and executed through that prepared statement with its current inputs; after a reconnect every prepared statement is prepared again on the new connection, and all prepared statements are closed when the client ends.",
  "fault_sequences configurations","every mix of prepared, shared-prepared and plain statements and every reconnect point up to the bound",
  "Needs a MySQL server and a connection failure.",
  "client/client.go",[("prepare loop","client/client.go:(*Client).Connect")],
  "prepare/execute/close calls the driver receives")
P("C25","every executed query is counted once, in its trx and under its type",
  "Each executed query is recorded exactly once in the statistics of the trx file it belongs to: SELECT as read, INSERT/UPDATE/DELETE/REPLACE as write, COMMIT as commit, anything else only in the total; each failed query also counts one error under its MySQL code. Idle statements are never counted, and clients with statistics disabled record nothing.",
  "configurations fault_sequences histories","every statement list over all types, trx boundaries, idle positions and errors up to the bound",
  "No stable test runs a client.",
  "client/client.go stats/stats.go",[("recording","client/client.go:(*Client).Run")],
  "stats.Trx of each client after the run")
P("C26","every client reports done exactly once and leaves nothing open",
  "However a client ends - iteration limit, data limit, fatal error, panic of a data generator, cancelled or elapsed runtime - it reports itself done exactly once, after closing its prepared statements and its connection. The reported error is the failure that stopped it, and is empty for limits and for elapsed or cancelled runtime.",
  "fault_sequences schedules histories","every end cause at every statement position up to the bound",
  "Needs a server and fault injection.",
  "client/client.go",[("deferred cleanup","client/client.go:(*Client).Run")],
  "client done channel, driver close calls")
P("C27","client groups form execution groups by consecutive name",
  "Allocating a workload partitions the client groups, in configured order, into execution groups of consecutive client groups with the same name. Unnamed client groups are named automatically so that each with DDL runs alone and consecutive ones without DDL run together; client groups without trx get all trx; DDL client groups without an iteration limit run one iteration; with no workload configured, trx files are assigned to automatic groups in order, each DDL trx alone.",
  "configurations","every workload and trx set up to the bound: names given or empty, DDL or not, explicit or default trx and iterations",
  "Tests cover a few fixed workloads.",
  "workload/workload.go",[("grouping","workload/workload.go:(*Allocator).Groups"),("auto assignment","workload/workload.go:(*Allocator).AutoAssign")],
  "workload.Allocator.Groups")
P("C28","each client is allocated exactly the configured trx and limits",
  "Every client group gets exactly the configured number of clients; each client has the statements of its client group's trx in the configured order, with trx boundaries exactly at each file's first and last statement, one statistics object per trx when statistics are enabled, the group's database, runtime and iteration limit, and a run level that identifies it uniquely. Clients share iteration counters exactly with their client group or execution group.",
  "configurations","every workload shape up to the bound",
  "Tests check two or three fixed allocations.",
  "workload/workload.go",[("allocation","workload/workload.go:(*Allocator).Clients")],
  "workload.Allocator.Clients")
P("C29","rate limits apply at client, client group, execution group and stage level",
  "A client is rate limited exactly when a limit is configured at one of the four levels that include it, and its permits come from the combination of precisely those limits: limits of a group are shared by the clients of that group and of no other.",
  "configurations","every combination of QPS and TPS settings at the four levels for every shape up to the bound",
  "No test inspects the limiters of allocated clients.",
  "workload/workload.go limit/rate.go",[("limit wiring","workload/workload.go:(*Allocator).Clients")],
  "Client.QPS and Client.TPS of allocated clients")
P("C30","execution groups run strictly one after another",
  "A stage starts the clients of an execution group only after every client of the previous one has finished, runs each allocated client exactly once, all clients of a group concurrently, and returns after all clients finished or the runtime elapsed or the run was cancelled; once cancelled, no further execution group does work. It never hangs because of how clients finish.",
  "schedules configurations fault_sequences","every interleaving of client completion, runtime expiry and cancellation up to the bound",
  "The stage test needs MySQL; interleavings are never explored.",
  "stage/stage.go",[("group loop","stage/stage.go:(*Stage).Run")],
  "order of client work and of Stage.Run returning")
# ---------------------------------------------------------------- STATS
P("C31","recording a response time updates count, min, max and one bucket exactly",
  "Recording a response time increments the count and exactly one histogram bucket of its event type and of the total by one, and min and max are the least and greatest response time recorded since the last reset; the bucket is the one whose documented bounds contain the response time (a response time exactly at a bound may be in either of the two). Other event types are unchanged.",
  "inputs histories","every response time >= 0 and every sequence of events up to the bound",
  "Tests record a handful of values.",
  "stats/stats.go",[("record","stats/stats.go:(*Stats).Record")],
  "stats.Stats after Record")
P("C32","combining statistics equals recording everything in one place",
  "Combining the statistics of several clients or instances gives exactly the counts, buckets, minimum, maximum and error counts that one client would have recorded for all their events, including when some of them recorded nothing; combining a new interval does not keep anything of the previous one.",
  "inputs histories","all pairs of statistics up to the bound, including empty ones",
  "Tests combine non-empty statistics once.",
  "stats/stats.go",[("combine","stats/stats.go:(*Stats).Combine"),("copy","stats/stats.go:(*Stats).Copy"),("instances","stats/collector.go:(*Instance).Combine")],
  "stats.Stats.Combine; stats.Instance.Combine")
P("C33","reported percentiles are within the bucket that contains them",
  "Each reported percentile lies within the bounds of the lowest histogram bucket at which the cumulative fraction of events reaches that percentile (when the fraction equals the percentile up to floating-point rounding, the next bucket is as good); several percentiles are reported independently of each other and in increasing order, also when they fall into the same bucket.",
  "inputs","all bucket distributions up to the bound and all ascending lists of percentiles up to the bound",
  "Tests check one distribution.",
  "stats/stats.go stats/reporter.go",[("percentiles","stats/stats.go:(Stats).Percentiles"),("parsing","stats/reporter.go:ParsePercentiles")],
  "stats.Stats.Percentiles")
P("C34","no event is lost or counted twice across reporting intervals",
  "Over a run, every event recorded by a client while no collection is in progress appears in exactly one reported interval, namely the one collected next, per trx and in the total; intervals are numbered consecutively from one, and their durations add up to the runtime.",
  "histories inputs schedules","every sequence of records and collections over several clients and trx up to the bound",
  "Tests collect once or twice with one client.",
  "stats/collector.go stats/stats.go",[("double buffering","stats/stats.go:(*Trx).Swap"),("collection","stats/collector.go:(*Collector).Collect")],
  "instances passed to reporters")
P("C35","an interval combines exactly one report per instance",
  "With remote instances, each reported interval contains at most one report of each instance, all of the same interval number, and is reported once: as soon as all instances delivered it, or incomplete when a later interval arrives or the final wait times out. Late reports, for an interval already reported or superseded by a later one, and duplicates are dropped, interval numbers never go backwards, and no order of arrival crashes the collector.",
  "histories schedules fault_sequences","every arrival order, delay, loss and duplication of instance reports up to the bound",
  "Tests deliver two or three orders.",
  "stats/collector.go",[("receive","stats/collector.go:(*Collector).Recv"),("report","stats/collector.go:(*Collector).Report")],
  "instances passed to reporters")
P("C36","every report line carries the interval's own figures in the header's columns",
  "The values of a CSV line correspond column by column to the header: interval, duration, runtime, number of clients summed over instances, then rate, min, each percentile and max for total, read, write and commit, then the number of errors and the compute name; rates are events divided by the interval's seconds.",
  "inputs configurations","all statistics values, percentile lists and numbers of instances up to the bound",
  "The reporter tests compare one line.",
  "stats/csv.go stats/stdout.go stats/reporter.go",[("line format","stats/csv.go:(*CSV).Report"),("percentile columns","stats/reporter.go:intsToString")],
  "bytes written to the CSV file; stdout")
# ---------------------------------------------------------------- CONFIG
P("C37","more specific configuration wins",
  "For every setting that can be given in several places, the command line overrides the stage file and the stage file overrides the base file (_all.yaml), for maps (params, report options) key by key; a value given in only one place is always used, and settings given for one setting never affect another.",
  "configurations","every combination of set and unset values of MySQL, TLS, statistics and parameter settings at the levels",
  "Tests check a few combinations.",
  "config/file.go config/config.go",[("merging","config/file.go:*.With"),("loading","config/config.go:Load")],
  "config.Load; With methods")
P("C38","invalid configuration is rejected before anything runs",
  "A stage whose settings are not valid - non-numeric or negative iteration, client or rate settings, invalid durations, unknown trx names, two files under the same trx name, missing files, contradictory combinations - is rejected by validation, and a valid one is accepted unchanged apart from documented defaults. Validation never crashes.",
  "configurations inputs","every stage over the alphabet of valid and invalid settings up to the bound",
  "Tests validate a few files.",
  "config/file.go",[("validation","config/file.go:*.Validate")],
  "config.Stage.Validate")
P("C39","parameters are interpolated everywhere, exactly once and completely",
  "Every $params, $sys and environment reference in a setting or modifier is replaced by the value of exactly that parameter, also when one name is a prefix of another, unknown parameters are rejected, and text without references is unchanged, except that human-readable numbers become the integers they denote where a number is expected. Every string setting of a stage is interpolated, and params that reference other params have one value whatever the order.",
  "inputs configurations","every string over the reference alphabet and parameter names up to the bound",
  "Tests interpolate a few strings.",
  "config/config.go config/file.go",[("interpolation","config/config.go:Vars"),("per-section interpolation","config/file.go:*.Vars")],
  "config.Vars; ClientGroup.Vars; trx.Load")
# ---------------------------------------------------------------- COMPUTE
P("C40","the compute API follows its state machine for every client",
  "A remote instance can only move through register, boot, run, done in that order per stage (a remote that is still booting may boot again): the server never hands out the same slot twice, never accepts more instances than configured, tells an instance of an old stage to reset, starts it only after all instances booted, and answers every other request with an error without changing any state.",
  "histories schedules","every sequence of requests of several instances up to the bound",
  "Tests run one happy path.",
  "compute/api.go compute/server.go",[("handlers","compute/api.go:(*API)")],
  "HTTP responses of the compute API")
P("C41","a remote instance receives the stage exactly as the server has it",
  "A remote instance runs with the server's stage configuration and with the content of exactly the trx files the stage references, each under its own trx, also when files in different directories share a base name.",
  "configurations inputs","every set of trx files up to the bound, including equal base names",
  "No test fetches two files with the same name.",
  "compute/client.go compute/api.go",[("file fetch","compute/client.go:getTrxFiles"),("file serving","compute/api.go:file")],
  "files and configuration of the booted remote stage")
P("C42","a retried request carries the same data",
  "When sending to the server fails or times out, every retry sends the complete original data, the number of tries respects the retry policy, and the caller gets an error exactly when no try succeeded.",
  "fault_sequences","every sequence of failures, status codes and successes up to the bound",
  "No test fails a request.",
  "proto/proto.go",[("request loop","proto/proto.go:(*Client)")],
  "requests received by the server")
P("C45","a server runs every stage on all its instances, in order, and always ends",
  "A server runs each stage on exactly the configured instances (the local one unless disabled, and as many remotes as configured), starts the clients only when every instance has booted, starts the next stage only when every instance is done with the previous one, and ends without error after the last; a lost request or answer changes none of this. With --test every stage is booted on all its instances, nothing is run, and remotes are told so. After CTRL-C the server ends within seconds, even when a remote is unreachable, no further stage is run, and remotes that are reachable have stopped. A remote that loses the server for good while running stops within seconds; one that loses it for a moment runs on.",
  "schedules fault_sequences histories","every order of instances, lost request or answer, and moment of CTRL-C up to the bound",
  "No test runs a server with remote instances through a whole stage.",
  "compute/server.go compute/api.go compute/client.go proto/proto.go",[("server loop","compute/server.go:(*Server).run"),("stage change","compute/api.go:(*API).Stage"),("remote loop","compute/client.go:(*Client).run")],
  "queries that MySQL receives, requests between remotes and server, return of Server.Run")
P("C46","a stage does the work its configuration says, and reports exactly that work",
  "Running a configured stage makes MySQL execute every trx of every client group exactly as often as the number of clients and the iteration limit of the group (iter, iter-clients, iter-exec-group) say, at no more and about the configured QPS or TPS limit of the stage, execution group, client group or client, for the configured runtime; and the statistics reported at the end contain exactly the queries, writes and commits of the client groups with statistics of every instance, per trx and in total, also when requests that send them to the server are lost, as long as a retry succeeds.",
  "configurations","every iteration limit and rate (symbolic) at every level, and combination of client groups, up to the bound",
  "No test runs a whole stage with limits and compares what MySQL received with the report.",
  "stage/stage.go workload/workload.go compute/server.go client/client.go stats/collector.go",[("stage","stage/stage.go:Prepare"),("clients","workload/workload.go:Clients"),("run","client/client.go:Run")],
  "queries that MySQL receives; statistics given to reporters")
P("C47","the command line runs the given stages as its options say, and CTRL-C ends it",
  "finch runs the stage files of the command line in the order given, each with the files of its own directory; --param, --database and --dsn, in any form or position or as environment variable, override the stage files in every stage; --test, --help, --version and wrong usage execute no query, and wrong usage or an invalid file among valid ones is an error before anything is run. CTRL-C ends the program within 7.5 seconds, executes no further stage, and is not an error.",
  "inputs configurations schedules","every combination, form and position of options, and moment of CTRL-C, up to the bound",
  "Tests parse a few command lines, but never run one.",
  "boot/boot.go boot/cmdline.go config/config.go compute/server.go stage/stage.go",[("start","boot/boot.go:Up"),("options","boot/cmdline.go:ParseCommandLine"),("load","config/config.go:Load")],
  "queries and connections that MySQL receives; return of boot.Up")
P("C48","data keys keep their values over stages exactly as their scope says",
  "In a run of several stages, a data key with global scope keeps its generator and value over all stages; a data key with any narrower scope starts anew in each stage, with the configuration which that stage gives it, whatever the stages before used under the same name.",
  "histories configurations inputs","every scope and pair of configurations of a data key in consecutive stages, up to the bound",
  "Tests of data scopes run no second stage.",
  "data/scope.go compute/server.go compute/client.go trx/trx.go stage/stage.go",[("reset","data/scope.go:Reset"),("stages","compute/server.go:Run"),("data keys","trx/trx.go:Load")],
  "values in the statements that MySQL receives")
# ---------------------------------------------------------------- DBCONN
P("C43","the DSN carries exactly the configured connection settings",
  "The connection is made with exactly the configured user, password, host, port, socket and TLS settings, configured values taking precedence over the my.cnf file and that over defaults; a DSN given explicitly is used as is.",
  "configurations inputs","every combination of set and unset connection settings over several sources",
  "Tests check a few combinations.",
  "dbconn/factory.go dbconn/mycnf.go",[("DSN assembly","dbconn/factory.go:Make"),("my.cnf","dbconn/mycnf.go:ParseMyCnf")],
  "DSN of dbconn")
P("C44","passwords never appear in a redacted DSN",
  "The redacted form of a DSN never contains the password and otherwise keeps the connection settings, for every DSN a user can configure; redacting never crashes.",
  "inputs","every password and DSN up to the bound",
  "The test redacts one DSN.",
  "dbconn/factory.go",[("redaction","dbconn/factory.go:RedactedDSN")],
  "dbconn.RedactedDSN; log output")
P("C49","generators and reporters of an application work like the built-in ones",
  "A data generator or stats reporter registered under a new name is made once for each data key or report that names it, with exactly its params or options. Copies of the generator supply the values of the queries as the key's scope says, and save the columns of a data key configured with it. Every reporter gets every interval and is stopped once at the end, and nothing is reported after that. Names that are taken cannot be registered, and unknown names, rejected options or params are an error before any query is executed.",
  "inputs configurations","every combination of generators, scopes, uses, options and names up to the bound",
  "Tests use built-in generators and reporters one by one, or replace them by mocks.",
  "data/generator.go data/scope.go stats/reporter.go stats/collector.go trx/trx.go",[("generators","data/generator.go:Make"),("saved columns","trx/trx.go:column"),("reporters","stats/reporter.go:MakeReporters")],
  "values in the statements that MySQL receives; calls of factories and reporters")
P("C50","the example benchmarks send MySQL the queries their files say",
  "Each benchmark of benchmarks/ (xfer, aurora, sysbench, intro, jcole-bug-97001), run by the command line with any param of its _all.yaml overridden, executes the statements of its trx files in order on every client until its runtime, row limit, table size or iterations end it: tables are made before rows are inserted, rows are inserted as many as configured, saved columns and insert IDs of a transaction reach the later statements of the same transaction (and no other client's), keys of scope trx have one value per transaction and keys of scope value a new one each time, and random IDs are within the params' range.",
  "inputs schedules","every param value, number of clients, query time and random ID up to the bound",
  "No test runs a benchmark; tests check the parts with mocks or one value.",
  "client/client.go trx/trx.go config/ data/ limit/data.go compute/server.go boot/boot.go",[("run","client/client.go:Run"),("statements","trx/trx.go:Load"),("stage","stage/stage.go:Run")],
  "statements that MySQL receives, by connection")
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for o in out: f.write(json.dumps(o)+"\n")
import re
assert len({o["id"] for o in out})==len(out)
for o in out:
    assert len(o["title"])<=80,(o["id"],len(o["title"]))
print(len(out))
