# The properties. Each entry: id, title, statement, over, text, why, files,
# mechanism [(name, where)], technique, note; "na" gives the reason for a
# property no check decides.
P = []
def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, level="other"):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over.split(), text=" ".join(text.split()),
                  why=" ".join(why.split()), files=files.split(), mech=mech, technique=technique, note=note, na=na, level=level))

ABS = "abstract interpretation of the SSA form (relational numeric domain, symbolic heap, every path of every start function and concurrent entry point)"

prop("C02", "Outgoing messages and requests respect their size limit",
 """Every message the listeners and the downsampler hand to NATS is at most 1 MB long, and every chunk of a fresh batch
 a writer sends to InfluxDB is at most batch_max_size bytes long, however much data has accumulated and however long its lines are.""",
 "inputs histories configurations",
 "every sequence of received packets, bodies and messages, every accepted configuration",
 "Tests send a few short lines; the limit only matters for batches near or above a megabyte and lines longer than a chunk.",
 "listener/listener.go downsampler/downsampler.go writer/writer.go batchsplitter/batch_splitter.go",
 [("batchsplitter splits the batch at newlines", "batchsplitter/batch_splitter.go"), ("send loops publish every chunk", "listener/listener.go sendBatch, downsampler/downsampler.go worker, writer/writer.go worker")],
 ABS + ": at every call which hands data over, the slice length is entailed to be within the limit",
 "Sound for the abstracted semantics; retried chunks are copies of chunks and are covered by C16.")

prop("C03", "Batches are handed on whole, in order and once before being cleared",
 """When a listener, filter, downsampler or writer sends accumulated data, the pieces it hands over follow one another without gap,
 overlap or reordering, and together cover all of the data by the time the data is discarded.
 Nothing accumulated is discarded without having been handed over first, even if handing over a piece fails.""",
 "inputs histories fault_sequences",
 "every batch content and size, every sequence of sends with every pattern of publish and write errors",
 "Tests inspect a handful of single-piece batches; splitting, errors in the middle of a batch and clearing on odd paths are not reached.",
 "listener/listener.go downsampler/downsampler.go downsampler/assigner.go writer/writer.go filter/worker.go batchsplitter/batch_splitter.go batch/batch.go",
 [("send loops", "listener/listener.go sendBatch, filter/worker.go sendOff, downsampler/downsampler.go worker, writer/writer.go worker"), ("clearing", "batch/batch.go Reset, bytes.Buffer.Reset, downsampler/assigner.go Bytes")],
 ABS + " with a ghost position: each handed-over slice must start where the one before ended, and clearing requires the position to be at the end",
 "Sound for the abstracted semantics. Handed over means passed to Publish or to an HTTP request.")

prop("C07", "No received data can crash a component",
 """Whatever bytes arrive as packets, HTTP bodies, NATS messages or metrics, no component indexes or slices out of range,
 dereferences nil, fails a type assertion, divides by zero or reaches an explicit panic while processing them.""",
 "inputs histories configurations",
 "every byte sequence received, every history of earlier inputs, every accepted configuration",
 "Parsers are tested on a few dozen strings; a crash needs one malformed line among all possible byte sequences.",
 "influx/tags.go influx/token.go influx/timestamps.go influx/unescape.go influx/escape.go convert/convert.go filter/worker.go filter/rules.go downsampler/avgbucket.go downsampler/assigner.go prometheus/parse.go listener/listener.go batch/batch.go writer/writer.go monitor/monitor.go",
 [("line parsers", "influx/*.go, convert/convert.go"), ("metric parser", "prometheus/parse.go"), ("buffers", "batch/batch.go, batchsplitter/batch_splitter.go")],
 ABS + ": every index, slice, division, nil dereference, type assertion and panic is a proof obligation",
 "Exhaustion of memory or stack is outside the property. Counter arrays sized by the configuration and standard library internals are assumed.")

PTS = "points-to analysis which keeps call paths apart (every goroutine, handler and callback is its own call tree)"

prop("C05", "Concurrently running parts never race on memory",
 """No two concurrently running parts of a component (workers, HTTP handlers, NATS callbacks, batch age watchers, statistics reporters, retry loops)
 access the same memory at the same time with at least one of them writing, unless both hold a common lock or use atomic operations.""",
 "schedules histories configurations",
 "every interleaving of the concurrently running parts of every component",
 "The race detector only sees the interleavings and code paths a test happens to run; most handlers and goroutines are tested alone.",
 "listener/listener.go filter/worker.go filter/filter.go filter/rules.go monitor/monitor.go downsampler/downsampler.go writer/writer.go writer/retryworker.go stats/stats.go stats/anonstats.go probes/probes.go",
 [("batch guarded by the listener's mutex", "listener/listener.go"), ("metrics set guarded by the monitor's mutex", "monitor/monitor.go"), ("per-worker buffers and parsed lines", "filter/worker.go, writer/writer.go"), ("atomic counters", "stats/*.go")],
 "lockset analysis on a " + PTS + ", with publication ordering before goroutine starts and channel sends",
 "Standard library and nats.go types documented as safe for concurrent use are assumed to be; memory is distinguished by field and allocation site per call path, not by index.")

prop("C01", "Lines from separate packets, bodies and writes never run together",
 """Data a listener adds to its batch always starts on a line of its own: the batch is empty, ends with a newline, or ends with
 earlier data of the same HTTP body at that moment. So a packet or request body without a final newline is never joined with the data received next.""",
 "inputs histories schedules",
 "every sequence and interleaving of packets and request bodies, terminated or not",
 "Tests mostly send well-terminated bodies one at a time; the damage needs an unterminated body followed by another write.",
 "listener/listener.go batch/batch.go",
 [("EnsureNewline between inputs", "listener/listener.go listenUDP, readHTTPBodyNanos, readHTTPBodyWithPrecision"), ("EnsureNewline", "batch/batch.go")],
 ABS + ": at every write into the memory of the batch the state entails that it is empty, newline-terminated or continues the same reader",
 "Reads which fail half way are covered; what a reader returns is unknown bytes.")

prop("C04", "The count, age and size limits force a batch to be sent",
 """Whenever a listener or writer worker waits for more data (or an HTTP write request ends), its batch is empty or still below all of
 batch_max_count, batch_max_age and batch_max_size. Every addition of data counts as a write, the age is measured from the first write, and waiting is
 bounded so that an idle batch is looked at again within a second of reaching its maximum age.""",
 "inputs histories schedules configurations",
 "every sequence of writes, sizes and arrival times, every accepted configuration",
 "Tests check one limit at a time with round numbers; boundaries, idle periods and error paths are not sampled.",
 "listener/listener.go writer/writer.go batch/batch.go",
 [("maybeSendBatch and shouldSend", "listener/listener.go, writer/writer.go"), ("oldBatchSender", "listener/listener.go"), ("Writes and Age", "batch/batch.go")],
 ABS + ": at every wait the state entails that the number of writes, the age and the size obtained since the last addition are below the limits, and every wait has a bounded timer or deadline",
 "A single newline used to terminate a line is not counted as data. Time between looking at the clock and waiting is ignored; negative batch_max_age is excluded.")

LIFE = ABS + " with typestate of connections, sockets, probe listeners, subscriptions, wait groups and goroutines"

prop("C34", "A component that fails to start releases what it opened",
 """When starting a component fails at any step, every NATS connection, network socket and probe listener it had opened by then is closed,
 every goroutine it had started has been told to stop and was waited for, and it does not report ready.""",
 "fault_sequences configurations",
 "every point at which starting can fail, every accepted configuration",
 "Tests start components successfully; failures half way through starting are not provoked.",
 "listener/listener.go filter/filter.go filter/worker.go downsampler/downsampler.go writer/writer.go monitor/monitor.go",
 [("start functions and their deferred clean-up", "listener/listener.go, filter/filter.go, downsampler/downsampler.go, writer/writer.go, monitor/monitor.go")],
 LIFE, "Failures of NATS, socket and rule set-up calls are enumerated; that closing a resource itself works is assumed.")

prop("C35", "Stopping a component ends its goroutines and closes its connections",
 """Stopping a running component tells every goroutine it started to end, waits for exactly those goroutines, and closes its NATS connections, sockets, HTTP server and probe listener.
 No goroutine blocks in a receive, select or send which the stop signal or its counterpart does not wake, goes on after it was told to stop, or ends without signalling that it has ended.""",
 "schedules configurations",
 "every interleaving of the goroutines with the stop signal, every accepted configuration",
 "Tests stop components which are idle; goroutines blocked in rare states only hang or leak under particular schedules.",
 "listener/listener.go filter/filter.go filter/worker.go downsampler/downsampler.go writer/writer.go writer/retryworker.go monitor/monitor.go",
 [("Stop methods", "listener/listener.go, filter/filter.go, downsampler/downsampler.go, writer/writer.go, writer/retryworker.go, monitor/monitor.go"), ("goroutine loops", "listenUDP, oldBatchSender, startStatistician, worker loops, retry loop")],
 LIFE, "A typestate argument about what can wake each blocking operation, not a termination proof: library calls (HTTP requests, NATS) are assumed to return.")

prop("C36", "A component is only ready once it can receive data",
 """A component reports ready only after its socket or HTTP port is bound and all its NATS subscriptions exist, and it stops reporting ready before it starts to shut down.""",
 "schedules fault_sequences configurations",
 "every interleaving and every failure while starting",
 "Tests wait for readiness and then retry; they cannot see a short window in which ready is reported too early.",
 "listener/listener.go filter/filter.go downsampler/downsampler.go writer/writer.go monitor/monitor.go",
 [("SetReady calls", "listener/listener.go listenUDP and listenHTTP, filter/filter.go, downsampler/downsampler.go, writer/writer.go, monitor/monitor.go")],
 LIFE, "That NATS has processed a subscription once Subscribe has returned is assumed.")

prop("C37", "Every data subscription has the configured limit on pending data",
 """Before a filter, downsampler or writer reports ready, every NATS subscription through which it receives measurements has had its pending data limited to nats_max_pending_size bytes
 (with no limit on the number of messages), and the component refuses to start if the limit cannot be set.""",
 "configurations fault_sequences",
 "every accepted configuration, any number of subjects, every failure while starting",
 "Tests never fill a subscription, so a missing or wrong limit shows no difference.",
 "filter/filter.go downsampler/downsampler.go writer/writer.go",
 [("SetPendingLimits calls", "filter/filter.go, downsampler/downsampler.go, writer/writer.go")],
 LIFE, "Sizes of 2^62 bytes and more are excluded.")

prop("C38", "Components never give up reconnecting to NATS",
 """Every NATS connection a component opens is set up to try to reconnect for ever after it was lost, for every accepted configuration.""",
 "fault_sequences configurations",
 "outages of any length and number, every accepted configuration",
 "No test takes NATS away for longer than the default number of reconnection attempts lasts.",
 "listener/listener.go filter/filter.go downsampler/downsampler.go writer/writer.go monitor/monitor.go",
 [("connection options", "nats.Connect calls in listener/listener.go, filter/filter.go, downsampler/downsampler.go, writer/writer.go, monitor/monitor.go")],
 LIFE, "The behaviour of the NATS client library for a negative number of attempts is assumed.")

WRK = ABS + " with ghost state per line or chunk"

prop("C11", "The filter hands every line to exactly the right output",
 """A filter tries its rules on every parsed line in the configured order and adds the line, whole, only to the output of the first rule that matches;
 a line no rule matches goes only to the junkyard. Before it waits for more data, it has published each rule's output to that rule's subject and the junkyard output to the junkyard subject, and emptied them.""",
 "inputs histories configurations",
 "every message, every number and order of rules, every pattern of matches",
 "Tests use two or three rules and single lines; order, index mix-ups and missed outputs need particular combinations of rules and lines.",
 "filter/worker.go filter/rules.go filter/filter.go",
 [("looking up the rule", "filter/rules.go LookupParsed"), ("distributing and publishing", "filter/worker.go processLine, sendOff")],
 WRK + ": rules tried, output written, and subject of every publication",
 "Which lines a rule matches is not part of this property (each rule is any predicate); nor is the result of a publication. Lines which cannot be parsed are left out.")

prop("C13", "The filter drops lines outside the accepted time window, and only those",
 """A filter drops a line because of its time exactly when the line's timestamp differs from the current time by max_time_delta or more, in either direction. A line without a usable timestamp counts as current.""",
 "inputs configurations",
 "every line, every timestamp, every accepted max_time_delta up to 73 years",
 "Tests try a handful of timestamps; boundaries, signs and mixed batches are not covered.",
 "filter/worker.go",
 [("time window", "filter/worker.go processBatch, extractTimestamp")],
 WRK + ": the relation between now, the timestamp and max_time_delta is entailed wherever a line is parsed or dropped",
 "How the timestamp is read from the text of the line is not part of this property.")

prop("C15", "The filter's counters agree with what happens to each line",
 """For every non-empty line it receives a filter counts it as processed exactly once; as passed, and for its rule, exactly if it went to a rule's output; as rejected exactly if it went to the junkyard;
 and as having an invalid time exactly if it was dropped because of its time.""",
 "inputs histories",
 "every message and every sequence of lines in it",
 "Tests compare totals for a few lines; a counter missed or counted twice on one path stays unseen.",
 "filter/worker.go filter/rules.go",
 [("counters", "filter/worker.go processBatch, processLine"), ("per-rule counters", "filter/worker.go ruleSt")],
 WRK + ": the set of counters incremented for a line against what became of it",
 "Lines which cannot be parsed are counted as processed only.")

prop("C16", "A chunk that could not be written is kept for a retry",
 """If writing a chunk to InfluxDB fails for any reason and a retry queue is configured, exactly that chunk is queued for a retry, once, as a copy that later data cannot overwrite, and without being dropped if the queue is busy. Chunks written successfully are never queued.""",
 "inputs fault_sequences histories",
 "every pattern of write results, every batch content and size",
 "Tests let one write fail; partial copies, shared memory or a forgotten error path are only seen with other sizes and failures.",
 "writer/writer.go writer/influxclient.go writer/retryworker.go",
 [("queueing after a failed write", "writer/writer.go worker"), ("deciding on failure", "writer/influxclient.go Write")],
 WRK + ": typestate of a chunk between a failed write, its copy and the send to the retry goroutine", "A retry queue counts as configured if write_retry settings make the writer start one.")

prop("C17", "The retry queue is bounded, ordered and only drops chunks for a reason",
 """The retry queue never holds more than the configured number of chunks. New chunks are put at its end with a lifetime of the configured retry timeout, the chunk at its front is retried at the configured interval and moved to the end if it fails,
 and a chunk only leaves the queue when it was written, refused for good, expired, or had to make room for a new one.""",
 "schedules fault_sequences histories configurations",
 "every sequence of failures, arrivals and timer ticks, every accepted retry configuration",
 "Tests queue a few chunks; overflow, expiry and rotation together need long histories.",
 "writer/retryworker.go writer/writer.go",
 [("retry queue", "writer/retryworker.go retryQueue"), ("retry loop", "writer/retryworker.go")],
 WRK + ": length of the queue as a symbolic number, and the reason known for every removal", "The list library's operations are modelled by their documented effect.")

prop("C18", "Write results are classified by the status InfluxDB answered with",
 """A write counts as successful exactly if InfluxDB answered with a 2xx status. While retrying, a chunk is given up as written or refused for good exactly on a 2xx or 4xx status; any other status, and a request that got no answer, leaves it to be retried.""",
 "inputs fault_sequences",
 "every status code and every transport error",
 "Tests use 200, 204, 400 and 500 only.",
 "writer/influxclient.go writer/retryworker.go",
 [("judging answers", "writer/influxclient.go Write"), ("permanent errors", "writer/retryworker.go")],
 WRK + ": the class of the symbolic status code against the error returned and the fate of the chunk", "Redirects are followed by the HTTP library and not seen. A request which cannot even be built is outside of this property.")

prop("C19", "Every write request has the right target, a time limit and is cleaned up",
 """Every request a writer makes is a POST to the write endpoint of the configured protocol, address, port and (escaped) database, with the configured write timeout as its time limit; the body of every answer is closed.""",
 "configurations fault_sequences",
 "every accepted configuration, every answer",
 "Tests use one address and a fast local server, so a missing timeout, leaked answer or wrong escaping shows no difference.",
 "writer/influxclient.go writer/writer.go",
 [("building requests", "writer/influxclient.go newInfluxClient, Write")],
 WRK + ": symbolic URL string, client timeout and open bodies", "The query part besides db and the order of string operations do not matter.")

prop("C20", "Credentials go with every write, and nowhere else",
 """If a user for InfluxDB is configured, every write request carries exactly the configured user and password; otherwise none. The password does not reach logs, statistics, NATS messages or any other output of the writer.""",
 "configurations inputs fault_sequences",
 "every accepted configuration, every path of the writer",
 "Tests check one request; leaks happen on error and debugging paths.",
 "writer/influxclient.go writer/writer.go config/config.go",
 [("basic authentication", "writer/influxclient.go Write"), ("other outputs", "every call which leaves the writer")],
 WRK + " and taint tracking of the configured password into every call that leaves the program", "Leaks through timing or memory dumps are out of scope.")

prop("C21", "The writer stores every received line its rules accept, once and in order",
 """Without rules a writer adds every received message, whole and once, to its batch. With rules it looks at every line of the message one after the other and adds a line, whole and once, exactly if one of the rules matches it.""",
 "inputs histories configurations",
 "every message, every number of rules, every pattern of matches",
 "Tests use one rule and a few lines; skipped or repeated lines need particular line patterns.",
 "writer/writer.go filter/rules.go",
 [("batch write function", "writer/writer.go getBatchWriteFunc"), ("rules", "filter/rules.go Lookup")],
 WRK + ": position in the received data, rules looked at, and bytes appended to the batch", "Which lines a rule matches is not part of this property (each rule is any predicate).")

prop("C09", "Received messages are never modified",
 """The filter, the downsampler, the writer and the monitor never change the bytes of a message they received from NATS:
 splitting, parsing, unescaping, matching, averaging and forwarding only read them. So a line, tag or value which refers to part of a message keeps its content until the message is done with.""",
 "inputs histories schedules",
 "every message and every sequence of operations on parts of it",
 "Overwriting part of a shared buffer only shows with particular lines behind the modified one; tests compare single results.",
 "influx/tags.go influx/unescape.go influx/escape.go influx/token.go influx/timestamps.go filter/worker.go filter/rules.go downsampler/assigner.go downsampler/avgbucket.go writer/writer.go prometheus/parse.go prometheus/metric.go",
 [("lines and tags refer to the message", "filter/worker.go processBatch, influx/tags.go ParseTags"), ("values refer to the message", "influx/token.go, influx/unescape.go")],
 "lockset-style access analysis on a " + PTS + ": every store, append, copy or mutating call which may reach memory of a received message is reported",
 "append is taken to write into spare capacity of its first argument.")

prop("C25", "Failed publications, batches sent and data received are counted exactly",
 """The listeners, the filter and the downsampler count a publication of data exactly once as failed if it fails, and never if it does not.
 The listeners and the downsampler count every batch they send exactly once as sent, and the UDP listener every packet, the downsampler every message, exactly once as received.""",
 "inputs histories fault_sequences",
 "every sequence of packets, bodies and messages and every pattern of publish errors",
 "Tests check totals after a few successful sends; miscounts on error paths and split batches stay unseen.",
 "listener/listener.go filter/worker.go downsampler/downsampler.go stats/stats.go",
 [("counters of the listeners", "listener/listener.go sendBatch, listenUDP"), ("counters of filter and downsampler", "filter/worker.go publish, downsampler/downsampler.go worker")],
 ABS + ": a balance per counter between the events and its increments, which must be even wherever the component waits",
 "That the counter names reported are the documented ones is not part of this property.")

prop("C29", "The writer counts its requests, failures and messages exactly",
 """A writer counts every write request a worker makes, and every retry reported to it, exactly once as a write request, and exactly once as failed if it failed. It counts every message it receives exactly once.""",
 "inputs histories fault_sequences",
 "every sequence of messages, chunks and answers",
 "Tests send one batch which fits one request; the counters only differ if a batch is split or some requests fail.",
 "writer/writer.go writer/retryworker.go stats/stats.go",
 [("counters", "writer/writer.go worker"), ("reports of retries", "writer/retryworker.go")],
 ABS + ": a balance per counter between the events and its increments, which must be even wherever a worker waits",
 "Retries which the retry goroutine does not report because nobody listens are left out.")

prop("C46", "Every loop makes progress",
 """No loop of any component can run for ever without waiting for something: whatever the input, each way through a loop's body either waits for data, time, a peer or another part, or brings the loop closer to its end.
 In particular every parser, splitter and buffer-growing loop ends for every byte sequence and every accepted configuration.""",
 "inputs histories configurations",
 "every byte sequence, every accepted configuration, every path through every loop",
 "A loop that hangs does so on one peculiar input, such as a leading separator or an option at the edge of its range; tests which would hit it never return.",
 "influx/tags.go influx/token.go influx/unescape.go influx/timestamps.go prometheus/parse.go batch/batch.go batchsplitter/batch_splitter.go downsampler/avgbucket.go filter/worker.go writer/retryworker.go stats/anonstats.go listener/listener.go",
 [("loops over received data", "influx/token.go token, prometheus/parse.go parseLabels, downsampler/avgbucket.go update"), ("loops which grow or split buffers", "batch/batch.go, batchsplitter/batch_splitter.go"), ("loops over the retry queue", "writer/retryworker.go")],
 ABS + ": for every loop a (lexicographic) ranking function is found among the numbers it works with; a way round the loop which waited for something needs none",
 "Library loops are trusted to end. A failed compare-and-swap counts as waiting only when the value was loaded in the same round.")

prop("C30", "Everything periodic has a positive period",
 """Whatever a component does at a configured interval (statistics, retries, sending old batches, sampling windows) has an interval greater than zero in every configuration that is accepted.
 A configuration which would make a component spin, flood NATS with statistics or hammer InfluxDB is rejected when it is read.""",
 "configurations",
 "every configuration file and environment accepted at startup",
 "Tests use ordinary intervals; zero and negative ones were accepted and made goroutines spin.",
 "config/config.go listener/listener.go filter/filter.go downsampler/downsampler.go downsampler/assigner.go writer/writer.go writer/retryworker.go",
 [("validation of options", "config/config.go Validate"), ("periodic waits", "startStatistician of every component, writer/retryworker.go loop, listener/listener.go oldBatchSender")],
 ABS + " started from the states in which reading a configuration succeeds: every duration waited for or divided by which is an option must be entailed to be positive",
 "A wait until a computed point in time may be zero when that time has come.")

prop("C24", "Components use the subjects they are configured with",
 """Before it reports itself ready, a filter, downsampler or writer has subscribed exactly once to each of its configured input subjects, a writer with a configured queue group in that group, and the monitor to the subject of the metrics; what arrives on one input subject of a downsampler is never treated as coming from another.
 Listeners publish measurements to their configured subject and a downsampler publishes what it made from a subject to that subject followed by the configured suffix.
 Metrics are published to the configured subject for metrics and to no other, and measurements never are.""",
 "configurations inputs histories",
 "every configuration, any number of subjects and every message",
 "Tests configure one subject per component; confusing two subjects, or the first with the current one, needs several.",
 "listener/listener.go filter/filter.go filter/worker.go downsampler/downsampler.go writer/writer.go monitor/monitor.go",
 [("subscriptions", "StartDownsampler in downsampler/downsampler.go, StartWriter in writer/writer.go, StartFilter in filter/filter.go, Start in monitor/monitor.go"), ("publications", "listener/listener.go sendBatch, downsampler/downsampler.go worker")],
 ABS + ": the symbolic subject of each subscription and publication must be the configured one; a ghost counts the subscriptions made",
 "To which rule's subject a filter publishes is a property of its own.")

prop("C28", "Every counter a component uses is registered",
 """Every statistic which a component updates while it runs exists in its set of statistics.
 Counting therefore never fails, whatever arrives and whatever goes wrong.""",
 "inputs histories fault_sequences",
 "every path which counts something, including error paths",
 "The counter of an error path which no test takes can be missing: counting the first such error ends the process.",
 "stats/anonstats.go stats/stats.go listener/listener.go filter/filter.go filter/worker.go downsampler/downsampler.go writer/writer.go",
 [("registration and use of counters", "stats.New and Inc calls in listener/listener.go, filter/worker.go, downsampler/downsampler.go, writer/writer.go")],
 ABS + ": the constant name of every counter operation must be among the names its set was created with",
 "Indexed statistics must be used with an index below their size.")

prop("C45", "Statistics are published completely and rightly labelled",
 """Every time before the reporter of a component goes back to waiting, it has published to the subject for metrics a snapshot, taken since it last waited, of all its counters, labelled with the type and the configured name of the component.
 The counters of each rule of a filter and of each subject of a downsampler are all published in the same round, each labelled with the rule or subject which it counts.
 The number of messages dropped by each subscription is stored for the subject of this subscription.""",
 "configurations histories fault_sequences",
 "any number of rules, subjects and rounds; every result of asking NATS for dropped messages",
 "Tests look at one round of one component with one subject or rule; labels swapped between rules need several with different counts.",
 "stats/stats.go stats/anonstats.go stats/prometheus.go listener/listener.go filter/filter.go downsampler/downsampler.go writer/writer.go",
 [("reporting goroutines", "startStatistician in listener/listener.go, filter/filter.go, downsampler/downsampler.go, writer/writer.go")],
 ABS + ": ghosts for the snapshot, its text and the number of labelled counters published, checked wherever the reporting goroutine waits",
 "That the text renders name, labels, value and time of a counter is trusted here.")

prop("C31", "Configuration comes from the documented places",
 """The common configuration file is read first if it exists and the given file after it, so the given file wins; no value set in either file is replaced by a default, and an option set in neither has the documented default of its mode.
 A file which cannot be read or understood is rejected, and so is a mode which does not exist.
 The credentials for InfluxDB come from the environment only, and durations are understood as written, whole or not at all.""",
 "configurations",
 "every content of the two files and the environment, in every mode",
 "Tests read a few files; which of two sources wins depends on combinations of options and of values that look like unset ones.",
 "config/config.go config/duration.go",
 [("reading and defaults", "config/config.go NewConfigFromFile, newDefaultConfig"), ("durations", "config/duration.go UnmarshalText")],
 ABS + " of reading a configuration in each mode, once with files that may set everything and once with files that set nothing, with the decoder as an oracle that overwrites the options",
 "Decoding of the file format itself is trusted; the documented defaults are those of the README.")

prop("C44", "Probes answer for the state of the component",
 """The liveness and readiness probes listen on the configured port and answer with success exactly when the component is alive or ready, and with an error otherwise.
 A component that has not started up is alive and not ready; a port of zero turns the probes off without any other effect.
 Closing the probes closes the listening socket.""",
 "configurations histories schedules",
 "every sequence of changes of both states and every request",
 "Tests ask a handful of times; mixed-up states or a wrong first state mislead an orchestrator only in some phases.",
 "probes/probes.go",
 [("answers and states", "probes/probes.go Listen, SetReady, SetAlive, Close")],
 ABS + ": the handlers registered are run in every state of both flags, and the first status written must correspond to the flag of their path",
 "Who sets the states when is covered by the properties about starting and stopping.")

prop("C47", "The program runs the configured component",
 """The program starts exactly the component its configuration names, once, with the configuration just as it was read (but for a default number of workers of a writer), and nothing if reading failed.
 If reading the configuration or starting the component fails, it ends with a failure; otherwise it keeps running until it is told to stop.
 The profiling server is started only if a port for it is configured, and on that port.""",
 "configurations fault_sequences",
 "every accepted configuration and every failure of what it starts",
 "No unit test runs the main program; an exchanged mode or an ignored error shows only when a process is deployed.",
 "cmd/influx-spout/main.go config/config.go listener/listener.go filter/filter.go downsampler/downsampler.go writer/writer.go monitor/monitor.go",
 [("dispatch by mode", "cmd/influx-spout/main.go main, runComponent")],
 ABS + " of the main function once for each mode, starting functions being opaque and possibly failing",
 "Which modes exist is taken from the documentation.")

prop("C12", "Rules match exactly the lines they describe",
 """A basic rule matches a line exactly if the line's measurement is the configured name, a regex rule exactly if its expression matches the whole unescaped line, a negregex rule exactly if it does not, and a tags rule exactly if the line has every configured tag with its value.
 Whether a rule matches depends on nothing else, in particular not on the other rules tried before; a line that cannot be parsed matches nothing.
 The rules and their subjects are those configured, in that order, and a rule type which does not exist is refused.""",
 "inputs configurations",
 "every text of rules and lines",
 "Tests try a few names and tags; hash collisions, prefixes, repeated keys and values cached for another rule need particular combinations.",
 "filter/rules.go influx/tags.go filter/worker.go writer/writer.go",
 [("rules", "filter/rules.go CreateBasicRule, CreateRegexRule, CreateNegativeRegexRule, CreateTagRule, RuleSetFromConfig"), ("tags", "influx/tags.go SubsetOf")],
 ABS + " of building rules and trying them: what was compared on each path (equality of texts, matching of expressions) must entail the rule chosen",
 "All rule types alone and in pairs, tag rules with up to two tags on lines with up to three; texts are arbitrary. Parsing and unescaping of the line, and regular expressions, are opaque here.")

prop("C22", "The downsampler adds every line to the window its time falls into",
 """A downsampler worker always has three windows open, each one downsample_period long, ending at consecutive multiples of it, the second being the current one when it starts. Every non-empty line it receives is added, whole but without its timestamp and once, to the open window its timestamp falls into (start inclusive, end exclusive; lines without a timestamp count as current), and refused with an error only if there is none.
 The oldest window is closed and a new one opened exactly when the clock has reached the end of the second one, which the worker never waits beyond.""",
 "inputs histories configurations",
 "every period up to 73 years, every line, timestamp and clock reading, every sequence of messages and waits",
 "Tests use a fake clock with a handful of timestamps; boundaries between windows, long histories of rotations, and the clock running on between two readings are not covered.",
 "downsampler/assigner.go downsampler/downsampler.go",
 [("windows", "downsampler/assigner.go newAssigner, Bytes"), ("assigning lines", "downsampler/assigner.go Update, findBucket"), ("waiting", "downsampler/assigner.go UntilNext, downsampler/downsampler.go worker")],
 ABS + " of the downsampler's workers from construction through any number of messages: relation between a line's time, the clock and the ends of the open windows",
 "How the timestamp is read from the text of a line, and how values are averaged, is not part of this property. Times are exact integers (no overflow within 73 years of the epoch's range).")

prop("C23", "Everything in a closed window is published exactly once",
 """When a downsampler closes a window, all lines made from it are published, in one or several messages, each part exactly once and in order, before the worker waits for anything else; nothing else is published as data.""",
 "inputs histories fault_sequences",
 "every size of a window's lines, every outcome of publishing",
 "Tests publish small windows to a working server; parts lost or repeated need large windows or failing publications.",
 "downsampler/downsampler.go batchsplitter/batch_splitter.go",
 [("publishing", "downsampler/downsampler.go worker")],
 ABS + " of the downsampler's workers: what is split and published of the bytes of a closed window",
 "That the parts are the whole is the batch splitter's property (C02).")

prop("C26", "The monitor keeps the newest value of every metric it is sent",
 """If every line of a message a monitor receives is a valid metric, the monitor stores each of them, in place of what it had for the same name and labels, and loses nothing else it holds; metrics with other names or labels are never replaced.
 If any line of the message is invalid, nothing of that message is stored.""",
 "inputs histories",
 "every message, every set of metrics stored before",
 "Tests send two or three well-formed metrics; a metric skipped, merged with another one or half a message stored needs particular sets and messages.",
 "monitor/monitor.go prometheus/parse.go prometheus/metricset.go",
 [("receiving", "monitor/monitor.go receiveMetrics"), ("parsing", "prometheus/parse.go ParseMetrics"), ("merging", "prometheus/metricset.go UpdateFromSet, All, Update, metricKey")],
 ABS + " of the monitor's subscription, of ParseMetrics and of UpdateFromSet: every non-empty line parsed in order, every metric stored before the next one is taken, and under a key made of name and labels",
 "What a single metric line means is left to ParseMetric, whose accesses are checked by C07. Whether two different names and labels can be rendered the same is not examined.")

prop("C27", "A scrape of the monitor gives every stored metric exactly once",
 """Every request to the monitor's metrics page is answered with all metrics it holds at that moment, each rendered exactly once and on a line of its own, and with nothing else.""",
 "inputs histories",
 "every set of metrics, every request",
 "Tests scrape sets of up to a handful of metrics.",
 "monitor/monitor.go prometheus/metricset.go prometheus/metric.go",
 [("the handler", "monitor/monitor.go serveHTTP"), ("rendering", "prometheus/metricset.go ToBytes")],
 ABS + " of the HTTP handler and of rendering a set: ghosts for the metric taken last and for the number collected and rendered, and the page written",
 "That the page is a snapshot (the lock) is covered by C05; the bytes of one rendered metric are not interpreted. The HTTP library and the connection are trusted.")

prop("C08", "Whole numbers are read exactly or rejected",
 """Every text which is a decimal number, with an optional minus sign, and fits 64 bits is read as exactly that number, and every other text is rejected: nothing wraps around, is rounded or cut off.
 The timestamp of a line is the number after a space which ends where the line ends, and the position reported for it is where that number starts.""",
 "inputs",
 "every byte sequence of every length",
 "Tests try a dozen numbers; values which overflow only for certain digits, or which lie on the edges of the range, are among 2^64.",
 "convert/convert.go influx/timestamps.go",
 [("conversion", "convert/convert.go ToInt"), ("timestamps", "influx/timestamps.go ExtractTimestamp, ExtractNanos")],
 ABS + " with exact machine integers: the invariant that the number computed equals the value of the digits looked at so far is inferred and demanded of every result; an error must come with an invalid byte or a value out of range",
 "Whether a timestamp is found at all (how far back a space is searched) is not specified, only what is returned as one.")

prop("C10", "Downsampled values are the averages of what was received",
 """The value the downsampler publishes for a field in a window is the average of all values received for that measurement, tag set and field in the window,
 up to the rounding of floating-point addition; integers are averaged as integers, and strings and booleans take the last value.""",
 "inputs histories", "every sequence of values, of every magnitude and order",
 "Tests average a few small numbers; cancellation, overflow of integer sums and long histories are not sampled.",
 "downsampler/avgbucket.go", [("sums and counts per field", "downsampler/avgbucket.go")],
 na="Quantifies over the numerical value of sums of unboundedly many floating-point numbers and over which text denotes which number; the numeric domain is linear over machine integers and has no model of floating point. That each line reaches the right window, and each window is published once, is C22 and C23.")

prop("C14", "Sorting the tags of a line changes nothing but their order",
 """The line that tag sorting returns has the same measurement, the same tags and the same rest as the line it was given, with the tags in ascending order of their bytes,
 and lines which differ only in the order of their tags become identical.""",
 "inputs", "every line, with every form of escaping",
 "Tests sort a dozen lines; escapes, missing fields and tags which are prefixes of one another need particular bytes.",
 "influx/tags.go influx/token.go", [("sorting and reassembling", "influx/tags.go")],
 na="An equality between permutations of unbounded byte contents: the abstract domain has positions, lengths and origins of bytes but no sequences of pieces sorted by content. That sorting does not modify its input (C09), stays in bounds (C07) and ends (C46) is decided.")

prop("C33", "Every accepted configuration starts",
 """A configuration which passes validation does not make a component panic or exit while it is being built and started, apart from failures of the network or the file system,
 and a configuration that could is refused with an error.""",
 "configurations", "every configuration file accepted",
 "Tests start components with a few sensible configurations; malformed rules and extreme numbers are not tried.",
 "config/config.go filter/rules.go writer/writer.go", [("validation", "config/config.go"), ("building rules", "filter/rules.go")],
 na="Needs the exact set of texts accepted by the regular expression compiler and by the rule parsers, and which sizes the run time can allocate (channels and slices sized by the configuration); neither is in reach of the domain. The defects known of this kind were found by reading and are repaired; positive periods and timeouts are decided by C30.")

prop("C39", "The tap prints the lines of its subject, all of them and nothing else",
 """Every line of every message on the subject the tap was told to follow is written to its standard output once, byte for byte and in the order received;
 with a pattern these are exactly the lines the pattern matches. Nothing else is written there, and the tap neither goes on without a connection nor stops by itself once it has one.""",
 "inputs histories configurations", "every message, every pattern, every combination of options",
 "The tap has no tests; format verbs, unterminated last lines and patterns need particular messages.",
 "cmd/influx-spout-tap/influx-spout-tap.go", [("the subscription and the printing of lines", "cmd/influx-spout-tap/influx-spout-tap.go")],
 ABS + " of the tap's main function and subscription with a cursor over the lines: each line is printed once or was found not to match",
 "What a pattern matches is the regular expression library's. Errors when writing to the standard output, and interruption by the user, are outside the property.")

prop("C40", "Every line accepted by a listener reaches InfluxDB while all parts are up",
 """While no part is overloaded, stopped or disconnected, every line a listener accepts passes the filter and arrives at every writer subscribed to its subject, once.""",
 "histories schedules", "every schedule of the processes and of NATS",
 "The end-to-end test sends a handful of lines through one arrangement of processes.",
 "listener/listener.go filter/filter.go writer/writer.go", [("subjects", "config/config.go")],
 na="Depends on delivery by NATS and on the relative speed of processes, which no static argument about this source bounds. The parts inside each process are C03, C11, C21, C24 and C37.")

prop("C41", "Data passes through within a bounded time",
 """A line accepted by a listener is handed to InfluxDB within the sum of the configured batch ages and a small constant.""",
 "schedules configurations", "every load the hardware sustains",
 "Tests measure no time.",
 "listener/listener.go writer/writer.go", [("batch age", "batch/batch.go")],
 na="Real time depends on the scheduler, the network and the load. What the source determines, the age limit at every wait and the bound on every wait, is C04.")

prop("C42", "Unescaping undoes escaping",
 """For every byte sequence, unescaping the escaped form of a tag or measurement gives the sequence back, and nothing escaped contains an unescaped separator.""",
 "inputs", "every byte sequence",
 "Tests use a few dozen strings.",
 "influx/escape.go influx/unescape.go", [("escape and unescape", "influx/escape.go, influx/unescape.go")],
 na="An equality of unbounded byte contents through two loops, which needs an inductive relation between contents; the domain relates positions and single bytes only. (It is also false for inputs with a backslash before a separator, which line protocol itself cannot represent.)")

prop("C43", "No lock is leaked, taken twice or held while waiting",
 """Every lock a component takes is released again on every path, is never taken again by the part that already holds it, and locks are not taken in conflicting orders.
 No component holds a lock while it waits for a client, for NATS, for InfluxDB, for time to pass or for another part, so one slow peer cannot hold up everything else.""",
 "schedules inputs fault_sequences",
 "every path of every concurrently running part, whatever the peers do",
 "A stuck lock needs a slow or failing peer at the right moment; tests use fast local peers.",
 "listener/listener.go monitor/monitor.go probes/probes.go stats/anonstats.go stats/stats.go",
 [("the HTTP listener's batch lock", "listener/listener.go"), ("the monitor's metrics lock", "monitor/monitor.go")],
 ABS + " with the set of locks held: at every wait it must be empty, at every end of a part all are released",
 "Publishing to NATS only queues the message and is not a wait; writing to the log is ignored.")
