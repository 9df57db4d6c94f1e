#!/usr/bin/env python3
# generates /verif/properties.jsonl (single source of the property texts)
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Tag mutation semantics and immutability of existing tag contexts",
 "Deriving a tag context applies the given mutators in order to a copy of the parent's tags: insert sets only an absent key, update only a present one, upsert always sets, delete removes, and every tag not addressed keeps its value and its propagation metadata. If a mutator is given an invalid value the derivation reports an error and hands back the parent context unchanged. The tags seen through the parent context never change.",
 ["inputs","histories"],"every parent tag map, every finite mutator list of insert/update/upsert/delete with every key, value and metadata",
 "tests try a handful of two- or three-element mutator lists; the claim is over all maps and all lists, including the untouched keys and their metadata",
 ["tag/map.go","tag/context.go","tag/metadata.go"],
 [("New copies the parent map then folds the mutators","tag/map.go New"),("insert/update/upsert/delete","tag/map.go Map methods"),("metadata creation, default unlimited TTL","tag/map.go createMetadatas")],
 [("Map.m","key -> (value, metadata)","tag/map.go")],["tag.New","tag.FromContext","Map.Value"])
p("C02","Tag keys and values are printable ASCII of at most 255 bytes",
 "A tag key can be created exactly when its name is non-empty, at most 255 bytes long and made only of printable ASCII (0x20 to 0x7e); otherwise an error is returned and no usable key. Insert, update and upsert accept exactly the values that are at most 255 bytes of printable ASCII (the empty value included) and otherwise fail without changing any tag.",
 ["inputs"],"every string (any bytes, any length) as key name or value",
 "tests sample a few names; the boundary classes over all byte strings, including multi-byte and invalid UTF-8, are not enumerated",
 ["tag/validate.go","tag/key.go","tag/map.go"],
 [("checkKeyName/checkValue/isASCII","tag/validate.go"),("NewKey/MustNewKey","tag/key.go"),("mutator closures check the value first","tag/map.go")],None,["tag.NewKey","tag.New"])
p("C03","Binary tag codec is total, all-or-nothing and bounds safe",
 "Decoding tags from any byte string either fails with an error and yields no map, or yields a map whose keys and values are all valid and which are marked for unlimited propagation; it never panics or reads outside the input. Encoding a tag map emits the version byte followed by exactly one key/value record per tag that has unlimited-propagation metadata, and none for other tags.",
 ["inputs"],"every byte string given to decode; every tag map given to encode",
 "tests decode a few hand-written buffers; hostile varint lengths and truncations over all inputs are out of their reach",
 ["tag/map_codec.go","tag/key.go","tag/validate.go"],
 [("DecodeEach loop and reader bounds checks","tag/map_codec.go"),("Encode filters on TTL; buffer growth","tag/map_codec.go")],
 [("encoderGRPC","buffer with read/write cursors","tag/map_codec.go")],["tag.Encode","tag.Decode","tag.DecodeEach"])
p("C04","Binary trace-context format round-trips and rejects malformed input",
 "The binary form of a span context is 29 bytes: version 0, field 0 with the 16-byte trace ID, field 1 with the 8-byte span ID and field 2 with the low 8 option bits; a zero span context encodes to nothing. Decoding accepts exactly inputs that start with version 0 and hold a trace-ID field, an absent span-ID or options field leaving that part zero, never panics, and recovers trace ID, span ID and options from every encoded context.",
 ["inputs"],"every span context; every byte string of any length",
 "tests use a dozen fixed byte strings; totality and round-trip are statements over all of them",
 ["trace/propagation/propagation.go"],[("Binary","trace/propagation/propagation.go"),("FromBinary","trace/propagation/propagation.go")],None,["propagation.Binary","propagation.FromBinary"])
p("C05","B3 headers: extraction and injection agree and never panic",
 "Extracting from B3 headers succeeds only if the trace ID header is hexadecimal for at most 16 bytes and the span ID header for at most 8 bytes (shorter values being left-padded with zeros), and the sampled flag is set exactly for the values \"true\" and \"1\". Injecting writes the trace ID and span ID in full lower-case hexadecimal and the sampled header as \"1\" or \"0\", so that extracting an injected context gives the same trace ID, span ID and sampling bit whenever both IDs are valid. No header value makes it panic.",
 ["inputs"],"every header string and every span context",
 "tests use a table of header values; padding and length handling over all strings and the inverse property over all IDs is not sampled",
 ["plugin/ochttp/propagation/b3/b3.go"],[("ParseTraceID, ParseSpanID, ParseSampled","plugin/ochttp/propagation/b3/b3.go"),("SpanContextToRequest/FromRequest","plugin/ochttp/propagation/b3/b3.go")])
p("C06","W3C traceparent parsing validates and round-trips",
 "A traceparent header is accepted only if it holds version, 32-digit trace ID, 16-digit span ID and options fields in hexadecimal separated by dashes, the version is not 255, version 0 has exactly four fields, and neither ID is all zero; the accepted context carries exactly those IDs and that option byte. An injected header is \"00-\" followed by the trace ID, span ID and one option byte in lower-case hexadecimal, and extracting it gives back the same IDs and low option byte. No header value makes it panic.",
 ["inputs"],"every header string; every span context with valid IDs",
 "tests cover a table of headers only",
 ["plugin/ochttp/propagation/tracecontext/propagation.go"],[("SpanContextFromHeaders / SpanContextToHeaders","plugin/ochttp/propagation/tracecontext/propagation.go")])
p("C07","Tracestate: bounded, valid, unique keys, newest first, immutable",
 "A tracestate built from a parent and new entries holds the new entries first in the given order, then the parent's entries whose keys were not overwritten, in their order; creation fails if a key is malformed, duplicated among the new entries, a value is malformed, or more than 32 entries would result. An existing tracestate, and the caller's own slices, never change afterwards through the creation of others or through later use of the slices passed in.",
 ["inputs","histories"],"every parent tracestate and every list of entries, and every later use of the slices involved",
 "tests build a few small states; aliasing through spare slice capacity and the full key/value grammar are not reached",
 ["trace/tracestate/tracestate.go"],[("New, add, remove","trace/tracestate/tracestate.go"),("key/value validation","trace/tracestate/tracestate.go")])
p("C08","Cloud trace header parsing is total and inverse to injection",
 "The X-Cloud-Trace-Context header is accepted only when, in at most 200 bytes, it is a hexadecimal trace ID, a slash and a decimal 64-bit span ID (read big-endian), optionally followed by a semicolon and options; options spelled \"o=N\" must have a decimal N, whose low 32 bits become the option value; everything of another form is rejected, and no header makes it panic. A context injected into a request is recovered by extraction with the same trace ID, span ID and option value.",
 ["inputs"],"every header string; every span context",
 "tests cover a handful of headers","exporter/stackdriver/propagation/http.go".split(),[("SpanContextFromRequest / SpanContextToRequest","exporter/stackdriver/propagation/http.go")])
p("C09","A started span inherits its trace and records its parent",
 "A span started under a parent keeps the parent's trace ID and tracestate and, if recording, names the parent's span ID as its parent and says whether the parent was remote; a span without a parent takes its trace ID from the configured generator and has no parent ID. Every started span takes its own span ID from the configured generator and carries the requested name and kind, and a started child increments the child count of its local recording parent by one.",
 ["inputs","configurations"],"every parent context, generator, sampler, option list and configuration",
 "tests start a few spans under the default configuration",
 ["trace/trace.go","trace/trace_api.go"],[("startSpanInternal, StartSpan, StartSpanWithRemoteParent","trace/trace.go")])
p("C10","Sampling decision follows the documented precedence",
 "The sampling bit of a new span is the decision of the sampler in its start options if there is one, else the parent's bit for a local parent, else the decision of the default sampler, which is told the parent context, the new IDs, the name and whether the parent is remote; all other option bits are the parent's. The probability sampler samples whenever the parent is sampled and otherwise decides only by comparing the trace ID's first eight bytes against a bound that is nothing at fraction 0 or below and everything at 1 or above.",
 ["inputs","configurations"],"every parent, option list, sampler and configured default; every fraction and trace ID",
 "tests check a few statistical samples; the exact decision function over all IDs and fractions is not tested",
 ["trace/trace.go","trace/sampling.go"],[("sampler choice","trace/trace.go startSpanInternal"),("ProbabilitySampler, AlwaysSample, NeverSample","trace/sampling.go")])
p("C11","Span event buffers are bounded and count what they drop",
 "For a recording span the newest annotations, message events and links up to the configured limit are kept in order, and the least recently written attributes are evicted beyond the attribute limit, with the dropped count equal to the number of additions minus the number kept. What is exported is a snapshot holding exactly the kept items and dropped counts, and later changes to the span do not alter it.",
 ["inputs","histories"],"every sequence of attribute, annotation, message-event and link additions under every positive limit",
 "tests fill one buffer slightly past its limit; the equality must hold after every history",
 ["trace/evictedqueue.go","trace/lrumap.go","trace/trace.go"],[("evictedQueue.add","trace/evictedqueue.go"),("lruMap","trace/lrumap.go"),("makeSpanData","trace/trace.go")])
p("C12","A sampled span is exported once; unsampled or nil spans are inert",
 "Ending a span delivers its data to every exporter registered at that moment exactly once if the span is sampled, and to none otherwise, however often and from however many goroutines it is ended; the delivered end time is not before the start time. On a nil or non-recording span every operation returns without effect on any recorded data and without panicking.",
 ["inputs","schedules","histories"],"every span, every registered exporter set, every number of End calls",
 "tests end a span once or twice from one goroutine",
 ["trace/trace.go","trace/trace_api.go","trace/export.go"],[("End guarded by once","trace/trace.go span.End"),("nil and recording guards","trace/trace.go")])
p("C13","Span data and span stores are accessed only under their locks",
 "Every read and write of a live span's recorded data, and of the sampled-span store's buckets and active sets, happens while the lock that protects it is held, and every lock taken by a span operation is released when the operation returns. Hence no schedule of concurrent operations on one span races or deadlocks on that lock.",
 ["schedules","inputs"],"every interleaving of span operations, store reports and configuration on any number of goroutines",
 "a race test samples a few schedules; the lock discipline quantifies over all paths",
 ["trace/trace.go","trace/spanstore.go"],[("span.mu protects *data and the buffers","trace/trace.go"),("spanStore.mu, ssmu","trace/spanstore.go")])
p("C14","Applying a trace configuration changes only what it sets",
 "Applying a configuration replaces exactly those settings that are given (a non-nil sampler or generator, a positive limit) and keeps the current value of every other setting; limits therefore stay positive. Spans read the configuration as one consistent value and a configuration value already in use is never modified.",
 ["inputs","histories","configurations"],"every sequence of configurations",
 "tests apply two configurations",
 ["trace/config.go","trace/trace.go"],[("ApplyConfig","trace/config.go")])
p("C15","Sampled-span store buckets partition spans and are bounded",
 "Each finished span without error falls in exactly one latency bucket, the one whose bounds contain its duration, and each span with an error status in the bucket of its code; a bucket holds at most its configured number of spans, keeping the most recent of those sampled into it (a span is sampled when it ends at least a second after the last one sampled), oldest first, also after wrapping around and resizing. A report by error code lists the spans held for that code; a report by latency those held whose duration lies within the bounds asked for.",
 ["inputs","histories"],"every sequence of finished spans, durations, codes and bucket sizes",
 "tests add a few spans; ring-buffer wrap-around and resizing in every phase are not covered",
 ["trace/spanbucket.go","trace/spanstore.go"],[("bucket ring buffer add/resize/span","trace/spanbucket.go"),("latencyBucket/latencyBucketBounds","trace/spanbucket.go"),("spanStore.latencyBucket, finished, resize","trace/spanstore.go")])
p("C16","Exporter registration is idempotent and never mutates a published set",
 "Registering a trace exporter makes the registered set the previous set plus that exporter, unregistering removes exactly that one, and a set that span operations may be iterating over is never modified. All updates are made under one lock so none is lost.",
 ["histories","schedules"],"every sequence and interleaving of register and unregister calls with ending spans",
 "tests register one exporter","trace/export.go".split(),[("RegisterExporter/UnregisterExporter copy-on-write","trace/export.go")])
p("C17","A measurement reaches recording exactly when it should",
 "Recording with tags passes to the recorder the tag map of the given context after the given mutators, the caller's attachments and exactly the caller's measurements, when at least one measurement belongs to a measure that some view uses, and passes nothing otherwise. An integer measurement carries the integer's value as a float, and creating a measure again under one name yields the same underlying measure.",
 ["inputs","histories"],"every option list, measurement list and tag context",
 "tests record a few measurements",
 ["stats/record.go","stats/measure.go","stats/measure_int64.go","stats/measure_float64.go"],[("RecordWithOptions","stats/record.go"),("registerMeasureHandle","stats/measure.go")])
p("C18","Rows are grouped by exactly the tag values of the view's keys",
 "Two recordings contribute to the same row of a view exactly when they agree, for each tag key of the view, on the value of that tag (an absent tag counting as the empty value), and a row's tags are exactly the keys with a non-empty value, with those values, in key order. Tags that are not keys of the view never influence the grouping.",
 ["inputs"],"every key list, every pair of tag maps",
 "tests use a few tag maps; collisions of the encoded grouping key range over all values",
 ["stats/view/collector.go","internal/tagencoding/tagencoding.go"],[("encodeWithKeys/decodeTags","stats/view/collector.go"),("WriteValue/ReadValue","internal/tagencoding/tagencoding.go")])
p("C19","Aggregations compute their mathematical definition",
 "Count data equals the number of samples, sum data their sum, last-value data the most recent sample; distribution data holds the count, minimum, maximum, running mean and sum of squared deviations updated by the documented recurrences. Every sample is counted in exactly one bucket, the one whose half-open interval between adjacent bounds contains it, so bucket counts add up to the count, and an exemplar stored for a bucket is the sample last put there with its attachments.",
 ["inputs","histories"],"every sequence of samples, every sorted bounds list",
 "tests use short sample lists and a few bound lists",
 ["stats/view/aggregation_data.go","stats/view/aggregation.go"],[("addSample of each aggregation","stats/view/aggregation_data.go"),("bucket search addToBucketWithIndex","stats/view/aggregation_data.go")])
p("C20","Collected rows and exported points are faithful independent copies",
 "The data handed out for a view's row is a copy: later recordings never change it, and it equals the row's aggregation at collection time including bucket counts and exemplars. A metric point derived from a row has the type of the view's aggregation and measure and carries exactly its value: an integer measure's sum or last value as an integer, count as an integer, and distribution with count, sum, squared deviations, bounds and bucket counts.",
 ["inputs","histories"],"every aggregation state and every view definition",
 "tests compare a few conversions",
 ["stats/view/aggregation_data.go","stats/view/view_to_metric.go","stats/view/collector.go"],[("clone","stats/view/aggregation_data.go"),("toPoint","stats/view/aggregation_data.go"),("viewToMetric, toLabelValues","stats/view/view_to_metric.go")])
p("C21","View registration is all-or-nothing and conflict-free",
 "A view is registered only if its definition is valid, and names are unique: registering a view whose name is taken by a view with a different measure, aggregation or defaults fails, registering an equal one again succeeds without a second subscription. A registered view's tag keys are sorted and duplicate free, its bounds are sorted with no leading zero bound, and its name and description default to the measure's.",
 ["inputs","histories"],"every view list and registration history",
 "tests register a few views",
 ["stats/view/view.go","stats/view/worker.go","stats/view/worker_commands.go"],[("canonicalize","stats/view/view.go"),("tryRegisterView, registerViewReq.handleCommand","stats/view/worker.go")])
p("C22","Metric entries are identified by their label values",
 "Getting an entry of a gauge or cumulative with the wrong number of label values fails and creates nothing; with the right number it returns the entry for exactly those values, the same one every time and different ones for different values. What is read for an entry carries its label values in the order of the metric's keys with constant labels first.",
 ["inputs","histories"],"every label key list, every sequence of label value lists",
 "tests use a few one or two label lists; collisions of the encoded identity range over all values",
 ["metric/common.go","metric/gauge.go","metric/cumulative.go","internal/tagencoding/tagencoding.go"],[("entryForValues, upsertEntry, encodeLabelVals, decodeLabelVals","metric/common.go")])
p("C23","Gauge and cumulative updates are atomic; cumulatives never decrease",
 "Concurrent additions to a float or integer gauge or cumulative entry are never lost: its value is the last set value plus all later additions, whatever the interleaving. A cumulative entry ignores non-positive increments, so its value never decreases (an integer one as long as it does not overflow 64 bits).",
 ["schedules","inputs"],"every interleaving of set and add operations with every value",
 "a stress test samples schedules only",
 ["metric/gauge.go","metric/cumulative.go"],[("atomic add and compare-and-swap loops","metric/gauge.go Float64Entry.Add; metric/cumulative.go Inc")])
p("C24","Metric registry and producer manager hold exactly what was registered",
 "Adding a metric under a name taken by a metric of another type fails and changes nothing; otherwise the metric returned is the one the registry reads from then on under that name, with the given description and unit, its type, and its keys (constant ones first, sorted, then the given ones in order). Reading the registry gives one metric per registered metric with its descriptor and one series per entry. The producer manager returns each added producer once regardless of repeated additions, deletes exactly the one asked for, and hands out a copy.",
 ["inputs","histories","schedules"],"every sequence and interleaving of additions, deletions and reads",
 "tests add one or two",
 ["metric/registry.go","metric/metricproducer/manager.go"],[("Registry.AddX/initBaseMetric/Read","metric/registry.go"),("Manager","metric/metricproducer/manager.go")])
p("C25","Periodic metric reading starts once and stops cleanly",
 "An interval reader starts only with an exporter, a non-nil underlying reader and a reporting interval of at least one second (zero meaning the default), and only once; every other start returns an error. Stopping is idempotent, stopping a reader never started does nothing, and each read makes exactly one export, of exactly the metrics of all producers (an empty list if there are none).",
 ["histories","configurations"],"every sequence of start, stop and flush calls and every interval",
 "tests use a few lifecycles",
 ["metric/metricexport/reader.go"],[("NewIntervalReader, Start, Stop, Flush, ReadAndExport","metric/metricexport/reader.go")])
p("C26","Resources merge with first-detector precedence and encode losslessly",
 "Merging resources keeps the first type and, per label key, the value of the first resource that has it, without modifying any input. Multi-detection merges the detectors' results in order, stopping with the first error. Parsing a label string never panics, returns either labels or an error, and reads back exactly what encoding wrote for labels whose keys are of the documented kind (domain names and paths) and whose values hold no quote.",
 ["inputs"],"every list of resources and detectors; every label string",
 "tests use a few literal inputs",
 ["resource/resource.go"],[("merge, MultiDetector, FromEnv","resource/resource.go"),("EncodeLabels/DecodeLabels","resource/resource.go")])
p("C27","Name sanitising maps onto a safe alphabet within a fixed length",
 "Sanitising a name yields a string of at most 100 runes' worth of input in which every character is a letter, digit or underscore; it prefixes \"key_\" if the first character is a digit and \"key\" if it is an underscore, leaves valid characters as they are and turns every other one into an underscore.",
 ["inputs"],"every string",
 "tests cover a table of strings",["internal/sanitize.go"],[("Sanitize, sanitizeRune","internal/sanitize.go")])
p("C28","gRPC stats count every RPC's messages, bytes and outcome once",
 "For each RPC the client and server handlers accumulate one count per payload sent and received and their byte totals, and when the RPC ends record once the counts, byte totals, latency and the status name for its gRPC code (an empty name when the error carries no gRPC status), unless the tags of the recording are invalid, when nothing is recorded; a handler given a context without RPC data records nothing and does not panic. Every gRPC code maps to its canonical upper-case name.",
 ["inputs","histories","schedules"],"every event sequence of an RPC and every status code",
 "tests replay a few event sequences",
 ["plugin/ocgrpc/stats_common.go","plugin/ocgrpc/client_stats_handler.go","plugin/ocgrpc/server_stats_handler.go"],[("statsHandleRPC, handleRPC*","plugin/ocgrpc/stats_common.go"),("statusCodeToString","plugin/ocgrpc/stats_common.go")])
p("C29","HTTP client plugin does not touch the caller's request and ends its span",
 "The HTTP client transport never modifies the request it was given when it starts tracing or tagging, forwards to the wrapped transport exactly once, and returns its response and error. The client span is ended exactly once: on error, on a body read error or end of file, or on closing the body, and the body passes on exactly the bytes and errors of the wrapped body.",
 ["inputs","histories","fault_sequences"],"every request, response, error and body read/close sequence",
 "tests use a few request shapes",
 ["plugin/ochttp/client.go","plugin/ochttp/trace.go","plugin/ochttp/client_stats.go"],[("traceTransport.RoundTrip, bodyTracker","plugin/ochttp/trace.go"),("statsTransport, tracker","plugin/ochttp/client_stats.go")])
p("C30","HTTP status codes map to the canonical trace status",
 "An HTTP status from 200 to 399 maps to OK; 400 and 422 map to INVALID_ARGUMENT, 401 to UNAUTHENTICATED, 403 to PERMISSION_DENIED, 404 to NOT_FOUND, 409 to ALREADY_EXISTS, 429 to RESOURCE_EXHAUSTED, 499 to CANCELLED, 501 to UNIMPLEMENTED, 503 to UNAVAILABLE, 504 to DEADLINE_EXCEEDED, and every other integer to UNKNOWN. The status message is the canonical name of that code, whatever status line is given.",
 ["inputs"],"every integer status code and status line",
 "tests list a few codes",["plugin/ochttp/trace.go"],[("TraceStatus","plugin/ochttp/trace.go")])
p("C31","Runtime metrics report the runtime's own numbers under fixed names",
 "The runtime metrics producer exports exactly the enabled metrics under the configured prefix, each reading equal to the value the runtime reported at that read, whether reported as gauges or as cumulatives. Enabling replaces a previously enabled producer, disabling removes it.",
 ["inputs","configurations","histories"],"every option combination and runtime state",
 "tests check that some names exist",["plugin/runmetrics/producer.go"],[("producer.Read, Enable, Disable","plugin/runmetrics/producer.go")])
p("C32","Debug pages list the spans their counts refer to",
 "The span page counts, for each latency range shown, the spans of the corresponding bucket of the store and the listing for a range requests exactly that range; every status code is shown under its canonical name.",
 ["inputs","histories"],"every store content and every request parameter",
 "tests render one page",["zpages/tracez.go","zpages/rpcz.go"],[("traceSpans, getSummaryPageData, readRowset","zpages/tracez.go")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
