#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": {"files": files, "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or [], "hook_needed": None}}
L = []
L.append(P("P01", "Accepted spans reach the trace agent exactly once",
 "While the trace agent works and the load is below the overload limits, every span of a request that was answered with success, and whose trace is complete and well-formed within the hold time, arrives at the trace agent exactly once. The agent never gets a span that nobody sent (apart from the synthetic root of a trace), and no span of one trace ever ends up in another.",
 ["inputs", "schedules", "histories"],
 "every set of concurrent requests in any of the three input formats, any split of traces over requests, connections and chunks, any interleaving of handlers, assembly, forwarding and sending",
 "The tests call the parsers and the assembly once, in one thread, with a handful of documents; the path over HTTP, four concurrent stages, reused buffers and reused slices to the agent's socket is never executed.",
 ["handlers.go", "correct.go", "main.go", "datadog/converter.go"],
 [("one channel from all handlers into the assembly", "handlers.go parseSpansWithJSON"), ("single threaded assembly keyed by trace id", "correct.go ErrorCorrectSpans"), ("fan out of a finished trace", "main.go forwardSpansToChannels"), ("batching sink", "datadog/converter.go Sink")],
 observe=["HTTP answer of every request", "submissions received by the trace agent"]))
L.append(P("P02", "A request is processed whole or not at all",
 "A request is answered with success only if its whole body arrived intact (length, chunking, compression checksum) and it could be read to its end as a document of its format; then all of its spans are processed. Otherwise (cut short, damaged, or of another format) it is answered with a client error, none of its spans is processed, and no other request is affected.",
 ["inputs", "fault_sequences", "schedules"],
 "every document, truncated, damaged or reset at any byte, plain or compressed, with any chunking, concurrently with other requests",
 "The tests feed complete documents to the parsers and never exercise the HTTP handlers, compression, truncated transfers or the absence of effects of a rejected request.",
 ["handlers.go", "codec/json-v1.go", "codec/json-v2.go", "codec/jaeger.go", "codec/hyperjson/parser.go"],
 [("parse everything before the first span is handed on", "handlers.go parseSpansWithJSON"), ("gzip decoding of the body", "handlers.go handleGzipRequestBody")],
 observe=["HTTP answer of every request", "submissions received by the trace agent"]))
L.append(P("P03", "A trace is delivered whole, once, with exactly one root",
 "All spans of a trace that arrive within the hold time, in whatever order and over however many requests, are delivered together in one submission: unchanged parent links, one entry per span id. If several top-level spans share the same missing parent, one synthetic root with that id is added that covers exactly their time range and is itself a root; if there is no unique root otherwise (several unrelated roots or only a cycle), nothing of the trace is delivered.",
 ["inputs", "schedules", "histories"],
 "every tree shape (deep, wide, self-parented root, root without parent, root with unknown parent, several top-level spans, cycles), every arrival order and spread, every id value",
 "The tests build a few fixed trees in memory; arrival order, spread over requests and time, ids with the high bit set or equal to the trace id, and the delivery of the assembled trace are not covered.",
 ["correct.go", "main.go"],
 [("ordered span list with binary search", "correct.go SpanSlice"), ("root search", "correct.go Roots"), ("synthetic root", "correct.go createFakeRoot"), ("verdict", "correct.go finishTraces")],
 observe=["submissions received by the trace agent", "output of the assembly stage"]))
L.append(P("P04", "A trace is held for the hold time and then released promptly",
 "A trace is released no earlier than the hold time after its last span arrived and no later than a fraction of a second after that; every arriving span restarts the wait, up to an age of five hold times. The hold time is 8 seconds, and 6, 4 or 2 seconds once 40,000, 60,000 or 80,000 spans are waiting. Steps of the wall clock change none of this.",
 ["histories", "schedules", "configurations"],
 "every sequence of arrivals and gaps, every load level across the three thresholds, every wall clock step, every pause of the process",
 "No test runs the assembly loop: it depends on timers of seconds, and on loads of tens of thousands of spans.",
 ["correct.go"],
 [("periodic scan", "correct.go ErrorCorrectSpans"), ("hold time by load", "correct.go bufferConfigs, finishTraces"), ("monotonic time stamps of a trace", "correct.go newTree, AddSpan")],
 observe=["time at which a trace leaves the assembly stage", "time at which the trace agent gets it"]))
L.append(P("P05", "Every field of a span survives the way from client to agent",
 "What the agent receives for a span is what the client's document says: ids and parent, operation name, service, start and duration, error flag and every tag, for the zipkin v1, zipkin v2 and jaeger formats. This holds for every valid JSON encoding (escapes, unicode, white space, field order, unknown fields, any length), any chunking and compression, and never depends on other spans, requests or earlier traffic.",
 ["inputs", "schedules", "histories"],
 "every valid document of the three formats, every chunking, any number of concurrent requests that share pooled buffers and interned strings",
 "The tests parse fixed documents from memory in one piece; buffer refills at arbitrary byte positions, long tokens, escapes, reuse of pooled buffers and concurrent parsing are not exercised.",
 ["codec/json-v1.go", "codec/json-v2.go", "codec/jaeger.go", "codec/hyperjson/parser.go", "codec/hyperjson/bind.go", "codec/hyperjson/string.go", "cache/cache.go", "datadog/converter.go"],
 [("streaming JSON parser", "codec/hyperjson/parser.go"), ("struct decoders and pooled memory", "codec/json-v1.go, codec/hyperjson/bind.go"), ("conversion for the agent", "datadog/converter.go Sink")],
 observe=["spans returned by the parsers", "submissions received by the trace agent"]))
L.append(P("P06", "Merging and clock correction do not depend on arrival order",
 "If a span is reported by its client and by its server side, each with start and end, one merged span is delivered: the server's name, service and tags win, tags of both are kept, and the client's start and duration are used. The start times of its descendants are shifted by the difference between the middle of the client's and the middle of the server's interval, cumulatively down the tree, and a start before 2020 is replaced by the parent's. The result is the same for every arrival order and for repeated delivery of the same report.",
 ["inputs", "schedules", "histories"],
 "every combination of complete client and server reports (any format, with or without names, services, parents, tags), every arrival order, duplicates, any clock skew per host, any tree",
 "The tests correct fixed trees with fixed skews and merge in one order; order independence and duplicates are properties over all permutations.",
 ["correct.go"],
 [("merge by span id", "correct.go AddSpan, mergeSpansInPlace"), ("skew correction", "correct.go correctTreeTimings")],
 observe=["output of the assembly stage", "submissions received by the trace agent"]))
L.append(P("P07", "Overload discards whole traces only, and only the offending ones",
 "A trace with more than 8192 spans or still receiving spans after five hold times is discarded whole, and its later spans are ignored instead of forming a new trace; a trace of exactly 8192 spans is delivered. When more than 100,000 spans are waiting, the largest traces are discarded, largest first, until fewer than 100,000 remain, and no more than that. All other traces are delivered as usual.",
 ["histories", "schedules", "inputs"],
 "every mix of trace sizes around the limits, every arrival rate and order, spans arriving after the discard",
 "No test produces loads near the limits; the behaviour depends on the history of scans and arrivals.",
 ["correct.go"],
 [("size and age limits", "correct.go finishTraces"), ("list of discarded traces", "correct.go ErrorCorrectSpans"), ("largest first", "correct.go discardSuspiciousTraces")],
 observe=["output of the assembly stage"]))
L.append(P("P08", "An agent outage loses only its own submissions and blocks nobody",
 "While the trace agent refuses, resets, hangs, errors or answers slowly, the proxy keeps accepting requests without delay, keeps the recent-spans view going, and neither crashes nor accumulates unbounded work. A submission is never delivered twice to the agent, and once the agent works again, traces accepted after that are delivered completely and in time.",
 ["fault_sequences", "schedules"],
 "every sequence of agent failures (connection refused, blackhole, reset before or after the request, hang, HTTP errors, slow or dribbling answers, partitions), at any time relative to the traffic",
 "No test talks to an agent at all.",
 ["datadog/converter.go", "main.go"],
 [("bounded queue of batches, dropped if full", "datadog/converter.go Sink"), ("sending in its own thread", "datadog/converter.go submitTraces")],
 observe=["HTTP latency of requests during the outage", "submissions received by the trace agent"]))
L.append(P("P09", "The agent gets batches: grouped by trace, complete and timely",
 "Everything released is submitted as soon as 1000 spans have been collected, and otherwise within about four seconds; no span stays behind. In a submission each list holds spans of exactly one trace and each trace has at most one list, empty submissions are never sent, durations are at least one microsecond and a missing operation name is replaced by a placeholder.",
 ["schedules", "histories", "inputs"],
 "every arrival pattern and size of traces at the sink relative to its timer, any speed of the agent",
 "No test runs the sink or its timers.",
 ["datadog/converter.go"],
 [("flush by count and by timer", "datadog/converter.go Sink"), ("grouping", "datadog/converter.go submitTraces")],
 observe=["submissions handed to the trace agent's transport"]))
L.append(P("P10", "The recent-spans view shows the last 2048 spans in order",
 "At any moment the recent-spans view of the admin page returns valid JSON with the most recently forwarded spans, at most 2048, oldest first in the order they were received, with the same content as delivered to the agent, and never a partly added trace. Reading it concurrently never disturbs it or the delivery.",
 ["schedules", "histories", "inputs"],
 "every number of spans around and beyond the capacity, any trace sizes, readers at any time",
 "No test covers the buffer; wrap-around and concurrent readers need long histories.",
 ["buffer.go", "main.go"],
 [("ring buffer under a lock", "buffer.go SpansBuffer"), ("fan out", "main.go forwardSpansToChannels")],
 observe=["answers of the admin page"]))
L.append(P("P11", "Shared strings stay correct and the cache stays bounded",
 "Looking up or storing a string in the shared string cache always yields a string equal to the requested one, now and for as long as it is used, under any number of concurrent callers and whatever happens to the caller's buffer afterwards. The memory held by the cache stays at its limit plus at most one entry, and the least recently used entries go first.",
 ["schedules", "histories", "inputs"],
 "every sequence of lookups from concurrent callers, every string length including empty and larger than the cache, every reuse of the caller's buffer",
 "The tests cover the linked list and a few lookups in one thread; eviction under concurrency and aliasing with reused buffers are not reached.",
 ["cache/cache.go", "cache/lru.go"],
 [("lock around the cache", "cache/cache.go lookupCache"), ("copy on insert", "cache/cache.go lookupCache"), ("LRU list", "cache/lru.go")],
 observe=["strings returned by the cache", "cache size metrics"]))
L.append(P("P12", "Spans survive the trip through Kafka unchanged and keyed by trace",
 "A span published to Kafka is decoded by the consumer to exactly the same span (no tags counting as an empty set), exactly once while nothing fails, for all field values, all sizes up to the producer's message limit (768 KiB) and any number of concurrent publishers; messages do not change after they were handed over. The message key is a function of the trace id alone, so all spans of a trace share a partition, and the traces spread over all partitions.",
 ["inputs", "schedules"],
 "every span value, every sequence of spans through the reused encoding memory, every batching and delay of the producer",
 "The tests encode and decode one span; the reuse of encoding memory across messages that are still in flight is not exercised.",
 ["balance/encoder.go", "balance/sender.go", "codec/binary.go"],
 [("binary codec", "codec/binary.go"), ("arena for keys and values", "balance/encoder.go Encode")],
 observe=["messages received by the Kafka broker", "spans handed to the consumer's callback"]))
L.append(P("P13", "The Kafka consumer hands on every message once and survives failures",
 "Every decodable message of a claimed partition is handed on exactly once per session, in partition order, and is marked as consumed only after it was handed on; undecodable messages are skipped without stopping the partition. Session errors and rebalances only lead to a new session (with a pause after an error, not in a busy loop), and closing the consumer stops it within bounded time, after which nothing is handed on.",
 ["fault_sequences", "schedules", "histories"],
 "every sequence of sessions, rebalances, errors, corrupt messages, slow callbacks and the moment of closing",
 "No test covers the consumer.",
 ["balance/receiver.go"],
 [("consume loop", "balance/receiver.go Consume"), ("claim loop", "balance/receiver.go ConsumeClaim")],
 observe=["callback", "marked offsets"]))
L.append(P("P14", "With Kafka, a trace spread over several instances is assembled in one",
 "If several instances share a Kafka topic, the spans of a trace accepted by different instances are assembled by one of them and delivered whole and exactly once to the agents altogether, while the brokers and members are stable. After an instance stops, crashes or starts, the instances share the partitions anew, and traces accepted after that are delivered; only spans accepted around the change may be lost or repeated.",
 ["schedules", "fault_sequences", "histories"],
 "every distribution of requests over instances, every assignment of partitions, message batching and delay, stop of an instance",
 "No test involves Kafka.",
 ["main.go", "balance/sender.go", "balance/receiver.go", "balance/encoder.go"],
 [("partition by trace id", "balance/encoder.go Encode"), ("consumer group", "balance/receiver.go Consume"), ("wiring", "main.go MainWithRouting")],
 observe=["submissions received by all trace agents"]))
L.append(P("P15", "A Kafka outage does not wedge the proxy for good",
 "If the Kafka brokers become unreachable or fail requests for any length of time, the proxy does not crash, and after they recover, within bounded time (four minutes), requests are accepted and their spans are delivered again, whole and exactly once. Spans accepted while the brokers fail may be lost or repeated.",
 ["fault_sequences", "schedules"],
 "every sequence of broker failures (refused, reset, hanging, partitions, error answers) at any time relative to the traffic",
 "No test involves Kafka.",
 ["balance/sender.go", "balance/receiver.go", "main.go"],
 [("asynchronous producer", "balance/sender.go NewSender"), ("consume loop", "balance/receiver.go Consume")],
 observe=["HTTP answers after recovery", "submissions received by the trace agent"]))
L.append(P("P16", "No input on the HTTP port can crash or hang the proxy",
 "Whatever bytes a client sends to the span endpoints, in whatever pieces, with any content type or encoding, the request is answered with success or a client error within a time proportional to its size, using memory proportional to its size; the proxy never crashes and other clients keep being served.",
 ["inputs", "schedules", "fault_sequences"],
 "every byte sequence (valid documents with mutations, random bytes, deep nesting, huge tokens, wrong types), every chunking, premature end, and read errors",
 "The tests parse valid documents only.",
 ["handlers.go", "codec/hyperjson/parser.go", "codec/hyperjson/parser_skip.go", "codec/hyperjson/bind.go", "codec/hyperjson/string.go", "codec/jaeger.go"],
 [("streaming JSON parser", "codec/hyperjson/parser.go"), ("nesting limit", "codec/hyperjson/parser_skip.go")],
 observe=["HTTP answer", "liveness of the process"]))
L.append(P("P17", "No Kafka message can crash the consumer or exhaust its memory",
 "Whatever bytes a Kafka message holds, decoding it ends with a span or an error, in time and memory proportional to the message's length, and never affects the decoding of other messages.",
 ["inputs", "schedules"],
 "every byte sequence: valid encodings truncated, mutated, spliced, with extreme lengths and counts, decoded concurrently with valid messages",
 "The tests decode one valid message.",
 ["codec/binary.go", "balance/receiver.go"],
 [("checked lengths", "codec/binary.go readString"), ("skip undecodable messages", "balance/receiver.go ConsumeClaim")],
 observe=["spans handed to the consumer's callback", "memory allocated"]))
L.append(P("P18", "The user's span converter filters and rewrites each span exactly once",
 "Every span of a released trace is passed to the converter exactly once; a span for which it fails or returns no id or trace id is dropped, and every other one is delivered exactly as returned. Other spans of the trace, other traces and the recent-spans view are not affected by it.",
 ["inputs", "schedules"],
 "every converter behaviour per span (rewrite, error, missing ids), every trace, any interleaving with the receivers of the result",
 "No test covers the forwarding stage; the result slice is shared with the input and with several concurrent receivers.",
 ["main.go"],
 [("in place conversion", "main.go forwardSpansToChannels")],
 observe=["submissions received by the trace agent", "recent-spans view"]))
L.append(json.loads(r"""{"id": "P19", "title": "The metrics account for every request, span and trace", "statement": "The counters the proxy registers are the truth about its traffic, without loss and without double counting. Every request is counted under its format, every span of an accepted request once as parsed, and every trace that leaves the assembly under exactly one fate: finished, without root, too large, too old, or discarded because of the load (in traces and in spans). Repeated reports of a span count as merged, spans of blocked traces as blocked. After everything has left the assembly, the spans that went in equal the spans of the traces that left plus merged, blocked and discarded ones, and the in-flight gauges are zero. While traces wait, the in-flight gauges show the traces and spans waiting at the last check, and the gauge of the string cache its number of entries. The metrics view of the admin interface shows them all, as JSON, at any moment.", "quantifier": {"over": ["inputs", "schedules", "histories", "fault_sequences"], "text": "every history of requests (valid, damaged, repeated), every mix of trace shapes and loads, any interleaving, agent and link faults"}, "why_tests_cant": "No test reads a metric; whether a span is counted once depends on merges, late spans, overload and the moment of the check, over a whole history.", "anchors": {"files": ["correct.go", "handlers.go", "main.go", "cache/cache.go", "balance/sender.go"], "state": [{"name": "metrics registry", "meaning": "every counter and gauge the proxy registers", "where": "metrics.DefaultRegistry"}], "mechanism": [{"name": "counting of fates", "where": "correct.go finishTraces, discardSuspiciousTraces, ErrorCorrectSpans"}, {"name": "request counters", "where": "handlers.go"}, {"name": "cache gauges", "where": "cache"}], "observe_at": ["the metrics registry", "GET /admin/metrics"], "hook_needed": null}}"""))
L.append(json.loads(r"""{"id": "P20", "title": "The proxy keeps nothing: memory and goroutines do not grow over its life", "statement": "Whatever traffic the proxy has handled (valid and damaged requests, traces with and without root, too large or too old ones, overload, an agent that is slow, broken or absent for a while, clients that vanish), once everything is out and connections are idle, it holds no more memory and runs no more goroutines than it did after earlier equal traffic with other ids. No trace, span, request, connection, buffer or blocked-trace entry is kept for good.", "quantifier": {"over": ["histories", "schedules", "fault_sequences"], "text": "every round of traffic and faults, repeated any number of times with fresh trace and span ids, any interleaving"}, "why_tests_cant": "Growth only shows over a long history and after everything has settled (hold times, timeouts, idle connections), in minutes or hours of operation; tests end after one document.", "anchors": {"files": ["correct.go", "main.go", "buffer.go", "datadog/converter.go", "handlers.go", "cache/cache.go", "codec/json-v1.go"], "state": [{"name": "traces, blacklist", "meaning": "traces waiting, traces to ignore", "where": "correct.go ErrorCorrectSpans"}, {"name": "recent spans", "meaning": "ring of the last spans", "where": "buffer.go"}, {"name": "open batches", "meaning": "spans not yet sent", "where": "datadog/converter.go Sink"}, {"name": "pools and string cache", "meaning": "memory that is used again", "where": "codec, cache"}], "mechanism": [{"name": "removal of finished traces", "where": "correct.go finishTraces"}, {"name": "limit of the blacklist", "where": "correct.go finishTraces"}, {"name": "bounded queues", "where": "datadog/converter.go Sink"}], "observe_at": ["heap in use after garbage collection and number of goroutines of the idle proxy"], "hook_needed": null}}"""))
L.append(P("P21", "The proxy ends in order when it is told to",
 "When told to end (SIGTERM or SIGINT, once or more), the proxy takes no new requests, answers those in progress as usual and keeps delivering the traces that become due until its end. It ends within seconds after the last answer; with Kafka unreachable it takes no longer than minutes. This holds at any moment and whatever the state of clients, agent and Kafka.",
 ["schedules", "fault_sequences"],
 "every moment of the signal relative to requests, releases, Kafka sessions and failures; every number of idle and busy connections",
 "No test starts or ends the proxy.",
 ["main.go", "balance/receiver.go", "handlers.go"],
 [("serve until the signal", "main.go MainWithRouting"), ("leave the consumer group", "balance/receiver.go Consume")],
 observe=["HTTP answers", "submissions received by the trace agent", "end of the process"]))
out = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/properties.jsonl"
with open(out, "w") as f:
    for p in L:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(L))
