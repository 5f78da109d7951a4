"""What each check runs: number of seeds per tier, wall-clock caps, and what a
run must reach to count as non-trivial."""

SYSTEM_REAL = ["MainWithRouting and everything it starts (HTTP intake, gzip, parsers, trace assembly, converter fan-out, "
               "trace-agent sink with the vendored dd-trace-go transport, recent-spans buffer, go-admin, startup_http)",
               "net/http server and client, encoding/json, compress/gzip, the Go scheduler, channels, timers and sync primitives"]
SYSTEM_STUB = ["network (in-memory links with latency, jitter, chunking, windows, resets, partitions)",
               "trace agent (simulated server with faults)", "clock and timers (simulated)", "operating system signals",
               "goroutine scheduling, select, map order and math/rand (one seeded generator)"]

ASM_REAL = ["ErrorCorrectSpans: trace assembly, merging, clock correction, overload handling, its ticker",
            "the Go scheduler, channels, timers"]
ASM_STUB = ["the stages before and after assembly (channels driven by the harness) in the runs that use the assembly scenario",
            "clock and timers (simulated)", "goroutine scheduling, select, map order and math/rand (one seeded generator)"]

SINK_REAL = ["datadog.Sink and its queue, DefaultTransport / the ddtrace transport interface, traces built by the real converter"]
SINK_STUB = ["the trace agent at the transport interface (runs of the sink scenario)"]
BUF_REAL = ["NewSpansBuffer, ReadFrom, ToSlice, the Tee stage"]
CACHE_REAL = ["cache package: Cache (string and byte-slice lookup, interning) and LRU"]
CODEC_REAL = ["ParseJsonV1, ParseJsonV2, ParseJaeger, hyperjson, the thrift decoder, proxy.Span"]
CODEC_STUB = ["the HTTP body (a reader delivering the document in seeded pieces, in the codec scenario)"]

KAFKA_REAL = SYSTEM_REAL + ["Kafka mode of MainWithRouting: topic creation, balance.Sender and Consume, the message codec, "
                            "the sarama client (producer, consumer group, offset manager) of the module cache"]
KAFKA_STUB = SYSTEM_STUB + ["Kafka brokers: an in-process cluster that speaks the wire protocol (logs, group coordinator, offsets) with faults"]

ASSUMPTIONS = [
    "goroutines run one at a time and switch between statements of the code under test and at blocking operations; "
    "effects of weaker memory ordering on several processors are not explored",
    "seeded sampling: a clean batch is evidence, not proof",
]

NOTE = ("Seeded search over schedules, inputs and faults of the real code under a simulator; every violation comes with a minimised, "
        "exactly replaying plan. A clean batch is evidence for the sampled space, not a proof.")


def sysprop(technique, nontrivial, must=(), quick=6000, thorough=400000, **kw):
    d = dict(quick=dict(runs=quick, cap_s=240), thorough=dict(runs=thorough, cap_s=760), nontrivial=list(nontrivial),
             must_reach=list(must), real=SYSTEM_REAL, stub=SYSTEM_STUB, technique=technique, note=NOTE)
    d.update(kw)
    return d


PROPS = {
    "P01": sysprop("whole proxy between simulated clients and a simulated agent; conservation against a reference model",
                   ["traces_delivered", "requests_accepted"],
                   ["client_reset_all", "process_stall", "wall_clock_jump", "sync_pool_miss", "traces_in_bursts"]),
    "P02": sysprop("damaged, truncated, reset and invalid requests; atomicity of each request against the agent's view",
                   ["requests_rejected", "requests_accepted"],
                   ["client_reset_mid_body", "client_close_mid_body", "requests_unanswered", "traces_delivered"]),
    "P03": sysprop("random trace shapes, arrival orders and stragglers; delivered trace against a reference assembler",
                   ["traces_delivered"], ["fake_root_traces", "verdict_several_roots", "verdict_cycle", "traces_in_bursts"]),
    "P04": sysprop("assembly stage (and whole proxy) under random arrival times, stragglers, exact load levels, wall clock steps and "
                   "stalls; release times against a timing model", [],
                   ["asm_released", "traces_delivered", "asm_hold_8", "asm_hold_6", "asm_hold_4", "asm_hold_2", "wall_clock_jump", "process_stall", "traces_in_bursts"],
                   quick=700, thorough=60000, real=SYSTEM_REAL + ASM_REAL, stub=SYSTEM_STUB + ASM_STUB),
    "P05": sysprop("concurrent requests with arbitrary encodings and chunking, through the whole proxy and at the parsers; "
                   "field-by-field comparison", [], ["traces_delivered", "codec_documents", "sync_pool_miss"], quick=2500,
                   real=SYSTEM_REAL + CODEC_REAL, stub=SYSTEM_STUB + CODEC_STUB),
    "P06": sysprop("client and server reports in random order with duplicates and skew against an order-free reference merge",
                   ["merged_traces_delivered"], ["fake_root_traces"]),
    "P07": sysprop("assembly stage with oversized and aging traces and overload, against a model of what must be discarded",
                   ["asm_checked"], ["asm_too_large", "asm_too_old", "asm_overloads", "asm_overload_ties", "asm_released_max_size",
                                     "asm_spans_after_discard", "wall_clock_jump"],
                   quick=260, thorough=20000, real=ASM_REAL, stub=ASM_STUB),
    "P08": sysprop("agent and link faults; duplicates, blocking and recovery checked",
                   [], ["agent_hang", "agent_hang_read", "agent_http500", "agent_http404", "agent_reset_after",
                    "agent_reset_before", "agent_slow", "agent_trickle", "agentlink_blackhole", "agentlink_partition",
                    "agentlink_refuse", "traces_outside_outage", "traces_inside_outage", "transport_hang", "transport_error",
                    "sink_traces_inside_outage"], real=SYSTEM_REAL + SINK_REAL, stub=SYSTEM_STUB + SINK_STUB),
    "P09": sysprop("sink under arbitrary arrival patterns and transport behaviour; batch sizes, completeness, order and flush "
                   "deadlines against a timing model", [],
                   ["sink_submissions", "sink_traces", "sink_full_batches", "traces_delivered"],
                   real=SYSTEM_REAL + SINK_REAL, stub=SYSTEM_STUB + SINK_STUB),
    "P10": sysprop("concurrent readers of the recent-spans view against a reference ring", [],
                   ["admin_snapshots", "admin_full", "views", "views_full", "views_concurrent"], quick=3000,
                   real=SYSTEM_REAL + BUF_REAL, stub=SYSTEM_STUB),
    "P11": sysprop("concurrent lookups on the interning cache and LRU against a reference LRU", ["cache_lookups"],
                   ["cache_full", "lru_ops", "lru_evictions"], real=CACHE_REAL,
                   stub=["callers of the cache", "goroutine scheduling, map order and math/rand (one seeded generator)"]),
    "P12": sysprop("concurrent real senders and a real consumer on a simulated Kafka cluster; the log and the callback against what was "
                   "sent", ["published"], ["published_large", "published_slot_size", "spread_checked", "consumed", "kafkalink_partition", "sync_pool_miss"],
                   quick=4000,
                   real=["balance.Sender, its encoder and pool, the message codec, balance.Consume", "the sarama client: producer, partitioner, "
                         "consumer group", "the Go scheduler, channels, timers and sync primitives"],
                   stub=["HTTP intake and assembly", "Kafka brokers: an in-process cluster that speaks the wire protocol", "network, clock, "
                         "scheduling, sync.Pool misses (seeded)"]),
    "P13": sysprop("the real consumer on a harness-made consumer group and on sarama's with a simulated cluster: sessions ending at any "
                   "moment, failures, redelivery, corrupt messages, closing", [],
                   ["handed_on", "handed_on_again", "sessions", "undecodable", "closed", "close_in_traffic", "consume_error", "session_end",
                    "session_error", "commit_lost", "group_rebalance", "broker_error", "broker_close", "kafkalink_refuse",
                    "kafkalink_blackhole", "kafkalink_partition"], quick=6000,
                   real=["balance.Consume and its claim loop, the message codec", "sarama's consumer group and client (half of the runs)",
                         "the Go scheduler, channels, timers and sync primitives"],
                   stub=["the span callback", "the consumer group (half of the runs)", "Kafka brokers", "network, clock, scheduling (seeded)"]),
    "P14": sysprop("several whole proxies on a simulated Kafka cluster; conservation over all agents, with instances stopping, "
                   "crashing and starting", ["traces_delivered"],
                   ["traces_over_several_instances", "inst_stop", "inst_crash", "inst_start", "group_rebalance", "recoveries",
                    "graceful_stops"], quick=2500, real=KAFKA_REAL, stub=KAFKA_STUB),
    "P15": sysprop("whole proxies on a simulated Kafka cluster with broker and link faults; bounded recovery after the last fault",
                   ["recoveries"],
                   ["broker_hang", "broker_close", "broker_error", "broker_slow", "broker_restart", "kafkalink_refuse",
                    "kafkalink_blackhole", "kafkalink_partition", "group_rebalance", "traces_delivered"], quick=2500,
                   real=KAFKA_REAL, stub=KAFKA_STUB),
    "P16": sysprop("arbitrary, damaged, deep and oversized request bodies at the HTTP intake and at the parsers; no crash, bounded "
                   "steps and allocation, service afterwards", [],
                   ["raw_accepted", "raw_rejected", "raw_large", "requests_rejected", "requests_accepted", "traces_delivered"],
                   quick=2500, real=SYSTEM_REAL + CODEC_REAL, stub=SYSTEM_STUB + CODEC_STUB),
    "P17": sysprop("hostile and valid messages decoded by concurrent threads and by the real consumer; bounds for steps and memory, and "
                   "the valid ones against what was encoded", [], ["undecodable", "raw_decoded", "valid_decoded", "bounds_checked", "handed_on"],
                   quick=5000,
                   real=["codec.BinaryDecode, the string cache and the buffer pool, balance.Consume and its claim loop"],
                   stub=["the span callback", "the consumer group or the Kafka brokers", "clock, scheduling, sync.Pool misses (seeded)"]),
    "P18": sysprop("random converters; every span's fate against the converter's model", ["traces_delivered"],
                   ["converter_error", "converter_zero_id"]),
    "P19": sysprop("registered metrics against the requests sent, the traces delivered and the model of the assembly stage", [],
                   ["metric_runs", "metric_conservation", "metric_gauge_checked", "metric_cache", "metric_views", "metric_traces.toolarge",
                    "metric_traces.tooold", "metric_traces.discarded", "metric_spans.merged", "metric_blacklist.span.received"],
                   quick=1500, real=SYSTEM_REAL + ASM_REAL + CACHE_REAL, stub=SYSTEM_STUB),
    "P20": sysprop("equal rounds of traffic and faults with fresh ids over hours of simulated time; heap after garbage collection and "
                   "goroutines of the idle proxy, growth confirmed by a second series of rounds", ["soak_rounds"],
                   ["soak_spans"], quick=150, thorough=4000, real=SYSTEM_REAL + ASM_REAL, stub=SYSTEM_STUB),
    "P21": sysprop("whole proxies, alone and with Kafka, told to end at seeded moments among requests in progress, idle connections, agent, "
                   "link, broker and rebalance faults", ["stops"],
                   ["stop_in_progress", "stop_refused", "stop_traces", "stop_kafka_away", "signal_TERM", "signal_INT", "traces_delivered"], quick=2500,
                   real=KAFKA_REAL, stub=KAFKA_STUB),
}
