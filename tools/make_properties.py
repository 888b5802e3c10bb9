#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The texts live here so that they can be read and edited."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    if hook:
        a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("S01", "Every accepted point reads back once, with its value, and nothing else does",
     "Once a write request has been answered with success, a raw query over the metric returns every point written so far exactly once under its own series with the value that was written, and returns no point that was never written. "
     "This holds at every moment of a run: while points sit in memory, after pages have filled and moved to files, and for series that span any number of days.",
     ["inputs", "histories"],
     "Every sequence of accepted writes (any interleaving of series, batch sizes, gaps, days and half days, values) with queries in between, for second and millisecond storage and every codec version.",
     "The tests write a handful of fixed, mostly regular series and compare a few counts; the outcome depends on where page, day and half-day boundaries fall in an arbitrary history, which only generated histories reach.",
     ["src/core/ts.cpp", "src/core/page.cpp", "src/core/tsdb.cpp", "src/core/mmap.cpp", "src/core/query.cpp", "src/core/dp.cpp"],
     [("write path from request to in-memory page", "src/core/tsdb.cpp: http_api_put_handler*, add_data_point(s); src/core/ts.cpp: TimeSeries::add_data_point"),
      ("page becomes full and is chained on disk", "src/core/page.cpp: PageInMemory::flush; src/core/tsdb.cpp: append_page, set_indices"),
      ("query collects pages from memory and disk", "src/core/query.cpp: QueryTask::query_with_ooo/query_without_ooo; src/core/tsdb.cpp: query_for_data")],
     [("m_buff / m_ooo_buff", "the page being filled and the out-of-order page of a series", "include/ts.h"),
      ("index entry", "head of a series' chain of pages in a day, and in its second half", "src/core/mmap.cpp: IndexFile")],
     ["POST /api/query with aggregator none"])

prop("S02", "Writing a timestamp again replaces its value: the last write wins",
     "When a series receives several values for one timestamp, queries return that timestamp once, with the value written last. "
     "It does not matter how far apart the writes are, whether other points came in between, whether the earlier value is still in memory or already in a file, or whether the server was restarted in between.",
     ["histories", "inputs"],
     "Every history of writes with repeated timestamps, mixed with in-order and late points, page flushes and graceful restarts.",
     "The result depends on which of several pages (in memory, out-of-order, on disk, first or second half of the day) holds each copy; the tests only overwrite within one fresh page.",
     ["src/core/query.cpp", "src/core/ts.cpp", "src/core/page.cpp", "src/core/compress.cpp"],
     [("late and repeated points go to the out-of-order page", "src/core/ts.cpp: TimeSeries::add_data_point, add_ooo_data_point"),
      ("merge of overlapping pages at query time", "src/core/query.cpp: QueryTask::query_with_ooo, get_min_container")],
     [("page index", "age of a page, decides between equal timestamps", "include/page.h: page_info_on_disk")])

prop("S03", "Query answers do not depend on the order in which points arrived",
     "Two histories that write the same points, each timestamp of a series once, in different orders and batches give the same answers to every query: raw, filtered, aggregated, downsampled, by rate or served from rollups.",
     ["histories", "inputs"],
     "Every set of points, every permutation and batching of it, every query over it.",
     "A metamorphic relation over pairs of histories: no fixed expected value can state it, and the number of permutations is out of reach of hand-written cases.",
     ["src/core/ts.cpp", "src/core/query.cpp", "src/agg/rollup.cpp"],
     [("out-of-order flagging", "src/core/tsdb.cpp: set_out_of_order, set_out_of_order2; src/core/mmap.cpp: IndexFile flags"),
      ("rollup falls back to raw data when a day is out of order", "src/core/query.cpp: QuerySuperTask::query_rollup_hourly")])

prop("S04", "A series is its metric and tag set, and never mixes with another series",
     "Points written with the same metric and the same set of tags, in any tag order, belong to one series; points that differ in metric, tag key or tag value belong to different series and never appear under each other's name or tags, in any query, before and after restarts. "
     "The names and tags returned by a query are exactly those that were written.",
     ["inputs", "histories", "schedules"],
     "Every population of metrics and tag sets, including prefixes, permutations, shared keys and values, and field names, whether created one at a time, by concurrent writers or before a restart.",
     "Identity is decided by several caches and an on-disk catalogue; confusion needs particular combinations of names, orders or races that example tests do not hold.",
     ["src/core/tsdb.cpp", "src/utils/tag.cpp", "src/utils/meta.cpp", "src/core/ts.cpp"],
     [("name to series lookup", "src/core/tsdb.cpp: Mapping::get_ts, get_ts_in_measurement"),
      ("catalogue of series on disk", "src/utils/meta.cpp: MetaFile::add_ts/restore"),
      ("tag interning", "src/utils/tag.cpp: Tag_v2")])

prop("S05", "Data stays complete as series, pages and metrics outgrow any file or table",
     "When the number of series, of metrics, of pages per metric or of days grows past the capacity of any internal file or table, every point remains queryable with its value, at once and after a graceful restart.",
     ["inputs", "configurations"],
     "Every number of series, pages and metrics, in particular those around internal capacities, for every page size and page count setting.",
     "Capacities are only reached with thousands of series or pages, or with configured small files; the tests stay far below them.",
     ["src/core/mmap.cpp", "src/core/tsdb.cpp"],
     [("index file growth", "src/core/mmap.cpp: IndexFile::expand, set_indices, get_indices"),
      ("switch to a new header and data file", "src/core/tsdb.cpp: Metric::get_last_files; src/core/mmap.cpp: HeaderFile::new_header_index"),
      ("metric buckets and their balancing", "src/core/tsdb.cpp: BucketBalancer")])

prop("S06", "Stored numbers come back as written, for every codec and precision",
     "With the lossy codecs a value comes back within half a unit of the last configured decimal, whatever its magnitude and whatever values come before it, apart from floating-point rounding at the scale of its neighbours; with the lossless codecs any finite value comes back to the precision of the printed answer. "
     "Timestamps come back exactly, in the unit asked for.",
     ["inputs", "configurations"],
     "Every sequence of values (integers, decimals, repeats, sign changes, tiny and huge jumps) and of timestamp gaps, for codec versions 0 to 4 and precisions 0 to 12.",
     "Bit-packed delta encodings fail only for particular magnitudes and transitions between them; the tests encode smooth random series.",
     ["src/core/compress.cpp", "src/utils/bitset.cpp", "include/compress.h"],
     [("delta and repeat encoding", "src/core/compress.cpp: Compressor_v1..v4"),
      ("bit packing", "src/utils/bitset.cpp: BitSet"),
      ("printing of answers", "src/core/query.cpp: QueryResults::to_json")])

prop("D01", "A graceful restart changes no answer",
     "After a graceful stop, however it is requested, and a start on the same data, every query gives the answer it gave before the stop, and the server accepts further writes to old and new series. "
     "Repeating this any number of times loses, duplicates and alters nothing.",
     ["histories", "configurations"],
     "Every history of writes, queries and restarts, for every codec, page size and time resolution.",
     "What must be saved depends on what was pending at the moment of the stop; only histories with stops at arbitrary places cover that.",
     ["src/core/tsdb.cpp", "src/core/ts.cpp", "src/utils/meta.cpp", "src/utils/append.cpp", "src/agg/rollup.cpp", "src/main.cpp"],
     [("flush of all pages at shutdown", "src/core/tsdb.cpp: Tsdb::shutdown; src/core/ts.cpp: TimeSeries::close"),
      ("rebuilding of series and days at start", "src/core/tsdb.cpp: Tsdb::init, restore_tsdb; src/utils/meta.cpp: MetaFile::restore")])

prop("D02", "After a crash every point covered by a completed flush is still there",
     "If the process is killed at any instant, the next start succeeds and every point accepted before the last completed flush of pending pages is returned with its value, unless a later accepted write replaced it. "
     "Points accepted after that flush may be missing, but whatever is returned was written: no point has a value, timestamp or series that no client sent.",
     ["crash_points", "histories"],
     "Every instant at which the process can die, during writes, page flushes, log flushes, rotation or shutdown, after every history.",
     "The tests never kill the server; the guarantee is about every point between any two effects on the data directory.",
     ["src/utils/append.cpp", "src/core/page.cpp", "src/core/tsdb.cpp", "src/core/mmap.cpp", "src/utils/meta.cpp"],
     [("periodic log of pages in memory", "src/utils/append.cpp: AppendLog::flush_all, restore"),
      ("order of effects when a page moves to disk", "src/core/tsdb.cpp: append_page, set_indices"),
      ("catalogue flush", "src/utils/meta.cpp: MetaFile::flush")],
     observe=["kill -9 at the N-th file or clock call, then restart and query"])

prop("D03", "Recovery can be interrupted and repeated without losing or changing data",
     "Killing the server during or right after recovery, any number of times, never loses a point that recovery had to preserve, and never makes the data directory unusable: a later start still succeeds and returns those points. "
     "Points written after a recovery and then stopped gracefully are all present at the next start.",
     ["crash_points", "histories"],
     "Every sequence of crashes and restarts, with crash points inside start-up as well as afterwards.",
     "Sequences of two and more crashes, some of them inside recovery, are never exercised by tests.",
     ["src/utils/append.cpp", "src/core/tsdb.cpp", "src/core/ts.cpp"],
     [("replay of the log at start", "src/utils/append.cpp: AppendLog::restore; src/core/ts.cpp: TimeSeries::restore"),
      ("marking of days that were open at the crash", "src/core/tsdb.cpp: set_crashes")])

prop("D04", "Data stays readable and writable when settings change between runs",
     "After a restart with different storage settings (codec version, precision, page size, pages per file, number of buckets, rollup on or off), everything stored under the earlier settings is returned unchanged, and new points can be added to old and new days and series.",
     ["configurations", "histories"],
     "Every sequence of settings over successive runs on one data directory.",
     "Each day's files carry their own settings; the tests run every case under a single configuration.",
     ["src/core/tsdb.cpp", "src/core/mmap.cpp", "src/utils/config.cpp", "src/agg/rollup.cpp"],
     [("settings stored with each day", "src/core/tsdb.cpp: Tsdb::restore_config, write_config"),
      ("codec and page size taken from the day or file", "src/core/mmap.cpp: tsdb_header; src/core/page.cpp")])

prop("D05", "A checkpoint is reported only when everything before it is durable",
     "When the server reports a client's checkpoint as persisted, every point that client sent before that checkpoint survives a kill of the process at any later instant. "
     "Reported checkpoints are ones the client sent, never go backwards to data not yet covered, and are still reported after a restart.",
     ["crash_points", "histories", "schedules"],
     "Every interleaving of writes, checkpoints from several leaders and channels, persistence cycles, crashes and restarts.",
     "The guarantee relates a report to later crashes; tests check only that checkpoint text is stored and returned.",
     ["src/core/cp.cpp", "src/core/tsdb.cpp"],
     [("snapshot before flush, persist after", "src/core/tsdb.cpp: Tsdb::rotate; src/core/cp.cpp: take_snapshot, persist"),
      ("report", "src/core/cp.cpp: get_persisted; POST /api/admin?cmd=cp")])

prop("D06", "Retention removes whole days, oldest first, beyond the newest N",
     "With a retention of N days set, a day's data is removed only while more than N days hold data, oldest day first and as a whole; every point of the newest N days stays queryable with its value, and new data keeps being accepted. "
     "Excess days that are left alone do go as maintenance runs, and removed days return no points and do not come back after a restart.",
     ["histories", "configurations"],
     "Every distribution of data over days, every retention period, with the clock moving and rotation running in between.",
     "It depends on the relation of the clock to many days' boundaries and on what is in use while days are removed; the one purge test covers a single arrangement.",
     ["src/core/tsdb.cpp"],
     [("removal of the oldest days", "src/core/tsdb.cpp: purge_oldest, Tsdb::rotate"),
      ("loading and unloading of days", "src/core/tsdb.cpp: archive_ts, unload")])

prop("D07", "Maintenance never changes what a query returns",
     "Log flushes, rotation, closing of idle files, unloading of old days, memory reclamation and rollup runs, at any time and in any order between writes, leave every query answer as it was, and writes that follow, late ones included, are kept as usual.",
     ["histories", "schedules"],
     "Every interleaving of writes and queries with every maintenance action, over days of any age, with the clock advanced arbitrarily.",
     "Maintenance is driven by timers of minutes to days, which no test waits for.",
     ["src/core/tsdb.cpp", "src/core/ts.cpp", "src/agg/rollup.cpp", "src/utils/append.cpp", "src/core/memmgr.cpp"],
     [("rotation and archiving", "src/core/tsdb.cpp: Tsdb::rotate, archive_ts, flush; src/core/ts.cpp: TimeSeries::archive"),
      ("idle files", "src/core/mmap.cpp: close_if_idle"),
      ("rollup run", "src/core/tsdb.cpp: Tsdb::rollup; src/agg/rollup.cpp")])

prop("Q01", "A query returns exactly the points inside its time range, ends included",
     "For any start and end, given in seconds or milliseconds, a raw query returns the points with start <= time <= end and no others, in ascending time order, wherever the range begins and ends relative to days, half days, pages and the data, including ranges that are empty, reversed or a single instant.",
     ["inputs", "histories"],
     "Every range over every stored history.",
     "Selection skips files, half days and pages by their recorded bounds; errors show only for ranges that graze a bound.",
     ["src/core/query.cpp", "src/core/tsdb.cpp", "src/core/page.cpp", "src/utils/utils.cpp", "src/utils/range.cpp"],
     [("choice of days and pages", "src/core/tsdb.cpp: Tsdb::insts, query_for_data; second index for the second half of a day"),
      ("parsing of start and end", "src/utils/utils.cpp: parse_ts, validate_resolution")])

prop("Q02", "Tag filters select exactly the matching series",
     "A query with tag conditions returns the series whose tags satisfy all of them and no other: exact value, list of alternatives, wildcard with leading, inner or trailing star, negated and case-insensitive forms, and conditions that do not group. "
     "Characters that are special in patterns only have the meaning the filter type documents.",
     ["inputs"],
     "Every population of series and every combination of filters over existing and missing keys.",
     "The answer is a set over all series; the tests use a few tags with plain values.",
     ["src/utils/tag.cpp", "src/core/query.cpp", "src/core/tsdb.cpp"],
     [("filter compilation and matching", "src/utils/tag.cpp: TagMatcher, TagOwner"),
      ("series selection", "src/core/tsdb.cpp: Mapping::query_for_ts; src/core/query.cpp")])

prop("Q03", "Aggregation groups the right series and computes the named function",
     "For every aggregator the answer has one group per distinct combination of the grouped tags' values, lists the shared tags with their value and the differing ones as aggregated, and at each timestamp gives the named function of the values the group's series have at that timestamp.",
     ["inputs"],
     "Every population of series and points, every aggregator (sum, avg, count, min, max, dev, percentiles, top/bottom, none) and every grouping.",
     "Correctness is relative to a definition over arbitrary sets of series with missing timestamps; tests check a few fixed sums.",
     ["src/agg/aggregate.cpp", "src/core/query.cpp"],
     [("grouping", "src/core/query.cpp: Query::aggregate, create_one_query_results/ QueryResults::add_query_task"),
      ("functions", "src/agg/aggregate.cpp")])

prop("Q04", "Downsampling puts every point in its bucket and computes the named function",
     "For every interval, function and fill policy, a downsampled query returns for each interval-aligned bucket in range the named function of exactly the points of that bucket, with the bucket's start as timestamp; empty buckets are absent without a fill policy and carry the fill value with one.",
     ["inputs"],
     "Every series, range, interval unit, function and fill policy.",
     "Bucket edges, range edges and data gaps interact; examples fix one alignment.",
     ["src/agg/down.cpp", "src/core/query.cpp"],
     [("bucketing and functions", "src/agg/down.cpp: Downsampler and subclasses"),
      ("fill", "src/agg/down.cpp: fill_if_needed")])

prop("Q05", "Rates are the change per second between neighbouring points",
     "With rate on, the first point of each series is dropped and every other point becomes its change from the previous one per second, whatever unit times are stored and returned in; counter options treat a decrease as a wrap at the given maximum, drop it, or turn it into zero when it exceeds the reset value.",
     ["inputs", "configurations"],
     "Every series, every combination of rate options, both storage resolutions and both output units.",
     "Depends on the product of resolution, output unit and option combinations, with no rate tests at all beyond one.",
     ["src/agg/rate.cpp", "src/core/query.cpp"],
     [("rate calculation", "src/agg/rate.cpp: RateCalculator; src/core/query.cpp: Query::calculate_rate")])

prop("Q06", "Answers served from rollups equal answers computed from raw points",
     "For downsampling by whole hours or days with avg, count, max, min or sum, the answer is the same whether it is served from precomputed rollups or forced to be computed from raw points, up to rounding. "
     "This holds while data is arriving, for late and repeated points, after graceful restarts, and after rollup runs.",
     ["histories", "inputs"],
     "Every history of writes, restarts and rollup runs over hours, days, months and years, and every eligible query.",
     "A differential statement between two independent computations over a history; the tests compare fixed data once.",
     ["src/agg/rollup.cpp", "src/core/query.cpp", "src/core/mmap.cpp", "src/core/tsdb.cpp", "src/core/ts.cpp"],
     [("accumulation per hour", "src/agg/rollup.cpp: RollupManager::add_data_point"),
      ("hourly and daily rollup files", "src/core/mmap.cpp: RollupDataFile; src/core/tsdb.cpp: Tsdb::rollup"),
      ("choice between rollup and raw", "src/core/query.cpp: QuerySuperTask::perform")])

prop("Q07", "Equivalent forms of a query get the same answer",
     "A query asked by GET or by POST, with times in seconds or milliseconds, alone or next to other sub-queries, once or repeatedly, returns the same series and values; asking for second instead of millisecond output only changes how times are written when the points are on whole seconds.",
     ["inputs"],
     "Every query that can be written in more than one form, over every stored history.",
     "A metamorphic relation between request encodings, which go through separate parsers.",
     ["src/core/query.cpp", "src/core/http.cpp", "src/utils/kv.cpp", "src/utils/json.cpp"],
     [("the two query parsers", "src/core/query.cpp: Query(JsonMap&, ...), Query(KeyValuePair*, ...), http_get_api_query_handler, http_post_api_query_handler")])

prop("Q08", "Suggest and lookup list exactly the names and series that were written",
     "Suggestions for metrics, tag keys and tag values are the distinct names written that start with the given prefix, cut to the given maximum; a lookup returns exactly the series of a metric that match its tags, with a correct total, and paging through it with any page size yields each series once. "
     "The answer is always valid JSON and is the same after a restart.",
     ["inputs", "histories"],
     "Every population of names and series, prefix, maximum, page size and start.",
     "Set-valued answers over arbitrary populations; no test covers lookup.",
     ["src/core/tsdb.cpp", "src/core/http.cpp", "src/utils/tag.cpp"],
     [("suggest and lookup", "src/core/tsdb.cpp: http_get_api_suggest_handler, http_get_api_search_lookup_handler")])

prop("P01", "All ingest protocols store the same thing",
     "The same points sent as JSON, as put lines over HTTP, as put lines over TCP or UDP, or as line protocol over HTTP or TCP, whole or gzip- or deflate-compressed where HTTP allows it, produce the same stored series, times and values, up to the field-name tag that line protocol adds.",
     ["inputs"],
     "Every set of points representable in all formats, every batching, every spelling of numbers and whitespace the formats allow.",
     "A differential statement between separate parsers over arbitrary inputs.",
     ["src/core/dp.cpp", "src/core/tsdb.cpp", "src/core/http.cpp", "src/core/tcp.cpp", "src/core/udp.cpp"],
     [("parsers", "src/core/dp.cpp: DataPoint::from_json, from_plain; src/core/tsdb.cpp: parse_line"),
      ("body decompression", "src/core/http.cpp: HttpRequest::uncompress")])

prop("P02", "How bytes are split on the wire does not change what is stored or answered",
     "A request or a stream of put or line-protocol lines has the same effect however its bytes are cut into network segments and however they are spaced, on fresh or reused connections, with other connections active.",
     ["schedules", "inputs"],
     "Every segmentation of every request and stream, including cuts inside the header, between carriage return and newline, and inside numbers.",
     "Tests send every request in one piece.",
     ["src/core/http.cpp", "src/core/tcp.cpp"],
     [("continuation of partial requests", "src/core/http.cpp: recv_http_data, recv_http_data_cont"),
      ("carry-over of partial lines", "src/core/tcp.cpp: recv_tcp_data")])

prop("P03", "A bad line or element costs only what follows it in its own request",
     "When a request contains a malformed point, the points before it in that request are stored, the reply is not a success, and nothing malformed is stored under any name; no other request, connection, series or later write is affected. "
     "A request answered with success has stored all of its points.",
     ["inputs", "fault_sequences"],
     "Every kind and position of damage to otherwise valid requests in every format: missing or extra fields, bad numbers, over-long names, too many tags, truncation.",
     "The space of damage is unbounded and the oracle is relative to the undamaged request.",
     ["src/core/dp.cpp", "src/core/tsdb.cpp", "src/core/http.cpp"],
     [("line and element parsers", "src/core/dp.cpp; src/core/tsdb.cpp: http_api_put_handler_plain/json, http_api_write_handler")])

prop("P04", "No bytes from the network can bring the server down or spoil its data",
     "Whatever bytes arrive on any port, the server keeps serving: it neither crashes, hangs nor accesses memory out of bounds, a well-formed request on another connection is answered correctly afterwards, and data stored before is unchanged, also after a restart.",
     ["inputs", "fault_sequences"],
     "Every byte sequence on the HTTP, put, line-protocol and UDP ports, valid requests mutated structurally or randomly included.",
     "Only generated hostile inputs under a memory checker explore parser states that examples never reach.",
     ["src/core/http.cpp", "src/core/tcp.cpp", "src/core/dp.cpp", "src/core/query.cpp", "src/utils/json.cpp", "src/utils/kv.cpp", "src/core/tsdb.cpp", "src/agg/down.cpp", "src/utils/tag.cpp"],
     [("request parsers", "src/core/http.cpp: parse_header; src/utils/json.cpp: JsonParser; src/utils/kv.cpp; src/core/dp.cpp; src/agg/down.cpp: Downsampler::create")])

prop("P05", "Timestamps mean the same instant in every accepted unit and notation",
     "A point's time given in seconds or milliseconds (in line protocol also microseconds or nanoseconds) and a query's start or end given in any of these units denotes the same instant, truncated to the storage resolution. "
     "Relative times count back from now by the stated amount, and calendar notations denote the stated wall-clock time in the time zone of the query or, without one, of the configuration.",
     ["inputs", "configurations"],
     "Every instant a unit or notation can express, for both storage resolutions.",
     "The unit is guessed from magnitude; only generated instants near the thresholds and calendar edges tell right from wrong.",
     ["src/utils/utils.cpp", "src/core/dp.cpp", "src/core/query.cpp"],
     [("unit detection", "src/utils/utils.cpp: validate_resolution, parse_ts, to_ms, to_sec")])

prop("C01", "Concurrent clients lose nothing and see consistent data",
     "With any number of clients writing and querying at the same time, on shared and separate series, every answered write is stored exactly once; each query sees all points whose writes were answered before it was sent and no point that was never sent; and the final state is the union of all writes.",
     ["schedules", "histories"],
     "Every interleaving of concurrent writers, readers and maintenance, for any number of listener and responder threads.",
     "Races need particular interleavings; the tests use one client.",
     ["src/core/ts.cpp", "src/core/tsdb.cpp", "src/core/query.cpp", "src/core/mmap.cpp", "src/core/task.cpp", "src/core/tcp.cpp", "src/core/http.cpp"],
     [("per-series locks", "src/core/ts.cpp: m_locks"),
      ("creation of series, metrics and days", "src/core/tsdb.cpp: get_or_create_*; Tsdb::inst"),
      ("files read while they grow", "src/core/mmap.cpp: DataFile::get_page, remap")])

prop("C02", "A graceful stop under traffic keeps every answered write",
     "When the server is asked to stop while clients are writing and querying, the process ends cleanly within a bounded time, and after the next start every write that was answered with success before the stop is present with its value; writes that were not answered are either wholly present or absent point by point, never altered.",
     ["schedules", "histories"],
     "Every moment of a stop relative to in-flight requests, maintenance and page flushes.",
     "Tests stop an idle server.",
     ["src/main.cpp", "src/core/tsdb.cpp", "src/core/tcp.cpp", "src/core/http.cpp", "src/utils/timer.cpp"],
     [("order of shutdown", "src/main.cpp: main, shutdown; src/core/tsdb.cpp: Tsdb::shutdown")])

prop("C03", "Queries running beside maintenance never return torn or missing data",
     "Queries that run while pages are being flushed, days rotated, unloaded, purged or rolled up return either the complete set of points or an error status, never a successful answer that lacks an acknowledged point of a retained day or contains a wrong value.",
     ["schedules"],
     "Every interleaving of queries with rotation, archiving, idle-file closing, log flushes and rollup runs.",
     "The windows are microseconds wide and the maintenance runs on long timers.",
     ["src/core/tsdb.cpp", "src/core/mmap.cpp", "src/core/query.cpp", "src/agg/rollup.cpp"],
     [("reference counts and locks of days and files", "src/core/tsdb.cpp: inc_ref_count, dec_ref_count, unload_if_idle; src/core/mmap.cpp: close_if_idle, ensure_open")])


out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
