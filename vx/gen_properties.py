"""Writes /verif/properties.jsonl (the list is kept here so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Gorilla compression is lossless",
  "Compressing any list of (timestamp, value) points with non-decreasing timestamps below 2^63 and decompressing the payload returns the same points, in the same order, with identical timestamps and bit-identical values. This includes NaN payloads, infinities, signed zeros, subnormals, repeated timestamps and arbitrarily large gaps, and neither direction panics.",
  ["inputs", "histories"], "all lists of points (any length) with non-decreasing timestamps < 2^63 and any 64-bit float patterns",
  "The encoder is a bit-level state machine (previous delta, leading/trailing-zero window, bit alignment): every branch depends on the whole prefix. The tests compress a handful of short lists with small deltas and friendly values.",
  ["src/compaction/gorilla.rs", "src/compaction/mod.rs"],
  [("delta-of-delta classes and XOR window", "GorillaCompactor::compact, compact_value, in_bit_range"), ("inverse state machine", "GorillaDecompactor::next, decompact_timestamp, decompact_values"), ("bit stream", "Bstream::append, write, write_bits, BstreamSeeker::read_next_n_bit")],
  ["Compactor::compact_vec followed by Decompactor::from(..).decompact()"])
p("C02", "Payload tags are checked and the uncompressed codec is lossless",
  "Decompressing a payload with an expected compression kind fails with a type-mismatch error exactly when the payload's tag byte is not that kind's (an empty payload counts as a mismatch), and never misreads the payload as the other kind. Payloads of the uncompressed kind give back exactly the points that were compressed, bit for bit, for any timestamps and values.",
  ["inputs"], "all byte payloads as to the tag, all lists of points as to the uncompressed codec",
  "Tests try one mismatching payload and never decode an uncompressed payload with two or more points.",
  ["src/compaction/mod.rs"], [("trailing tag byte", "Compactor::compact_vec, Compactor::get_bytes_vec, Decompactor::from"), ("fixed-width records", "Compactor::compact, Decompactor::decompact")],
  ["Compactor::compact_vec, Decompactor::from, Decompactor::decompact"])
p("C03", "A time-range read returns exactly the points in the range",
  "For a series written with strictly increasing timestamps, reading a time range returns exactly the written points whose timestamps lie in the inclusive range, in time order, with bit-identical values. A series that was never written gives a not-found error, a range entirely before the first or after the last point gives an out-of-range error, no other request fails or panics (an inverted range yields no points or that error), and writing one series never changes what another returns.",
  ["inputs", "histories"], "all histories of writes over any number of series (strictly increasing timestamps per series) and all pairs of range bounds, for both storage back ends",
  "The result depends on the position of both bounds relative to every stored timestamp and on what was written to other series; tests read a few fixed series with ranges that cover them.",
  ["src/storage/common.rs", "src/storage/sled_storage.rs", "src/storage/tikv_storage.rs"],
  [("range trim by binary search", "Storage::trim_time_series"), ("point codec", "KvStorageProcessor::encode_time_point, decode_time_point"), ("append to the series' value", "SledStorage::write_time_point, TiKvStorage::write_time_point"), ("key of a series", "SledStorage::parse_key_name, TiKvStorage::write_time_point")],
  ["Storage::write_time_point, Storage::read_time_series"])
p("C04", "The shared-store back end refuses time going backwards",
  "On the TiKV back end a write whose timestamp is not later than the newest point of its series is refused with an error and leaves every series exactly as it was; a write with a later timestamp is appended after the existing points, which stay unchanged. A write that is acknowledged is in the series, and a failed read or write of the store is reported as an error.",
  ["inputs", "histories", "fault_sequences"], "all histories of writes to any series with any timestamps and values, with store failures at any operation",
  "Tests write one increasing series; whether the last point is found and compared depends on the whole history and on failures that tests never inject.",
  ["src/storage/tikv_storage.rs", "src/storage/sled_storage.rs"], [("last point compared before append", "TiKvStorage::write_time_point")],
  ["TiKvStorage::write_time_point, read_time_series"])
p("C05", "Series-id lists are intersected exactly",
  "Given any number of strictly increasing lists of series ids, the intersection is the strictly increasing list of precisely the ids that occur in all of them: no id is lost, invented or repeated, however many lists there are and however the work is divided. With no lists the result is empty, with one list it is that list.",
  ["inputs", "schedules"], "all finite collections of strictly increasing id lists, any count and lengths",
  "The recursive split takes different paths for odd, even and power-of-two counts, and the merge depends on relative order of elements; tests try a few small collections.",
  ["src/common/mod.rs", "src/common/utils.rs"], [("two-pointer merge", "Vec<TimeSeriesId>::order_intersect"), ("divide, spawn, gather", "intersect_time_series_id_vec")],
  ["utils::intersect_time_series_id_vec, OrderIntersect::order_intersect"])
p("C06", "Looking up a complete label set finds exactly its own series",
  "After any sequence of registrations of different label sets (label names distinct within a set and following the Prometheus naming rule, values arbitrary text), looking up a label set, in any label order, returns the id it was registered with, and nothing if it was not registered. In particular two different label sets never share an id, whatever characters their values contain and whatever else is registered.",
  ["inputs", "histories"], "all histories of registrations and lookups over label sets with Prometheus label names and arbitrary values, both index back ends",
  "Label sets are flattened into text keys that share one key space with two other mappings; only adversarial values, names or combinations collide, and tests use a few short alphanumeric labels.",
  ["src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs", "src/common/label.rs"],
  [("canonical text of a label set", "KvIndexerProcessor::encode_labels, _encode_label"), ("label set to id mapping", "SledIndexer::create_index, get_series_id_by_labels; TiKvIndexer likewise")],
  ["Indexer::create_index, Indexer::get_series_id_by_labels"])
p("C07", "Label search returns exactly the series carrying every label",
  "After any sequence of registrations with increasing ids, searching for a non-empty set of labels returns the ids of exactly the registered series that carry all of those labels, in increasing order, once each. A label that no series carries makes the result empty, and a failing read of the index store is reported as an error, not as a smaller result.",
  ["inputs", "histories", "fault_sequences"], "all histories of registrations with increasing ids and all non-empty label queries, both index back ends",
  "The answer depends on the posting list of every label; tests query two fixed series with one label each.",
  ["src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs", "src/common/utils.rs"],
  [("posting list per label", "SledIndexer::create_index, get_id; TiKvIndexer::create_index"), ("intersection of posting lists", "get_series_id_contains_labels")],
  ["Indexer::get_series_id_contains_labels"])
p("C08", "Series labels are stored and read back without loss",
  "A search that returns series with their labels returns, for each series, exactly the labels it was registered with (as a set: same names, same values), for arbitrary text values including separators, quotes, backslashes, empty and non-ASCII text. Every matching series is present and no label is dropped, added, merged or altered.",
  ["inputs", "histories"], "all label sets with Prometheus label names and arbitrary text values, any history of registrations, both index back ends",
  "The labels travel through a hand-written text encoding; only values containing its special characters reveal a loss, and tests use plain words.",
  ["src/indexer/sled_indexer.rs", "src/indexer/tikv_indexer.rs"],
  [("text encoding and its inverse", "KvIndexerProcessor::encode_labels, decode_labels"), ("id to labels mapping", "create_index, get_series_metadata_contains_labels")],
  ["Indexer::get_series_metadata_contains_labels"])
p("C09", "Chunk directory names encode their time range one-to-one",
  "For every start and end time, the directory name made from them decodes to the same start and end time; so different ranges never share a directory. A name that is not a hexadecimal number of at most 128 bits is rejected with an error.",
  ["inputs"], "all pairs of 64-bit start and end times, all names",
  "2^128 pairs; the shift, mask and variable-length hexadecimal form are exercised by the tests with one pair.",
  ["src/common/utils.rs"], [("128-bit packing in hexadecimal", "encode_chunk_dir, decode_chunk_dir")],
  ["utils::encode_chunk_dir, utils::decode_chunk_dir"])
p("C10", "A chunk stores a point if and only if it acknowledges it",
  "Inserting a point into a chunk succeeds only if its timestamp is inside the chunk's inclusive time range and index and storage accepted it; then the point is stored under the id of its label set, which is the existing id if that label set was seen before and otherwise a fresh id no other label set of the chunk has. A point outside the range is refused with an out-of-range error and changes nothing, and a failure of index or storage is reported as an error.",
  ["inputs", "histories", "fault_sequences"], "all histories of inserts with any label sets, timestamps and values, any range, with failures of index or storage at any call",
  "Which branch is taken depends on what was inserted before; tests insert into a chunk whose storage never fails and never at or beyond the boundaries.",
  ["src/chunk/chunk.rs", "src/common/mod.rs"], [("range check, lookup-or-create", "Chunk::insert, is_in_range"), ("id allocation", "IdGenerator::next")],
  ["Chunk::insert"])
p("C11", "A chunk query returns every matching series with exactly its points in range",
  "Querying a chunk for labels and an inclusive time range that meets the chunk's own returns one entry for each series that carries all the labels and has a point in the range, with that series' labels and exactly its points in the range, in time order. A series without points in the range is left out without affecting the others; a range that does not meet the chunk's is refused with an out-of-range error, and any other failure of index or storage is reported.",
  ["inputs", "histories", "fault_sequences"], "all chunk contents, label queries and time ranges",
  "Depends on the combination of all series' contents; the tests query ranges every matching series has points in.",
  ["src/chunk/chunk.rs", "src/common/utils.rs"], [("candidates then per-series read", "Chunk::query"), ("overlap test", "is_duration_overlap, Chunk::is_with_range")],
  ["Chunk::query, Chunk::is_with_range, utils::is_duration_overlap"])
p("C12", "A database query merges all chunks: each series once, in time order",
  "A database query returns each label set that has a matching point in any chunk overlapping the range exactly once, with precisely that label set's points in the range from all chunks, in ascending time order, none lost or duplicated. This holds for points written before and after any number of chunk rotations, when no rotation runs during the query.",
  ["inputs", "histories"], "all sequences of writes, rotations and queries (sequential), any label queries and ranges",
  "The merge reverses, appends and reverses again per label set, across chunks; no test queries the database at all.",
  ["src/db.rs", "src/chunk/chunk.rs"], [("reverse-order merge keyed by labels", "MonolithDb::query"), ("stale chunk kept for reading", "MonolithDb::swap"), ("hash and equality of label sets", "Labels")],
  ["MonolithDb::query"])
p("C13", "An acknowledged batch write has stored every in-window point",
  "When writing a batch of points of one series to the database succeeds, every point of the batch whose (non-zero) timestamp lies inside the inclusive window of the active chunk has been stored, in order. If storing any of them failed the batch write reports an error, and points outside the window are not stored anywhere.",
  ["inputs", "histories", "fault_sequences"], "all batches of points and all failures of individual inserts",
  "Loss shows only when some insert fails or a point is on the window's edge; no test writes a batch to the database.",
  ["src/db.rs", "src/chunk/chunk.rs"], [("filter, insert each, collect errors", "MonolithDb::write_time_points")],
  ["MonolithDb::write_time_points, write_time_point"])
p("C14", "Reopening a data directory keeps its chunks and refuses another back end",
  "Opening a data directory that was created with a different storage or index back end fails with an option error and leaves the recorded configuration unchanged; with the same back ends it succeeds, and a fresh directory gets the configuration recorded. Every chunk directory present is opened again as a closed chunk with the time range in its name (the end capped at the opening time), in ascending order of start time, and entries whose name is not a chunk name are ignored.",
  ["inputs", "histories", "configurations"], "all directory contents made of chunk directories and other entries, all pairs of recorded and requested back-end names",
  "Tests check three metadata combinations, and nothing reopens a directory with chunks.",
  ["src/db.rs", "src/chunk/chunk.rs", "src/common/utils.rs"], [("recorded back-end names", "MonolithDb::read_or_create_metadata"), ("directory scan", "MonolithDb::read_existing_chunk"), ("chunk options file", "ChunkOpts::read_config_from_dir, write_config_to_dir")],
  ["MonolithDb::new", "files in the data directory"])
p("C15", "Write-ahead-log entries are encoded unambiguously",
  "The bytes of a log entry are its sequence number, type, content length, content and CRC-32 of the content, in that order and big-endian, for every entry with up to 65535 content bytes, however the content was pushed. The reported length is the number of bytes, and a cloned entry encodes (also after further pushes) like the original.",
  ["inputs", "histories"], "all sequence numbers, contents up to 65535 bytes, all ways of splitting the content into pushes",
  "Tests encode single small contents and never compare the reported length.",
  ["src/wal/mod.rs"], [("entry layout", "Entry::get_bytes, len, push, clone")],
  ["Entry::get_bytes, Entry::len"], "cfg in the copy: the log module is private")
p("C16", "A log segment holds every acknowledged entry, in order, for every flush policy",
  "After any sequence of entry writes and flushes followed by a close, a log segment consists of the magic number, the encodings of exactly the written entries in write order, and the CRC-64 of those entry bytes, whichever flush policy is in use. After an explicit flush every entry written so far is in the file, and an error or a short write of the underlying file is never reported as success.",
  ["inputs", "histories", "configurations", "fault_sequences"], "all sequences of entries and flushes, all flush policies and limits, writers that accept any number of bytes per call or fail",
  "Only one entry with the immediate policy on a well-behaved file is tested; the caching policies depend on counters and limits.",
  ["src/wal/segment.rs", "src/wal/mod.rs"], [("cache per policy", "Segment::write_entry, flush, close"), ("running CRC", "Segment::write")],
  ["the bytes handed to the underlying writer"], "cfg in the copy: the log module is private")
p("C17", "Equality of labels, label sets and points obeys its laws",
  "Two labels are equal exactly when name and value are, and two label sets exactly when they have the same labels in the same order; comparing never panics, is symmetric, and equal label sets have equal hashes. Two points with finite values are equal exactly when their timestamps are equal and their values differ by less than the fixed tolerance of 1e-9, and points are ordered by timestamp.",
  ["inputs"], "all pairs of labels, label sets of any lengths, and points with finite values",
  "The maps and assertions used elsewhere rest on these relations; tests only compare equal or trivially small values.",
  ["src/common/label.rs", "src/common/time_point.rs"], [("hand-written PartialEq, Ord, Hash", "Label, Labels, TimePoint")],
  ["==, cmp and get_hash on these types"])
p("C18", "Remote write and read carry series without loss",
  "Converting a remote-write series into the internal form keeps every label and sample in order with identical names, values, timestamps and value bits, and converting back gives the same message (timestamps up to 2^63-1). A read request gets one result per query, in order, each holding exactly the series the database returns for that query's labels and inclusive range.",
  ["inputs", "histories"], "all series messages with non-negative timestamps, all read requests with equality matchers",
  "No test exercises the conversions or the query path of the server.",
  ["src/common/time_series.rs", "src/common/time_point.rs", "src/common/label.rs", "src/server.rs"],
  [("From implementations", "TimeSeries, TimePoint, Label"), ("per-query mapping", "MonolithServer::query"), ("per-series write", "MonolithServer::write")],
  ["MonolithServer::query, MonolithServer::write, From conversions"])
p("C19", "Component identifiers on the shared store are stable and separate",
  "Creating the storage and the index of a chunk on the shared TiKV store, in either order, records both identifiers under the chunk's identifier, and reopening the chunk gives each component back exactly the identifier it was created with. Creating one component never changes the other's recorded identifier, so data written before a restart is found after it, and different components and chunks never see each other's data.",
  ["inputs", "histories"], "all orders and interleavings of component creation and reopening for any number of chunks",
  "No test creates components on a shared store and reopens them; the two halves of one record are updated separately.",
  ["src/backend/tikv.rs", "src/storage/tikv_storage.rs", "src/indexer/tikv_indexer.rs"],
  [("two-half mapping record", "TiKvRawBackend::init_component"), ("reopening", "TiKvStorageBuilder::read_from_chunk, TiKvIndexerBuilder::read_from_chunk")],
  ["TiKvRawBackend::init_component, builder build / read_from_chunk"])
p("C20", "Malformed requests are answered with an error and change nothing",
  "Any request body, whether or not it is valid compressed protobuf, is answered; a body that cannot be decompressed or decoded gets an error status, stores nothing, and leaves the server able to answer later requests. A write is answered with success only if its body was decoded completely and every series in it was written without error, and an unknown path is answered with an error status.",
  ["inputs", "histories", "fault_sequences"], "all sequences of complete HTTP requests, with any body and path",
  "No test sends a request; arbitrary bytes reach the decompressor and the decoder before anything is checked.",
  ["src/server.rs"], [("request handling", "MonolithServer::_process"), ("status by result", "MonolithServer::write, query")],
  ["HTTP status codes and later queries"])
p("C21", "Queries concurrent with chunk rotation or writes see each point once",
  "A query that runs while other threads write or while the active chunk is being rotated returns every point acknowledged before the query started exactly once, and never a point twice. Concurrent inserts of the same new label set give it one id.",
  ["schedules"], "all interleavings of queries, writes and rotations",
  "Tests run two writer threads once; the interleavings that matter are narrow windows between lock releases.",
  ["src/db.rs", "src/chunk/chunk.rs"], [("locks around active and stale chunks", "MonolithDb::query, swap"), ("chunk lock", "Chunk::insert, query")],
  ["MonolithDb::query under concurrency"])
p("C22", "Acknowledged writes survive a crash",
  "A point whose write was acknowledged is returned by queries after the process is killed at any moment and the data directory is opened again. Index entries and stored points are never left half-created in a way that makes later writes or queries of the series fail.",
  ["crash_points"], "all kill points during any history of writes",
  "No test kills the process.",
  ["src/db.rs", "src/storage/sled_storage.rs", "src/indexer/sled_indexer.rs"], [("sled's own log", "SledStorage, SledIndexer")],
  ["queries after reopening"])

out = "".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(here, "properties.jsonl"), "w").write(out)
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, s)
except ImportError:
    pass
for x in P:
    n = len([t for t in x["statement"].replace("i.e.", "").split(". ") if t])
    if n > 3: print(x["id"], "sentences", n)
    if len(x["title"]) > 80: print(x["id"], "title", len(x["title"]))
print(len(P))
