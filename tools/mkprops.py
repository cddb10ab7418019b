#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

CC = "reverb/cc/"
prop("C01", "Rate limiter admits exactly what min size and error bounds allow",
 "For every configuration (samples per insert, minimum size, minimum and maximum difference) and every history of admitted inserts, samples and deletes, an insert is admitted exactly when the table has not yet reached the minimum size or the resulting difference inserts*samples_per_insert - samples stays at or below the maximum, and a sample is admitted exactly when the table holds at least the minimum size and the resulting difference stays at or above the minimum. Each admitted insert, sample or delete changes the counters by exactly one and nothing else does, and resetting returns them to zero.",
 ["inputs", "histories", "configurations"],
 "all double/int64 configurations with finite bounds (floating point treated as exact reals), all reachable counter values",
 "Tests try a handful of configurations and short histories; the boundary (off by one batch, <= vs <, before/after min size) is an unbounded numeric space.",
 [CC+"rate_limiter.cc", CC+"rate_limiter.h"],
 [("RateLimiter::CanInsert/CanSample", CC+"rate_limiter.cc"), ("RateLimiter::Insert/Sample/Delete/Reset", CC+"rate_limiter.cc")],
 [("inserts_, samples_, deletes_", "admitted operations so far", CC+"rate_limiter.h")],
 ["RateLimiter::CanInsert", "RateLimiter::CanSample", "RateLimiter::Info"])
prop("C02", "Rate limiter waits end correctly: admitted, timed out or cancelled",
 "A blocked insert or sample returns success only in a state in which that operation is admitted (and a successful sample has been counted exactly once), returns a deadline error only after it had to wait and its timeout has passed, and then has changed no counter, and returns a cancelled error if and only if the limiter was cancelled. Every operation that can turn 'not admitted' into 'admitted' for a class of waiters, and cancelling, wakes a waiter of that class (all waiters when cancelling).",
 ["schedules", "histories", "inputs"],
 "all interleavings at lock/wait granularity (other threads may change the protected state arbitrarily within its invariant at every wait), all timeouts",
 "Tests run a few timed threads; a missed wake-up or a counter bumped on the timeout path shows only on specific schedules.",
 [CC+"rate_limiter.cc"],
 [("RateLimiter::AwaitCanInsert/AwaitAndFinalizeSample", CC+"rate_limiter.cc"), ("RateLimiter::MaybeSignalCondVars", CC+"rate_limiter.cc"), ("RateLimiter::Cancel", CC+"rate_limiter.cc")],
 [("can_insert_cv_, can_sample_cv_", "waiters", CC+"rate_limiter.h"), ("cancelled_", "no further operation may be admitted", CC+"rate_limiter.h")])
prop("C03", "A table never holds more items than its capacity and evicts as configured",
 "After every operation on a table the number of stored items is at most its configured maximum size; inserting a new key into a full table removes exactly one item, the one the remover chooses among the stored items and the new one, and assigning to an existing key removes nothing and leaves the size unchanged. An insert that fails leaves the set of stored items as it was.",
 ["inputs", "histories", "configurations", "fault_sequences"],
 "all sequences of table operations, all selectors satisfying the selector contract, all capacities >= 1, all selector failures",
 "Tests fill tables of size 1 to 1000 with one selector pairing; they never make a selector fail half-way and never quantify over histories.",
 [CC+"table.cc"],
 [("Table::InsertOrAssignInternal", CC+"table.cc"), ("Table::DeleteItem", CC+"table.cc"), ("Table::InsertCheckpointItem", CC+"table.cc")],
 [("data_", "stored items", CC+"table.h"), ("max_size_", "capacity", CC+"table.h")])
prop("C04", "Stored items, sampler, remover and episode counts always agree",
 "After every table operation, successful or not, the keys known to the sampler and to the remover are exactly the keys of the stored items, each with the stored item's current priority, and the reported number of episodes equals the number of distinct episodes referenced by stored items. Consequently sampling and eviction can only ever pick stored items, and every stored item can be picked.",
 ["inputs", "histories", "fault_sequences"],
 "all histories of insert, assign, update, delete, sample, reset and restore, including rejected priorities and other selector errors",
 "Tests check a few happy-path sequences; agreement of four separate indexes after every error path and every history is a data-structure invariant.",
 [CC+"table.cc", CC+"table.h", CC+"selectors/interface.h"],
 [("Table::InsertOrAssignInternal", CC+"table.cc"), ("Table::UpdateItem", CC+"table.cc"), ("Table::DeleteItem", CC+"table.cc"), ("Table::Reset", CC+"table.cc")],
 [("data_", "stored items", CC+"table.h"), ("sampler_, remover_", "selectors", CC+"table.h"), ("episode_refs_", "items per episode", CC+"table.h")])
prop("C05", "Sampling counts, sample limits and sample metadata are exact",
 "Each returned sample increases the chosen item's sample count by exactly one, carries that new count, the probability and priority under which it was chosen and the table size at that moment, and the number of unique samples grows exactly when the count goes from zero to one. With a positive sample limit no item is returned more than that many times and it is removed from the table together with the sample that reaches the limit; with no limit, sampling never removes items.",
 ["inputs", "histories", "configurations"],
 "all table states satisfying the table invariant, all limits, all selector answers permitted by the selector contract",
 "Tests observe a few samples of one table; limits, counters and metadata need checking against the abstract state for every history.",
 [CC+"table.cc"],
 [("Table::SampleInternal", CC+"table.cc"), ("Table::SampleFlexibleBatch", CC+"table.cc")],
 [("times_sampled", "per item sample count", CC+"schema.proto"), ("num_unique_samples_", "items sampled at least once", CC+"table.h")])
prop("C06", "Priority updates, deletes and resets have exactly the requested effect",
 "Updating priorities changes the priority of exactly the named stored items and nothing else, updating or deleting unknown keys is ignored without error, and deleting removes exactly the named stored items from the table, its selectors and its counters. Resetting leaves an empty table, empty selectors, zeroed counters and a limiter that behaves as newly created.",
 ["inputs", "histories"],
 "all update and delete lists (unknown and repeated keys included), all table states satisfying the invariant",
 "Tests use lists of one to three keys; the frame (nothing else changes) for every list and table is not testable by examples.",
 [CC+"table.cc"],
 [("Table::MutateItems", CC+"table.cc"), ("Table::UpdateItem", CC+"table.cc"), ("Table::DeleteItem", CC+"table.cc"), ("Table::Reset", CC+"table.cc")])
prop("C07", "Checkpointing a table and restoring it preserves its contents and order",
 "A table checkpoint lists every stored item exactly once, in insertion order, with its current priority and sample count, references every chunk those items use, and records the size limits, unique-sample and deleted-episode counters, selector options and the limiter's configuration and counters. Restoring such a checkpoint yields a table with the same items, order, counters and the same admission decisions as the original.",
 ["inputs", "histories", "configurations"],
 "all table states satisfying the table invariant; storage layer (record reader/writer, proto serialisation) assumed faithful",
 "Tests restore a few tiny tables; completeness, order and counter equality must hold for every table state.",
 [CC+"table.cc", CC+"rate_limiter.cc", CC+"platform/tfrecord_checkpointer.cc"],
 [("Table::Checkpoint", CC+"table.cc"), ("Table::InsertCheckpointItem", CC+"table.cc"), ("RateLimiter::CheckpointReader/constructor", CC+"rate_limiter.cc"), ("TFRecordCheckpointer::Load", CC+"platform/tfrecord_checkpointer.cc")])
prop("C08", "FIFO and LIFO selectors return the oldest and the newest key",
 "For every history of inserts, deletes, updates and clears, a FIFO selector's sample is the least recently inserted key still present and a LIFO selector's sample the most recently inserted one, each with probability one; updates do not change the order. Inserting a present key or updating or deleting an absent key is rejected as an invalid argument and changes nothing.",
 ["inputs", "histories"],
 "all key sets and operation histories",
 "Tests exercise three to five keys; order under arbitrary interleaved deletes is a history property.",
 [CC+"selectors/fifo.cc", CC+"selectors/lifo.cc"],
 [("FifoSelector", CC+"selectors/fifo.cc"), ("LifoSelector", CC+"selectors/lifo.cc")],
 [("keys_", "keys in order", CC+"selectors/fifo.h"), ("key_to_iterator_", "position of each key", CC+"selectors/fifo.h")])
prop("C09", "Uniform selector samples present keys with probability one over their number",
 "For every history of inserts, deletes, updates and clears, the uniform selector always returns a key that is present, can return every present key, and reports probability exactly one divided by the number of present keys. Inserting a present key or updating or deleting an absent key is rejected as an invalid argument and changes nothing.",
 ["inputs", "histories"],
 "all key sets, all histories, all values returned by the random source",
 "Tests delete at most one or two keys; the index bookkeeping of swap-with-last deletion needs every position and history.",
 [CC+"selectors/uniform.cc"],
 [("UniformSelector::Delete", CC+"selectors/uniform.cc"), ("UniformSelector::Sample", CC+"selectors/uniform.cc")],
 [("keys_, key_to_index_", "dense array and its inverse", CC+"selectors/uniform.h")])
prop("C10", "Heap selector returns the extreme-priority key, oldest change first on ties",
 "For every history of inserts, updates, deletes and clears with non-NaN priorities, a min-heap selector returns a present key of smallest priority and a max-heap selector one of largest priority, with probability one, and among equal priorities the one whose priority was set least recently. Inserting a present key or updating or deleting an absent key is rejected as an invalid argument and changes nothing.",
 ["inputs", "histories"],
 "all key sets and priorities, all operation histories; priorities compared as real numbers",
 "Tests use up to a handful of keys; heap order after removal from arbitrary positions and priority changes in both directions needs an inductive invariant.",
 [CC+"selectors/heap.cc", CC+"support/intrusive_heap.h"],
 [("HeapSelector", CC+"selectors/heap.cc"), ("IntrusiveHeap::Push/Remove/AdjustHeap/PercolateUp/PercolateDown", CC+"support/intrusive_heap.h")],
 [("rep_", "heap array", CC+"support/intrusive_heap.h"), ("nodes_", "node per key", CC+"selectors/heap.h"), ("update_count_", "recency tie break", CC+"selectors/heap.h")])
prop("C11", "Prioritized selector samples proportionally to priority^exponent",
 "For every history of inserts, updates, deletes and clears with finite non-negative priorities, the prioritized selector returns a present key and reports (up to floating-point rounding) probability priority^exponent divided by the sum over all present keys (uniform if that sum is zero), a key of zero weight is never returned while a positive one exists, and negative or NaN priorities are rejected. Inserting a present key, updating or deleting an absent key and rejected priorities return an invalid argument and change nothing.",
 ["inputs", "histories"],
 "all key sets, priorities and exponents (floating point treated as exact real arithmetic), all values of the random source",
 "Tests use small trees and statistical tolerance; the partial-sum invariant of the implicit tree must hold after any delete/update history.",
 [CC+"selectors/prioritized.cc"],
 [("PrioritizedSelector::SetNode/Sample/Delete", CC+"selectors/prioritized.cc")],
 [("sum_tree_", "implicit binary tree of weights", CC+"selectors/prioritized.h"), ("key_to_index_", "leaf of each key", CC+"selectors/prioritized.h")])
prop("C12", "Chunk store: a live chunk can be fetched, a dead one cannot be resurrected",
 "As long as any holder keeps a chunk obtained from the store alive, fetching its key returns that same chunk, and inserting data under its key returns the existing chunk rather than a second one. Fetching a set of keys succeeds exactly when every one of them is live and then returns them in the requested order; otherwise it reports not found.",
 ["histories", "schedules", "inputs"],
 "all histories of insert, fetch, release and background clean-up in any order",
 "Tests release and fetch a chunk or two; re-insertion racing with deferred clean-up of an earlier chunk under the same key needs a specific schedule.",
 [CC+"chunk_store.cc", CC+"chunk_store.h"],
 [("ChunkStore::Insert/Get/GetItem", CC+"chunk_store.cc"), ("ChunkStore::CleanupInternal", CC+"chunk_store.cc")],
 [("data_", "weak references by key", CC+"chunk_store.h"), ("delete_keys_", "keys awaiting clean-up", CC+"chunk_store.h")])
prop("C13", "Internal queues deliver each item once, in order, within bounds",
 "A bounded queue delivers every successfully pushed item exactly once in push order and never buffers more than its capacity; after the last item was announced remaining items can still be popped and then pops fail, and after closing pushes and pops fail. An unbounded queue delivers each pushed item once in order and, once it is closed or its last item was announced, refuses further pushes and fails pops as documented; every transition that can unblock a waiter wakes one.",
 ["schedules", "histories"],
 "all interleavings at lock/wait granularity, all capacities >= 1, any number of producers and consumers",
 "Tests run two or three threads; lost wake-ups and ring-index wrap-around depend on schedule, capacity and history.",
 [CC+"support/queue.h", CC+"support/unbounded_queue.h"],
 [("Queue::Push/Pop/PopBatch", CC+"support/queue.h"), ("UnboundedQueue::Push/Pop", CC+"support/unbounded_queue.h")],
 [("buffer_, next_, size_", "ring buffer", CC+"support/queue.h")])
prop("C14", "Delta encoding and compression are lossless",
 "For every tensor of a supported integer type, delta-decoding the delta-encoding of the tensor gives back every element exactly, including when differences wrap around, and tensors of other types pass through unchanged. Compressing and decompressing any tensor gives back the same type, shape and contents.",
 ["inputs"],
 "all tensors of all sizes and all element values of the supported types; snappy itself assumed lossless",
 "Tests encode a few tensors of a few types; wrap-around and the element stride must be right for all sizes and values.",
 [CC+"tensor_compression.cc", CC+"tensor_compression.h"],
 [("DeltaEncode", CC+"tensor_compression.cc"), ("CompressTensorAsProto/DecompressTensorFromProto", CC+"tensor_compression.cc")])
prop("C15", "Chunks contain exactly the appended steps, in order, without gaps",
 "Each data reference returned when appending to a column denotes, once its chunk is built, exactly the appended value: the chunk's recorded episode and step range covers precisely the steps it holds in order, a reference's offset is its position in that chunk, and no chunk holds more steps than the configured chunk length. Flushing early, resetting between episodes and skipping steps never mixes episodes or reorders steps, and chunks stay available for at least the configured number of most recent steps.",
 ["inputs", "histories", "configurations"],
 "all sequences of append, flush and reset, all chunk lengths and keep-alive windows accepted by validation",
 "Tests append a few steps with a few chunk lengths; range bookkeeping across flushes, gaps and resets is a history property.",
 [CC+"chunker.cc", CC+"chunker.h"],
 [("Chunker::Append/Flush/FlushLocked/Reset", CC+"chunker.cc"), ("CellRef", CC+"chunker.h")],
 [("buffer_, offset_, next_chunk_key_", "chunk under construction", CC+"chunker.h"), ("active_refs_", "kept references", CC+"chunker.h")])
prop("C16", "Flat trajectories describe exactly the requested steps",
 "Describing a run of steps over a list of chunks by offset and length yields, for every column, slices that cover exactly those steps in order, inside the chunks' bounds, with no step repeated or dropped. The list of chunk keys of a trajectory holds every referenced chunk exactly once in order of first use, and a trajectory is recognised as timestep-shaped exactly when it has columns, all of them consist of the same ranges of the same chunks, each slice taken from the chunk column with the trajectory column's number, and every slice after the first starts at the beginning of its chunk.",
 ["inputs"],
 "all chunk lists, offsets, lengths and trajectories",
 "Tests use two or three chunks of equal size; slicing at chunk boundaries for every offset and length is an unbounded input space.",
 [CC+"support/trajectory_util.cc"],
 [("FlatTimestepTrajectory", CC+"support/trajectory_util.cc"), ("GetChunkKeys", CC+"support/trajectory_util.cc"), ("IsTimestepTrajectory", CC+"support/trajectory_util.cc")])
prop("C17", "A trajectory item refers to exactly the data references it was built from",
 "For every accepted trajectory, expanding each column's slices into single steps gives exactly the sequence of data references supplied for that column, in order, including repeats and gaps. Items built from expired references, from columns that are empty, mix types or incompatible shapes, or are squeezed without having exactly one row are rejected with an error and leave the writer usable.",
 ["inputs", "histories"],
 "all lists of references per column (adjacent, overlapping, repeated, reversed, with gaps, from any chunks)",
 "Tests pass contiguous references almost exclusively; the merge of neighbouring references has unbounded patterns.",
 [CC+"trajectory_writer.cc", CC+"trajectory_writer.h"],
 [("TrajectoryColumn::ToProto / MergeAdjacent", CC+"trajectory_writer.cc"), ("TrajectoryColumn::Validate", CC+"trajectory_writer.cc"), ("TrajectoryWriter::CreateItem", CC+"trajectory_writer.cc")])
prop("C18", "Trajectory writer: flush success means confirmed; chunks precede items",
 "A successful flush or episode end means that all but the permitted number of previously created items have been confirmed by the server, and an unrecoverable stream error is reported instead of success. An item is only ever sent after every chunk it refers to has been sent on the same stream, items are sent in creation order, each at most once per stream, and chunks still needed by pending items or live references are listed as to be kept. Closing the writer ends its worker even while the worker waits for data.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings at lock/wait granularity of caller, writer and reader threads, stream failures at any call",
 "Tests script one mock stream; losing or reordering items around stream failures and flush thresholds needs particular schedules.",
 [CC+"trajectory_writer.cc"],
 [("TrajectoryWriter::RunStreamWorker/SendItem/GetNextPendingItem", CC+"trajectory_writer.cc"), ("TrajectoryWriter::Flush/EndEpisode", CC+"trajectory_writer.cc")],
 [("write_queue_, in_flight_items_", "unsent and unconfirmed items", CC+"trajectory_writer.h")])
prop("C19", "Legacy writer items cover exactly the last requested timesteps",
 "Creating an item for the last n timesteps yields a trajectory covering exactly those n appended steps in order, and requests for more steps than are available or more than the configured maximum, or with a negative count, are rejected without creating an item. A failed append or item creation leaves the writer's buffered data as it was, and pending items are sent after their chunks, in creation order and once.",
 ["inputs", "histories", "configurations"],
 "all sequences of append, create, flush and close, all chunk lengths and limits accepted by the constructor",
 "Tests use short episodes with one chunk length; interaction of early-flushed short chunks with availability and offsets is a history property.",
 [CC+"writer.cc", CC+"writer.h"],
 [("Writer::CreateItem", CC+"writer.cc"), ("Writer::Finish/WriteWithRetries", CC+"writer.cc")],
 [("chunks_, buffer_, pending_items_", "sent and unsent data", CC+"writer.h")])
prop("C20", "Sampled data is unpacked into exactly the steps the item describes",
 "Unpacking a chunk column slice returns exactly the requested rows and rejects out-of-range columns, offsets and lengths; assembling a sample yields each column as the concatenation of its slices in order, squeezed when marked. Reading a sample step by step gives, after any number of steps already read, the same rows as reading it as a whole trajectory, and reports the end exactly after the last step.",
 ["inputs", "histories"],
 "all trajectories and chunk contents, all partitions of columns into chunk slices, all numbers of steps consumed",
 "Tests use equally chunked columns; columns split differently across chunks and partially consumed samples form an unbounded space.",
 [CC+"sampler.cc", CC+"sampler.h", CC+"support/trajectory_util.cc"],
 [("Sample::GetNextTimestep/AsTrajectory/AsBatchedTimesteps/is_composed_of_timesteps", CC+"sampler.cc"), ("UnpackChunkColumn/UnpackChunkColumnAndSlice", CC+"support/trajectory_util.cc"), ("AsSample", CC+"sampler.cc")])
prop("C21", "A sampler never returns or requests more samples than configured",
 "Over a sampler's lifetime the number of samples requested from and returned by the server never exceeds the configured maximum, once that many have been returned further reads report the end of the sequence, and worker failures surface as errors to the reader. Option combinations outside their documented ranges are rejected at construction.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "all interleavings at lock/wait granularity of workers and readers, all option values",
 "Tests use one or two workers; over-requesting depends on which worker reserves its batch when.",
 [CC+"sampler.cc", CC+"sampler.h"],
 [("Sampler::RunWorker", CC+"sampler.cc"), ("Sampler::Options::Validate", CC+"sampler.cc"), ("Sampler::MaybeSampleNext", CC+"sampler.cc")],
 [("requested_, returned_, max_samples_", "sample budget", CC+"sampler.h")])
prop("C22", "The server stores an item only with all of its chunks",
 "An item received on an insert stream is stored only together with every chunk its trajectory refers to, in order of first reference; if one of them is unknown on that stream, or the table does not exist, the stream ends with an error and the item is not stored. After an item exactly the chunks the client asked to keep remain usable by later items of that stream, and a confirmation carrying the item's key is sent if and only if requested and only after the item was accepted.",
 ["inputs", "histories", "fault_sequences"],
 "all request sequences on a stream, all trajectories and keep lists naming distinct available chunks",
 "Tests send a few well-formed requests; arbitrary orderings of chunks, items and keep lists are a history property.",
 [CC+"reverb_service_impl.cc", CC+"reverb_service_async_impl.cc"],
 [("ReverbServiceImpl::InsertStreamInternal", CC+"reverb_service_impl.cc"), ("WorkerlessInsertReactor", CC+"reverb_service_async_impl.cc")])
prop("C23", "The server streams exactly the requested samples, each complete and in order",
 "For each valid sample request the server sends exactly the requested number of samples, unless the stream is cancelled or fails; for each sample every chunk is sent once, in item order, the item's information accompanies its first chunk and the end marker its last and only its last. Requests with a non-positive number of samples, an invalid batch size or an unknown table are rejected, and a batch never exceeds the remaining number of samples.",
 ["inputs", "histories", "fault_sequences"],
 "all requests, all batch sizes returned by the table, all chunk sizes (any split into messages)",
 "Tests use items of one or two small chunks; the split into messages at the size limit and partial batches are rarely reached.",
 [CC+"reverb_service_impl.cc", CC+"reverb_service_async_impl.cc"],
 [("ReverbServiceImpl::SampleStreamInternal", CC+"reverb_service_impl.cc"), ("SampleTaskInfo::NextSampleSize", CC+"reverb_server_table_reactor.h"), ("WorkerlessSampleReactor::ProcessSample", CC+"reverb_service_async_impl.cc")])
prop("C24", "Writer option validation and copying is exact",
 "A chunking configuration is accepted exactly when the chunk length is at least one and the keep-alive window is at least the chunk length, and automatically tuned chunk lengths always stay within one and their configured maximum. Copying a chunking configuration yields one with the same settings, including delta encoding.",
 ["inputs", "configurations", "histories"],
 "all option values, all sequences of observed item and chunk statistics",
 "Tests check a few boundary values; the tuner's bounds must hold after any history of statistics.",
 [CC+"chunker.cc", CC+"chunker.h"],
 [("ValidateChunkerOptions", CC+"chunker.cc"), ("AutoTunedChunkerOptions::OnItemFinalized", CC+"chunker.cc"), ("Clone", CC+"chunker.cc")])
prop("C25", "Signature flattening lists every leaf once, in structure order",
 "Flattening a table signature yields one entry per tensor leaf, in list, tuple, named-tuple and sorted-dictionary order, with the leaf's type and shape and its path as name, and fails for any other leaf kind. A table without a signature yields no constraint at all.",
 ["inputs"],
 "all nested signature structures",
 "Tests flatten a few structures; arbitrary nesting needs structural induction.",
 [CC+"support/signature.cc"],
 [("FlatSignatureFromStructuredValue", CC+"support/signature.cc")])
prop("C26", "Asynchronous table requests are answered in order and at most once",
 "In worker mode every queued sample request is answered exactly once, with at most the number of samples asked for or with an error (cancelled on shutdown, deadline exceeded after its timeout), and queued inserts are applied in arrival order, each once. Writers told that the queue is full are notified once when there is room again, and closing the table answers all pending requests.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings at lock/wait granularity of callers and the table worker, all queue lengths and timeouts",
 "Worker-mode tests are flaky or excluded; lost requests or callbacks depend on precise schedules.",
 [CC+"table.cc", CC+"task_worker.h", CC+"support/task_executor.cc"],
 [("Table::TableWorkerLoop", CC+"table.cc"), ("Table::EnqueSampleRequest", CC+"table.cc"), ("Table::InsertOrAssignAsync", CC+"table.cc"), ("TaskExecutor", CC+"support/task_executor.cc")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
except (ImportError, FileNotFoundError):
    pass
print(len(P), "properties")
