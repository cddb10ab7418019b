"""What decides each property: translation units, contracts, functions under
contract, and the native harness that replays failures / stands in (bounded)
for functions outside the verifier's reach."""
import os
SEL = ["selectors/fifo", "selectors/lifo", "selectors/uniform", "selectors/heap", "selectors/prioritized", "support/intrusive_heap"]
P = {}
def prop(id, **kw): P[id] = kw
prop("C01", tus=["rate_limiter", "errors"], contracts=["rate_limiter"], functions=["RateLimiter::*"],
     harness="rate_limiter", htus=["rate_limiter", "errors"], bounded=["event statistics (StatsManager::ToProto, GetEventHistory) are not specified"])
prop("C02", tus=["rate_limiter", "errors"], contracts=["rate_limiter"], functions=["RateLimiter::*"],
     harness="rate_limiter", htus=["rate_limiter", "errors"], bounded=["that a signalled waiter is eventually scheduled (liveness of absl::CondVar): up to 8 waiting threads"])
prop("C08", tus=["selectors/fifo", "selectors/lifo"], contracts=["selectors"], functions=["FifoSelector::*", "LifoSelector::*"],
     harness="selectors", htus=SEL, bounded=[])
prop("C09", tus=["selectors/uniform"], contracts=["selectors"], functions=["UniformSelector::*"],
     harness="selectors", htus=SEL, bounded=["absl::Uniform draws every index (coverage of all present keys): frequencies over 3000 draws"])
prop("C10", tus=["selectors/heap"], contracts=["heap"], functions=["HeapSelector::*", "IntrusiveHeap::*"], harness="selectors", htus=SEL, bounded=[])
prop("C11", tus=["selectors/prioritized"], contracts=["prioritized"], functions=["PrioritizedSelector::*"], harness="selectors", htus=SEL,
     bounded=["floating-point rounding is not part of the property: the proof is over the reals; the harness compares with a tolerance", "absl::Uniform draws every value (sampling frequencies over 3000 draws)"])
QW = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "native/inst/queue.cc")
prop("C12", tus=["chunk_store"], contracts=["queue", "chunk_store"], functions=["ChunkStore::*"], harness="chunk_store", htus=["chunk_store"],
     bounded=["that the cleaner thread eventually removes every dead entry (scheduling)"])
prop("C13", tus=[QW], contracts=["queue"], functions=["internal::Queue::*", "internal::UnboundedQueue::*"], harness="queue", htus=[],
     bounded=["that a notified waiter is eventually scheduled: up to 4 producers and 4 consumers"])
TT = dict(tus=["table", "chunk_store"], contracts=["rate_limiter", "table"], harness="table", htus="all")
W = "operations of a table that runs its own worker thread (TableWorkerLoop is not under contract; the operations it calls are): model-based histories with a worker"
OPS = ["Table::InsertOrAssign", "Table::InsertOrAssignInternal", "Table::InsertCheckpointItem", "Table::DeleteItem", "Table::UpdateItem", "Table::MutateItems", "Table::SampleInternal", "Table::Reset", "Table::ExtensionOperation", "CheckItemValidity"]
prop("C03", functions=OPS + ["Table::size", "Table::Get", "Table::info"], bounded=[W], **TT)
prop("C04", functions=OPS + ["Table::SampleFlexibleBatch", "Table::num_episodes", "Table::num_deleted_episodes", "Table::info", "Table::Get"], bounded=[W], **TT)
prop("C05", functions=["Table::SampleInternal", "Table::SampleFlexibleBatch", "Table::DeleteItem", "Table::info", "Table::set_num_unique_samples_from_checkpoint", "Table::CanSample"], bounded=[W], **TT)
prop("C06", functions=["Table::MutateItems", "Table::UpdateItem", "Table::DeleteItem", "Table::Reset", "Table::ExtensionOperation", "Table::InsertOrAssign", "Table::InsertOrAssignInternal", "Table::Get"], bounded=[W], **TT)
TT7 = dict(TT, tus=["table", "chunk_store", "rate_limiter", "errors"])
prop("C07", functions=["Table::InsertCheckpointItem", "Table::set_num_*_from_checkpoint", "RateLimiter::CheckpointReader", "RateLimiter::RateLimiter"],
     bounded=["Table::Checkpoint and the order of items in it (sorted by insertion time), selector options, the TFRecord checkpointer: model-based histories, saved to disk, loaded back and compared"], **TT7)
prop("C26", functions=["Table::InsertOrAssignAsync", "Table::EnqueSampleRequest", "GetExpiredRequests", "Table::InsertOrAssignInternal", "Table::SampleInternal", "Table::ExtensionOperation", "Table::Close"],
     bounded=["Table::TableWorkerLoop and ExtensionsWorkerLoop (two locks, callbacks): histories of queued requests with a real worker; the operations the loop performs are under contract"], **dict(TT, contracts=["rate_limiter", "table", "table_async"]))
prop("C14", tus=["tensor_compression"], contracts=["compression"], functions=["DeltaEncode", "DeltaEncodeList", "CompressTensorAsProto", "DecompressTensorFromProto"], harness="compression", htus=["tensor_compression", "platform/default/snappy"],
     bounded=["platform/default/snappy.cc (source and sink classes called by the snappy library): round trips of random tensors"])
CKT = dict(tus=["chunker", "support/trajectory_util", "tensor_compression"], contracts=["compression", "cells", "chunker_options", "chunker"], harness="chunker", htus=["chunker", "tensor_compression", "support/trajectory_util", "platform/default/snappy"])
prop("C15", functions=["Chunker::*", "CellRef::*", "ChunkDataContainer::ChunkDataContainer", "internal::UnpackChunkColumn"], bounded=["that UniformKeyGenerator does not repeat keys (64 random bits)"], **CKT)
prop("C24", functions=["ValidateChunkerOptions", "ConstantChunkerOptions::*", "AutoTunedChunkerOptions::*", "Chunker::ApplyConfig", "Chunker::OnItemFinalized"], **CKT)
prop("C16", tus=["support/trajectory_util", "chunk_store"], contracts=["trajectory"], functions=["internal::GetChunkKeys", "internal::FlatTimestepTrajectory", "internal::ColumnLength", "internal::TimestepTrajectoryLength", "internal::TimestepTrajectoryOffset", "internal::IsTimestepTrajectory"],
     harness="trajectory", htus=["support/trajectory_util", "chunk_store", "tensor_compression", "platform/default/snappy"])
prop("C20", tus=["sampler", "support/trajectory_util", "tensor_compression"], contracts=["compression", "cells", "sample"], functions=["Sample::*", "ScalarTensor", "InitializeTensor", "internal::UnpackChunkColumn", "internal::UnpackChunkColumnAndSlice"], harness="sample", htus="all",
     bounded=["AsSample (collects the slices of an item's chunks; maps of owned chunks are outside the verifier's reach): random items read through a local sampler"])
prop("C21", tus=["sampler", "client"], contracts=["sampler"], functions=["Sampler::Options::Validate", "GetNumWorkers", "Sampler::should_stop_workers", "Sampler::PopNextSample", "Sampler::MaybeSampleNext", "Sampler::GetNextTimestep", "Sampler::GetNextSample", "Sampler::GetNextTrajectory", "Sampler::RunWorker", "Sampler::Close", "Sampler::Sampler", "GrpcSamplerWorker::FetchSamples", "LocalSamplerWorker::FetchSamples", "MakeLocalWorkers", "MakeGrpcWorkers", "Client::NewSampler"], harness="sampler", htus="all",
     bounded=["composition of the workers' and readers' proofs into whole histories (threads): samplers with up to 4 workers against a counting stand-in server and local tables"])
prop("C25", tus=["support/signature"], contracts=["signature"], functions=["internal::FlatSignatureFromStructuredValue", "internal::FlatSignatureFromTableInfo", "internal::ExtendContext"], harness="signature", htus=["support/signature", "chunk_store", "tensor_compression", "support/trajectory_util", "platform/default/snappy"], bounded=[])
prop("C19", tus=["writer", "support/trajectory_util", "tensor_compression"], contracts=["compression", "trajectory", "writer"], functions=["PositiveModulo", "Writer::CreateItem", "Writer::WritePendingData", "Writer::WriteWithRetries", "Writer::Finish", "Writer::Append", "Writer::Flush", "Writer::Close"],
     harness="writer", htus="all", bounded=["Writer::AppendSequence, GetFlatSignature, ConfirmItems and the confirmation worker, the constructor and destructor: histories of append, create, flush and close against a stand-in server whose streams fail at random points"])
TWT = dict(tus=["trajectory_writer", "chunker"], contracts=["compression", "cells", "trajectory_writer"], harness="trajectory_writer", htus="all")
prop("C17", functions=["MergeAdjacent", "TrajectoryColumn::LockReferences", "TrajectoryColumn::Validate", "TrajectoryColumn::ToProto", "TrajectoryWriter::CreateItem"],
     bounded=["TrajectoryWriter::Validate and FlatSignatureFromTrajectory (the item against the table's signature), Append and AppendPartial (the chunker's part is C15): random scenarios compared with the appended data"], **TWT)
prop("C18", **dict(TWT, contracts=["compression", "cells", "trajectory_writer", "trajectory_stream"],
     functions=["SendNotAlreadySentChunks", "ContainsAll", "ArenaOwnedRequest::Clear"] + [f"TrajectoryWriter::{f}" for f in ("TrajectoryWriter", "FlushLocked", "Flush", "EndEpisode", "Close", "GetNextPendingItem", "GetKeepKeys", "SendItem", "RunStreamWorker", "CreateItem")],
     bounded=["AllReady, the destructor and Append's wake-up of the worker, and that a worker which was signalled gets to run (liveness): random schedules of appends, items, flushes, stream failures and closes against an in-process server, compared with the items and chunks the server got"]))
RIN = "ReverbServiceAsyncImpl::InsertStream*WorkerlessInsertReactor::"
prop("C22", tus=["reverb_service_impl", "reverb_service_async_impl", "chunk_store"], contracts=["chunk_store", "service"], harness="service", htus="all",
     functions=["ReverbServiceImpl::InsertStreamInternal", "ReverbServiceImpl::TableByName", "ReverbServiceAsyncImpl::TableByName"] + [RIN + f for f in ("SaveChunks", "GetItemWithChunks", "ReleaseOutOfRangeChunks", "ProcessIncomingRequest")] + ["ReverbServerTableReactor::" + f for f in ("OnReadDone", "OnWriteDone", "OnCancel", "MaybeStartRead", "MaybeSendNextResponse", "SetReactorAsFinished", "ShouldFinish")],
     bounded=["the reactor's construction, its continuation after a full table queue, OnDone, and grpc itself: random request sequences through an in-process server of each kind, compared with the tables' contents and the confirmations received"])
NA = {}
