From 8b7195db74c459c7ee65eee309397a2d8cd3d0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:02 +0000
Subject: [PATCH 01/14] fix: let Queue::PopBatch take the remaining items after
 the last one was announced

---
 reverb/cc/support/queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reverb/cc/support/queue.h b/reverb/cc/support/queue.h
index 2858ed6..19c99f1 100644
--- a/reverb/cc/support/queue.h
+++ b/reverb/cc/support/queue.h
@@ -116,7 +116,7 @@ class Queue {
       return absl::CancelledError("Queue is closed.");
     }
 
-    if (last_item_pushed_) {
+    if (last_item_pushed_ && pushes_ - pops_ < batch_size) {
       return absl::ResourceExhaustedError(absl::StrCat(
           "The last item have been pushed to the queue and the current size (",
           pushes_ - pops_, ") is less than the batch size (", batch_size, ").")
-- 
2.43.0


From 546e286f547df35ca2528887ce9b78dd4f21fdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 02/14] fix: do not drop a live chunk's entry when cleaning up
 after an earlier chunk with its key

---
 reverb/cc/chunk_store.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reverb/cc/chunk_store.cc b/reverb/cc/chunk_store.cc
index 96f10cb..18560ab 100644
--- a/reverb/cc/chunk_store.cc
+++ b/reverb/cc/chunk_store.cc
@@ -123,7 +123,12 @@ bool ChunkStore::CleanupInternal(int num_chunks) {
 
   absl::WriterMutexLock data_lock(&mu_);
   for (const Key& key : popped_keys) {
-    data_.erase(key);
+    // A chunk with the same key may have been inserted since the chunk was
+    // destroyed. Its entry must be kept for as long as that chunk is alive.
+    auto it = data_.find(key);
+    if (it != data_.end() && it->second.expired()) {
+      data_.erase(it);
+    }
   }
 
   return true;
-- 
2.43.0


From e38f4b5ad8129a5e186c3e91b98983cee8946aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 03/14] fix: wait for the extension buffer only while the table
 is consistent

ExtensionOperation released mu_ in the middle of inserts, deletes and
samples. Other threads could then observe more than max_size items, hit
the episode reference CHECK in DeleteItem or invalidate iterators which
were used after the wait. The wait could also outlive the extension
worker when the table was destroyed.
---
 reverb/cc/table.cc | 17 +++++++++++++----
 reverb/cc/table.h  |  4 ++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/reverb/cc/table.cc b/reverb/cc/table.cc
index 89ccc23..8710d68 100644
--- a/reverb/cc/table.cc
+++ b/reverb/cc/table.cc
@@ -233,6 +233,7 @@ absl::Status Table::TableWorkerLoop() {
       int64_t prev_progress = progress - 1;
       while (prev_progress < progress) {
         prev_progress = progress;
+        AwaitExtensionBuffer();
         // Try processing an insert request.
         if (insert_idx < current_inserts.size() &&
             rate_limiter_->CanInsert(&mu_, 1)) {
@@ -615,9 +616,11 @@ absl::Status Table::MutateItems(absl::Span<const KeyWithPriority> updates,
   {
     absl::MutexLock lock(&mu_);
     for (int i = 0; i < deletes.size(); i++) {
+      AwaitExtensionBuffer();
       REVERB_RETURN_IF_ERROR(DeleteItem(deletes[i], &deleted_items[i]));
     }
     for (const auto& item : updates) {
+      AwaitExtensionBuffer();
       REVERB_RETURN_IF_ERROR(UpdateItem(item.key(), item.priority()));
     }
   }
@@ -893,10 +896,6 @@ void Table::ExtensionOperation(ExtensionRequest::CallType type,
     // otherwise no need to enqueue the operation.
     return;
   }
-  while (extension_requests_.size() >= max_enqueued_extension_ops_) {
-    // TODO(stanczyk): Track time spent waiting here.
-    extension_buffer_available_cv_.Wait(&mu_);
-  }
   ExtensionItem e_item(item);
   ExtensionRequest request{type, e_item};
   extension_requests_.push_back(request);
@@ -905,6 +904,15 @@ void Table::ExtensionOperation(ExtensionRequest::CallType type,
   }
 }
 
+void Table::AwaitExtensionBuffer() {
+  while (extension_worker_ &&
+         extension_requests_.size() >= max_enqueued_extension_ops_ &&
+         rate_limiter_->CheckIfCancelled(&mu_).ok()) {
+    // TODO(stanczyk): Track time spent waiting here.
+    extension_buffer_available_cv_.Wait(&mu_);
+  }
+}
+
 absl::Status Table::UpdateItem(Key key, double priority) {
   auto it = data_.find(key);
   if (it == data_.end()) {
@@ -998,6 +1006,7 @@ Table::CheckpointAndChunks Table::Checkpoint() {
 
 absl::Status Table::InsertCheckpointItem(Table::Item item) {
   absl::MutexLock lock(&mu_);
+  AwaitExtensionBuffer();
   REVERB_CHECK_LE(data_.size() + 1, max_size_)
       << "InsertCheckpointItem called on already full Table";
   REVERB_CHECK(!data_.contains(item.item.key()))
diff --git a/reverb/cc/table.h b/reverb/cc/table.h
index 4c27e75..7fcf3b0 100644
--- a/reverb/cc/table.h
+++ b/reverb/cc/table.h
@@ -419,6 +419,10 @@ class Table {
                           const std::shared_ptr<Item>& item)
       ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);
 
+  // Blocks while the buffer of the extension worker is full. `mu_` is released
+  // while waiting so the table must be in a consistent state when called.
+  void AwaitExtensionBuffer() ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);
+
   // Extensions worker execution loop. It is executed by a dedicated thread
   // and it performs enqueued extension operations. Operations are executed in
   // the order enqueued, but they run without holding table's lock.
-- 
2.43.0


From 660c234701473525af86c3183a11275e047e84a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 04/14] fix: wake every thread waiting for room in the
 extension buffer

---
 reverb/cc/table.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reverb/cc/table.cc b/reverb/cc/table.cc
index 8710d68..2cd120d 100644
--- a/reverb/cc/table.cc
+++ b/reverb/cc/table.cc
@@ -377,9 +377,9 @@ absl::Status Table::ExtensionsWorkerLoop() {
       }
       std::swap(extension_requests_, extension_requests);
       if (extension_requests.size() >= max_enqueued_extension_ops_) {
-        // Table worker may be blocked, let know there is place to add more
-        // extension requests now.
-        extension_buffer_available_cv_.Signal();
+        // Table worker and callers of MutateItems may be blocked, let all of them
+        // know there is place to add more extension requests now.
+        extension_buffer_available_cv_.SignalAll();
       }
     }
     {
-- 
2.43.0


From 98871caa2400ac120f7f964db2b291be9be1dd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 05/14] fix: keep the table and its selectors in agreement when
 a selector rejects an item

A rejected priority left the item in data_ (and possibly in the sampler)
but not in the other selectors, or changed its priority in only some of
them.
---
 reverb/cc/table.cc | 33 ++++++++++++++++++++++-----------
 reverb/cc/table.h  |  5 +++++
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/reverb/cc/table.cc b/reverb/cc/table.cc
index 2cd120d..b08d31a 100644
--- a/reverb/cc/table.cc
+++ b/reverb/cc/table.cc
@@ -514,11 +514,13 @@ absl::Status Table::InsertOrAssign(Item item, absl::Duration timeout) {
     // Set the insertion timestamp after the lock has been acquired as this
     // represents the order it was inserted into the sampler and remover.
     EncodeAsTimestampProto(absl::Now(), item.item.mutable_inserted_at());
+    if (auto status = InsertIntoSelectors(key, priority); !status.ok()) {
+      // The right to insert is not used so let another insert call proceed.
+      rate_limiter_->MaybeSignalCondVars(&mu_);
+      return status;
+    }
     data_[key] = std::make_shared<Item>(std::move(item));
 
-    REVERB_RETURN_IF_ERROR(sampler_->Insert(key, priority));
-    REVERB_RETURN_IF_ERROR(remover_->Insert(key, priority));
-
     auto it = data_.find(key);
     ExtensionOperation(ExtensionRequest::CallType::kInsert, it->second);
 
@@ -584,11 +586,9 @@ absl::Status Table::InsertOrAssignInternal(std::shared_ptr<Item> item) {
   // Set the insertion timestamp after the lock has been acquired as this
   // represents the order it was inserted into the sampler and remover.
   EncodeAsTimestampProto(absl::Now(), item->item.mutable_inserted_at());
+  REVERB_RETURN_IF_ERROR(InsertIntoSelectors(key, priority));
   data_[key] = std::move(item);
 
-  REVERB_RETURN_IF_ERROR(sampler_->Insert(key, priority));
-  REVERB_RETURN_IF_ERROR(remover_->Insert(key, priority));
-
   auto it = data_.find(key);
   ExtensionOperation(ExtensionRequest::CallType::kInsert, it->second);
 
@@ -913,14 +913,27 @@ void Table::AwaitExtensionBuffer() {
   }
 }
 
+absl::Status Table::InsertIntoSelectors(Key key, double priority) {
+  REVERB_RETURN_IF_ERROR(sampler_->Insert(key, priority));
+  if (auto status = remover_->Insert(key, priority); !status.ok()) {
+    REVERB_RETURN_IF_ERROR(sampler_->Delete(key));
+    return status;
+  }
+  return absl::OkStatus();
+}
+
 absl::Status Table::UpdateItem(Key key, double priority) {
   auto it = data_.find(key);
   if (it == data_.end()) {
     return absl::OkStatus();
   }
-  it->second->item.set_priority(priority);
   REVERB_RETURN_IF_ERROR(sampler_->Update(key, priority));
-  REVERB_RETURN_IF_ERROR(remover_->Update(key, priority));
+  if (auto status = remover_->Update(key, priority); !status.ok()) {
+    REVERB_RETURN_IF_ERROR(
+        sampler_->Update(key, it->second->item.priority()));
+    return status;
+  }
+  it->second->item.set_priority(priority);
   ExtensionOperation(ExtensionRequest::CallType::kUpdate, it->second);
 
   return absl::OkStatus();
@@ -1014,9 +1027,7 @@ absl::Status Table::InsertCheckpointItem(Table::Item item) {
       << item.item.key();
 
   REVERB_RETURN_IF_ERROR(
-      sampler_->Insert(item.item.key(), item.item.priority()));
-  REVERB_RETURN_IF_ERROR(
-      remover_->Insert(item.item.key(), item.item.priority()));
+      InsertIntoSelectors(item.item.key(), item.item.priority()));
 
   const auto key = item.item.key();
   auto it = data_.emplace(key, std::make_shared<Item>(std::move(item))).first;
diff --git a/reverb/cc/table.h b/reverb/cc/table.h
index 7fcf3b0..59a5352 100644
--- a/reverb/cc/table.h
+++ b/reverb/cc/table.h
@@ -383,6 +383,11 @@ class Table {
   // and performs enqueued table operations (inserts, mutations, sampling...).
   absl::Status TableWorkerLoop();
 
+  // Inserts the key into `sampler_` and `remover_`, or into neither of them if
+  // one rejects it.
+  absl::Status InsertIntoSelectors(Key key, double priority)
+      ABSL_EXCLUSIVE_LOCKS_REQUIRED(mu_);
+
   // Updates item priority in `data_`, `samper_`, `remover_` and calls
   // `OnUpdate` on all extensions.
   absl::Status UpdateItem(Key key, double priority)
-- 
2.43.0


From f3c141e3c127cdb94150781c2083325ba31321f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 06/14] fix: keep the table worker running when an item is
 rejected

---
 reverb/cc/table.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reverb/cc/table.cc b/reverb/cc/table.cc
index b08d31a..1ec9fbc 100644
--- a/reverb/cc/table.cc
+++ b/reverb/cc/table.cc
@@ -238,8 +238,9 @@ absl::Status Table::TableWorkerLoop() {
         if (insert_idx < current_inserts.size() &&
             rate_limiter_->CanInsert(&mu_, 1)) {
           rate_limiter_->CreateInstantInsertEvent(&mu_);
-          REVERB_RETURN_IF_ERROR(
-              InsertOrAssignInternal(current_inserts[insert_idx++]));
+          auto status = InsertOrAssignInternal(current_inserts[insert_idx++]);
+          REVERB_LOG_IF(REVERB_ERROR, !status.ok())
+              << "Failed to insert item into table " << name_ << ": " << status;
           progress++;
         }
         // Skip sampling requests which timed out already.
-- 
2.43.0


From 753bf0b00c327788ca16f25ae6f13b4bdb4bd466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 07/14] fix: do not delta encode a tensor without rows

---
 reverb/cc/tensor_compression.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reverb/cc/tensor_compression.cc b/reverb/cc/tensor_compression.cc
index 169a5eb..f30a616 100644
--- a/reverb/cc/tensor_compression.cc
+++ b/reverb/cc/tensor_compression.cc
@@ -55,7 +55,7 @@ tensorflow::Tensor DeltaEncode(const tensorflow::Tensor& tensor, bool encode) {
 }  // namespace
 
 tensorflow::Tensor DeltaEncode(const tensorflow::Tensor& tensor, bool encode) {
-  if (tensor.dims() < 2) return tensor;
+  if (tensor.dims() < 2 || tensor.dim_size(0) == 0) return tensor;
 
   switch (tensor.dtype()) {
 #define DELTA_ENCODE(T)                      \
-- 
2.43.0


From 03630e9f93f267f37465e2eb28cf80485fa6bbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:27 +0000
Subject: [PATCH 08/14] fix: keep delta encoding when chunking options are
 copied

---
 reverb/cc/chunker.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reverb/cc/chunker.cc b/reverb/cc/chunker.cc
index e1b15ed..07ad803 100644
--- a/reverb/cc/chunker.cc
+++ b/reverb/cc/chunker.cc
@@ -382,8 +382,8 @@ void ConstantChunkerOptions::OnItemFinalized(
     absl::Span<const std::shared_ptr<CellRef>> refs) {}
 
 std::shared_ptr<ChunkerOptions> ConstantChunkerOptions::Clone() const {
-  return std::make_shared<ConstantChunkerOptions>(max_chunk_length_,
-                                                  num_keep_alive_refs_);
+  return std::make_shared<ConstantChunkerOptions>(
+      max_chunk_length_, num_keep_alive_refs_, delta_encode_);
 }
 
 AutoTunedChunkerOptions::AutoTunedChunkerOptions(int num_keep_alive_refs,
@@ -536,8 +536,8 @@ void AutoTunedChunkerOptions::PushChunks(
 }
 
 std::shared_ptr<ChunkerOptions> AutoTunedChunkerOptions::Clone() const {
-  return std::make_shared<AutoTunedChunkerOptions>(num_keep_alive_refs_,
-                                                   throughput_weight_);
+  return std::make_shared<AutoTunedChunkerOptions>(
+      num_keep_alive_refs_, throughput_weight_, delta_encode_);
 }
 
 }  // namespace reverb
-- 
2.43.0


From efe607d3477f19f3ea0b6ee5fee7157f89833dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 09/14] fix: refuse chunk slices with a negative or overflowing
 length

---
 reverb/cc/support/trajectory_util.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reverb/cc/support/trajectory_util.cc b/reverb/cc/support/trajectory_util.cc
index 704c697..a76a2d1 100644
--- a/reverb/cc/support/trajectory_util.cc
+++ b/reverb/cc/support/trajectory_util.cc
@@ -163,9 +163,10 @@ absl::Status UnpackChunkColumnAndSlice(const ChunkData& chunk_data, int column,
                                        tensorflow::Tensor* out) {
   REVERB_RETURN_IF_ERROR(UnpackChunkColumn(chunk_data, column, out));
 
-  if (offset < 0 || offset + length > out->shape().dim_size(0)) {
+  if (out->dims() < 1 || offset < 0 || length < 0 ||
+      offset > out->shape().dim_size(0) - length) {
     return absl::InvalidArgumentError(absl::StrCat(
-        "Cannot slice (", offset, ", ", offset + length,
+        "Cannot slice (", offset, ", ", static_cast<int64_t>(offset) + length,
         ") out of tensor with shape ", out->shape().DebugString(), "."));
   }
 
-- 
2.43.0


From 720e7be7ccb6de9f7e063f30c4376d558ffdaea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 10/14] fix: keep reading samples by step when columns are
 split differently

---
 reverb/cc/sampler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reverb/cc/sampler.cc b/reverb/cc/sampler.cc
index 0109576..e1a6dce 100644
--- a/reverb/cc/sampler.cc
+++ b/reverb/cc/sampler.cc
@@ -779,7 +779,7 @@ bool Sample::is_composed_of_timesteps() const {
       // Note that we can safely assume that the tensor is not a scalar since a
       // batch dimension is always added when building a chunk. A scalar would
       // thus be represented as a tensor of shape [1].
-      column_length += column_slice.tensor.dim_size(0);
+      column_length += column_slice.tensor.dim_size(0) - column_slice.offset;
     }
 
     if (prev_column_length != -1 && prev_column_length != column_length) {
-- 
2.43.0


From 6985fb99f105318528e2c2be0285275b2db59c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 11/14] fix: count the steps a writer's chunks really hold in
 CreateItem

Flush can close a chunk before it is full, so chunks_.size() * chunk_length_
overstates what is available and an item could start at a negative offset.
---
 reverb/cc/writer.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/reverb/cc/writer.cc b/reverb/cc/writer.cc
index a61580c..ff9af29 100644
--- a/reverb/cc/writer.cc
+++ b/reverb/cc/writer.cc
@@ -156,7 +156,16 @@ absl::Status Writer::CreateItem(const std::string& table, int num_timesteps,
     return absl::FailedPreconditionError(
         "Calling method CreateItem after Close has been called");
   }
-  if (num_timesteps > chunks_.size() * chunk_length_ + buffer_.size()) {
+  // Chunks can hold fewer than `chunk_length_` steps if they were flushed early.
+  int64_t num_available = buffer_.size();
+  for (const auto& chunk : chunks_) {
+    const auto& range = chunk.sequence_range();
+    num_available += range.end() - range.start() + 1;
+  }
+  if (num_timesteps < 1) {
+    return absl::InvalidArgumentError("`num_timesteps` must be >= 1");
+  }
+  if (num_timesteps > num_available) {
     return absl::InvalidArgumentError(
         "Argument `num_timesteps` is larger than number of buffered "
         "timesteps.");
-- 
2.43.0


From dccc7342b5130accaa41ecbcd74b3f0219f41153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 12/14] fix: only merge references to consecutive rows into one
 chunk slice

MergeAdjacent extended the last slice whenever the next reference was in the
same chunk, so trajectories with gaps, repeats or rows in another order
referred to other rows than the ones given (or to rows that do not exist).
---
 reverb/cc/trajectory_writer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reverb/cc/trajectory_writer.cc b/reverb/cc/trajectory_writer.cc
index d60bf52..b85e088 100644
--- a/reverb/cc/trajectory_writer.cc
+++ b/reverb/cc/trajectory_writer.cc
@@ -52,7 +52,8 @@ std::vector<FlatTrajectory::ChunkSlice> MergeAdjacent(
     std::shared_ptr<CellRef> ref_sp = ref.lock();
     REVERB_CHECK(ref_sp);
 
-    if (slices.empty() || slices.back().chunk_key() != ref_sp->chunk_key()) {
+    if (slices.empty() || slices.back().chunk_key() != ref_sp->chunk_key() ||
+        slices.back().offset() + slices.back().length() != ref_sp->offset()) {
       FlatTrajectory::ChunkSlice slice;
       slice.set_chunk_key(ref_sp->chunk_key());
       slice.set_offset(ref_sp->offset());
-- 
2.43.0


From 26d483064d41c407e0d6e1ee7d3eaa443c2831bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 13/14] fix: reject trajectories with an empty column

TrajectoryColumn::Validate read the first reference of a column that has none
when only some of the columns of a trajectory were empty.
---
 reverb/cc/trajectory_writer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reverb/cc/trajectory_writer.cc b/reverb/cc/trajectory_writer.cc
index b85e088..c0282e5 100644
--- a/reverb/cc/trajectory_writer.cc
+++ b/reverb/cc/trajectory_writer.cc
@@ -678,6 +678,10 @@ absl::Status TrajectoryColumn::Validate() const {
                      locked_refs.size(), "."));
   }
 
+  if (locked_refs.empty()) {
+    return absl::InvalidArgumentError("Column must not be empty.");
+  }
+
   // Check that the column only contains compatible data references.
   const internal::TensorSpec& col_spec =
       locked_refs[0]->chunker().lock()->spec();
-- 
2.43.0


From f8d6fa3dfe07d0a75ec02eeac485eb8907add099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 14/14] fix: do not wait for chunks in a trajectory writer that
 was closed

Close signals data_cv_ once. If that happened after the worker had picked its
next item but before it started to wait for the item's chunks, then the worker
slept forever and Close never returned.
---
 reverb/cc/trajectory_writer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reverb/cc/trajectory_writer.cc b/reverb/cc/trajectory_writer.cc
index c0282e5..06c397a 100644
--- a/reverb/cc/trajectory_writer.cc
+++ b/reverb/cc/trajectory_writer.cc
@@ -514,8 +514,9 @@ absl::Status TrajectoryWriter::RunStreamWorker() {
         // Do a final check that the chunks didn't change since the lock was
         // last held. If the item still references incomplete chunks then we
         // sleep until the chunks changed. If all the chunks are now completed
-        // then we move straight to the top of the loop.
-        if (!AllReady(item_and_refs.refs)) {
+        // then we move straight to the top of the loop. The same goes for a
+        // writer that was closed since then as nobody would wake us up.
+        if (!closed_ && !AllReady(item_and_refs.refs)) {
           data_cv_.Wait(&mu_);
         }
         continue;
-- 
2.43.0

