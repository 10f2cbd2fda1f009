From 427d3528faa94df3b2b281bbd823f11f088e3d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:37 +0000
Subject: [PATCH 01/52] fix: HashTable::Insert grows before a probe sequence
 can run out of buckets

---
 src/hashtable.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hashtable.h b/src/hashtable.h
index 61e5169..48b83b2 100644
--- a/src/hashtable.h
+++ b/src/hashtable.h
@@ -54,8 +54,9 @@ class HashTable {
 
   // Insert or update an element in the hash table
   void Insert(K key, V value) {
-    double size = size_;
-    if (size / bucket_size_ > kLoadFactor) {
+    // Probing by +-i^2 is only guaranteed to reach (bucket_size_ - 1) / 2
+    // buckets, at least one of them should be empty after inserting
+    while (size_ + 2 >= bucket_size_ * kLoadFactor) {
       ExtendBuckets();
     }
 
-- 
2.43.0


From 2f6d7f733095387a3b02c3e1c530ee67ca4738bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:47 +0000
Subject: [PATCH 02/52] fix: GCPool::GC visits the most recently allocated node
 of the pool

---
 src/pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pool.h b/src/pool.h
index 0fc9198..7441fd8 100644
--- a/src/pool.h
+++ b/src/pool.h
@@ -184,7 +184,7 @@ class GCPool : public Pool<T, BLOCK_SIZE> {
     // Unmark all elements
     for (int block = 0; block <= this->current_block_; ++block) {
       int max_pos = block == this->current_block_ ?
-          this->current_pos_ - 1 :
+          this->current_pos_ :
           BLOCK_SIZE;
       for (int pos = 0; pos < max_pos; ++pos) {
         // Bypass the nodes already freed
@@ -217,7 +217,7 @@ class GCPool : public Pool<T, BLOCK_SIZE> {
     int free_count = 0;
     for (int block = 0; block <= this->current_block_; ++block) {
       int max_pos = block == this->current_block_ ?
-          this->current_pos_ - 1 :
+          this->current_pos_ :
           BLOCK_SIZE;
       for (int pos = 0; pos < max_pos; ++pos) {
         // Bypass the nodes already freed
-- 
2.43.0


From dfb994114b54a01e6ab3eea5b550dbe640412cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 03/52] fix: Pool::Clear destroys only nodes constructed since
 the last Clear

---
 src/pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pool.h b/src/pool.h
index 7441fd8..cd00f05 100644
--- a/src/pool.h
+++ b/src/pool.h
@@ -75,7 +75,7 @@ class Pool {
     }
 
     if (!std::is_trivially_destructible<T>::value) {
-      for (int block_idx = 0; block_idx < blocks_.size() - 1; ++block_idx) {
+      for (int block_idx = 0; block_idx < current_block_; ++block_idx) {
         T *block = blocks_[block_idx];
         for (int idx = 0; idx < BLOCK_SIZE; ++idx) {
           if (freed.find(block + idx) == freed.end()) {
@@ -85,7 +85,7 @@ class Pool {
       }
 
       // The last block
-      T *last_block = blocks_.back();
+      T *last_block = blocks_[current_block_];
       for (int idx = 0; idx < current_pos_; ++idx) {
         if (freed.find(last_block + idx) == freed.end()) {
           last_block[idx].~T();
-- 
2.43.0


From c556008f2b84aa130d848905de6a676cab3e4563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:47 +0000
Subject: [PATCH 04/52] fix: Decoder returns pruned and replaced tokens to the
 pool

---
 src/decoder.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index c1c7c43..4c5296e 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -170,6 +170,7 @@ bool Decoder::InsertTok(
     // If the cost of existing token is less than the new one, just discard
     // inserting and return false
     if (toks_[tok_idx]->cost() > cost) {
+      toks_pool_.Dealloc(toks_[tok_idx]);
       toks_[tok_idx] = toks_pool_.Alloc(next_state, cost, next_olabel);
     } else {
       return false;
@@ -339,7 +340,10 @@ float Decoder::ProcessEmitting(const VectorBase<float> &frame_logp) {
 
     // weight_cutoff is computed according to beam size
     // So there are only top beam_size toks less than weight_cutoff
-    if (from_tok->cost() > weight_cutoff) continue;
+    if (from_tok->cost() > weight_cutoff) {
+      toks_pool_.Dealloc(from_tok);
+      continue;
+    }
 
     for (fst::ArcIterator<fst::Fst<fst::StdArc>> arc_iter(*fst_, state.hclg_state());
          !arc_iter.Done();
-- 
2.43.0


From e7f9d6feee9372a060f430a4cbdb564c091d2097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:53 +0000
Subject: [PATCH 05/52] fix: Decoder::Process ignores frames after the search
 has died

---
 src/decoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoder.cc b/src/decoder.cc
index 4c5296e..fddec29 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -70,6 +70,9 @@ Decoder::~Decoder() {
 bool Decoder::Process(const VectorBase<float> &frame_logp) {
   PK_DEBUG(util::Format("frame: {}", num_frames_decoded_));
 
+  // Exit when all tokens died in previous frames
+  if (toks_.empty()) return false;
+
   double cutoff = ProcessEmitting(frame_logp);
   if (!std::isfinite(cutoff)) return false;
   
-- 
2.43.0


From 68c9e54f1d384aee07410468dc18902d86ed21c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:01 +0000
Subject: [PATCH 06/52] fix: Decoder::BestPath counts the final weight once,
 and only at the end of stream

---
 src/decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index fddec29..3a0fb70 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -431,8 +431,8 @@ Decoder::Hypothesis Decoder::BestPath() {
     assert(words.size() < 100000);
   }
 
+  // Final weights are already included when the stream is ended
   weight = best_cost;
-  weight += fst_->Final(best_tok->state().hclg_state()).Value();
 
   return Hypothesis(words, weight);
 }
-- 
2.43.0


From ba21a468084153a6381c9cfe319e4068d19126a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 07/52] fix: update loglikelihood_per_frame for an empty
 hypothesis too

---
 src/ce_stt.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 0cf0ff1..3bc84fe 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -180,12 +180,15 @@ void StoreHypText(ce_utt_t *utt) {
 
     // pasco_strlcpy will fill the last space as '\0' automatically
     pasco_strlcpy(utt->hyp, text.data(), text.size());
-    utt->loglikelihood_per_frame = hyp.weight() / decoder->NumFramesDecoded();
   } else {
     delete[] utt->hyp;
     utt->hyp = new char[1];
     *(utt->hyp) = '\0';
   }
+
+  int num_frames = decoder->NumFramesDecoded();
+  utt->loglikelihood_per_frame =
+      num_frames > 0 ? hyp.weight() / num_frames : 0.0f;
 }
 
 }  // namespace
-- 
2.43.0


From 4983ef04d559fd6115eba9876922a6293fb7e6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 08/52] fix: ce_stt_destroy releases the recognizer itself

---
 src/ce_stt.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 3bc84fe..af2a4c6 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -254,6 +254,8 @@ void ce_stt_destroy(ce_stt_t *recognizer) {
 
   delete recognizer->fbank;
   recognizer->fbank = NULL;
+
+  delete recognizer;
 }
 
 ce_utt_t *ce_utt_init(ce_stt_t *recognizer, const ce_wave_format_t *format) {
-- 
2.43.0


From fddd1498d1988e0c93e2420c7910c1c8b4314dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 09/52] fix: ce_stt_end_of_stream checks its parameter before
 using it

---
 src/ce_stt.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index af2a4c6..7228a23 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -346,11 +346,10 @@ pasco_process_failed:
 
 void ce_stt_end_of_stream(ce_utt_t *c_utt) {
   PK_DEBUG("pasco_end_of_stream()");
-  ce_utt_internal_t *utt = c_utt->internal;
-
   if (CE_STT_FAILED == CheckParamUtt(c_utt)) {
     return;
   }
+  ce_utt_internal_t *utt = c_utt->internal;
   const ce_stt_t *recognizer = c_utt->internal->recognizer;
 
   // Process remained frames in AM
-- 
2.43.0


From cd3714486c2d2d5686dc5e6beba676eef80da13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 10/52] fix: Fbank::Process accepts an empty wave

---
 src/fbank.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fbank.cc b/src/fbank.cc
index 578b20e..e601635 100644
--- a/src/fbank.cc
+++ b/src/fbank.cc
@@ -268,7 +268,7 @@ void Fbank::Process(
     Matrix<float> *fbank_feature) const {
   // Do nothing when wave is empty
   if (wave.Dim() == 0) {
-    fbank_feature->Resize(0, PK_FBANK_DIM);
+    fbank_feature->Resize(0, 0);
     return;
   }
 
-- 
2.43.0


From aeb2660907ca5c8cf1cf01198bfc542090071b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 11/52] fix: ReadLine reports a clean end-of-file after a last
 line without newline

---
 src/util.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util.cc b/src/util.cc
index 34eaf8f..36a1ff1 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -108,6 +108,10 @@ bool ReadableFile::ReadLine(std::string *line, Status *status) {
     }
   }
 
+  // The last line may not end with '\n', fgets() already reached EOF then.
+  // Clears it to make the next call report the first time that reached EOF
+  if (feof(fd_)) clearerr(fd_);
+
   // Trim the tailing '\r' or '\n'
   *line = s;
   while (line->empty() == false &&
-- 
2.43.0


From 5b961e0299731c7fe3c4429af815b8354468c361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 12/52] fix: Matrix::Read reports corrupted shapes and
 unreadable rows

---
 src/matrix.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/matrix.cc b/src/matrix.cc
index 6653dae..85fa40b 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -169,13 +169,21 @@ Status Matrix<Real>::Read(util::ReadableFile *fd) {
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_rows));
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_cols));
 
+  if (num_rows < 0 || num_cols < 0 || (num_rows == 0) != (num_cols == 0)) {
+    return Status::Corruption(util::Format(
+        "Matrix::Read: unexpected shape {} x {}: {}",
+        num_rows,
+        num_cols,
+        fd->filename()));
+  }
+
   // Resize the matrix according to the new size
   Resize(num_rows, num_cols, kUndefined);
 
   Vector<Real> row_read;
   for (int row_idx = 0; row_idx < this->NumRows(); ++row_idx) {
     SubVector<Real> row = this->Row(row_idx);
-    row_read.Read(fd);
+    PK_CHECK_STATUS(row_read.Read(fd));
     if (row_read.Dim() != this->NumCols()) {
       return Status::Corruption(util::Format(
           "Matrix::Read: row_read.Dim() == {} expected, but {} found: {}",
-- 
2.43.0


From b8b7209afc6fab8cc9f0faf2b0223843b13ce6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:19 +0000
Subject: [PATCH 13/52] fix: Vector::Read reports a negative dimension as
 corruption

---
 src/vector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.cc b/src/vector.cc
index b2584a0..47eaaef 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -282,7 +282,7 @@ Status Vector<Real>::Read(util::ReadableFile *fd) {
   int32_t dim;
   status = fd->ReadValue<int32_t>(&dim);
   if (!status.ok()) return status;
-  if (dim * sizeof(Real) + 4 != section_size) {
+  if (dim < 0 || dim * sizeof(Real) + 4 != section_size) {
     return Status::Corruption(util::Format(
         "section_size = {} * {} + 4 expected, but {} found: {}",
         dim,
-- 
2.43.0


From 840eb4223b29c0932ba0eae4b7826e3026114836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 14/52] fix: Fst::Read reports negative state or arc counts as
 corruption

---
 src/fst.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fst.cc b/src/fst.cc
index 232b7dd..66de6ba 100644
--- a/src/fst.cc
+++ b/src/fst.cc
@@ -73,6 +73,9 @@ Status Fst::Read(util::ReadableFile *fd) {
   if (!status.ok()) return status;  
   status = fd->ReadValue<int32_t>(&start_state);
   if (!status.ok()) return status;  
+  if (state_number < 0 || arc_number < 0) {
+    return Status::Corruption(fd->filename());
+  }
   start_state_ = start_state;
 
   // Check section size
-- 
2.43.0


From d68f4999d6451d1b5eddb1a97bb761d8c2ee7e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 15/52] fix: reading an empty block from a file is not an I/O
 error

---
 src/util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 36a1ff1..c407b57 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -122,7 +122,7 @@ bool ReadableFile::ReadLine(std::string *line, Status *status) {
 }
 
 Status ReadableFile::Read(void *ptr, int size) {
-  if (1 != fread(ptr, size, 1, fd_)) {
+  if (size != 0 && 1 != fread(ptr, size, 1, fd_)) {
     return Status::IOError(util::Format("failed to read: {}", filename_));
   } else {
     return Status::OK();
-- 
2.43.0


From 8f989835dd0ff87abee9416c663f7eea463fa8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:33 +0000
Subject: [PATCH 16/52] fix: SymbolTable::Read reports out-of-range ids as
 corruption

---
 src/symbol_table.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/symbol_table.cc b/src/symbol_table.cc
index 7282be3..bed6c66 100644
--- a/src/symbol_table.cc
+++ b/src/symbol_table.cc
@@ -3,6 +3,7 @@
 #include "symbol_table.h"
 
 #include <assert.h>
+#include <stdint.h>
 #include <stdlib.h>
 #include "util.h"
 
@@ -32,7 +33,12 @@ Status SymbolTable::Read(const std::string &filename) {
     std::string word = fields[0];
     long word_id = 0;
     PK_CHECK_STATUS(util::StringToLong(fields[1], &word_id));
-    
+    if (word_id < 0 || word_id >= INT32_MAX) {
+      return Status::Corruption(util::Format(
+          "symbol_table: unexpected id: {}",
+          line));
+    }
+
     word_ids_[word] = word_id;
     if (word_id >= words_.size()) words_.resize(word_id + 1);
     words_[word_id] = word;
-- 
2.43.0


From 48c0ae8a306496e4a2366008d9a930ec515601b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:08 +0000
Subject: [PATCH 17/52] fix: Configuration::GetInteger reports a value which is
 not an integer

---
 src/configuration.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/configuration.h b/src/configuration.h
index d4cc76a..a5ac69d 100644
--- a/src/configuration.h
+++ b/src/configuration.h
@@ -3,6 +3,7 @@
 #ifndef POCKETKALDI_CONFIGURATION_H_
 #define POCKETKALDI_CONFIGURATION_H_
 
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <limits.h>
@@ -45,7 +46,15 @@ class Configuration {
     return Status::OK();
   }
   Status GetInteger(const std::string &key, int *val) const {
-    int int_val = GetIntegerOrElse(key, INT_MIN);
+    int int_val = INT_MIN;
+    try {
+      int_val = GetIntegerOrElse(key, INT_MIN);
+    } catch (const std::logic_error &) {
+      return Status::Corruption(util::Format(
+          "Value of key '{}' is not an integer in '{}'",
+          key,
+          filename()));
+    }
     if (int_val == INT_MIN) return KeyNotFound(key);
     *val = int_val;
     return Status::OK();
-- 
2.43.0


From ae2b78625c33dfef77a95abb5150254882ae7311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 18/52] fix: AcousticModel::Read reports invalid priors as
 corruption

---
 src/am.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/am.cc b/src/am.cc
index f2e4bfa..bb87452 100644
--- a/src/am.cc
+++ b/src/am.cc
@@ -41,6 +41,14 @@ Status AcousticModel::Read(const Configuration &conf) {
   PK_CHECK_STATUS(conf.GetPath("prior", &prior_filename));
   PK_CHECK_STATUS(fd.Open(prior_filename));
   PK_CHECK_STATUS(log_prior_.Read(&fd));
+  for (int i = 0; i < log_prior_.Dim(); ++i) {
+    if (!(log_prior_(i) >= 0.0f)) {
+      return Status::Corruption(util::Format(
+          "unexpected prior {}: {}",
+          log_prior_(i),
+          prior_filename));
+    }
+  }
   log_prior_.ApplyLog();
   fd.Close();
 
-- 
2.43.0


From 459a77d20c9c400fa0c259968616978b70ddd8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 19/52] fix: move assignment of Vector releases the old data

---
 src/vector.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vector.cc b/src/vector.cc
index 47eaaef..d4ebef8 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -19,6 +19,9 @@ Vector<Real>::Vector(Vector<Real> &&v) {
 
 template<typename Real>
 Vector<Real> &Vector<Real>::operator=(Vector<Real> &&v) {
+  if (this == &v) return *this;
+
+  Destroy();
   this->dim_ = v.dim_;
   this->data_ = v.data_;
 
-- 
2.43.0


From 26558b2a195339bf6ee820163e519a0920d413a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:24 +0000
Subject: [PATCH 20/52] fix: softmax and log-softmax stay finite for large
 activations

---
 src/vector.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vector.cc b/src/vector.cc
index d4ebef8..e7887b0 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -4,6 +4,7 @@
 #include <math.h>
 #include <stdlib.h>
 #include <string.h>
+#include <algorithm>
 #include "util.h"
 
 namespace pocketkaldi {
@@ -97,9 +98,10 @@ Real VectorBase<Real>::VecVec(const VectorBase<Real> &r) const {
 template<typename Real>
 void VectorBase<Real>::ApplySoftMax() {
   Real sum = 0;
+  Real max = Dim() > 0 ? *std::max_element(data_, data_ + dim_) : 0;
 
   for (int i = 0; i < Dim(); ++i) {
-    Real exp_d = expf((*this)(i));
+    Real exp_d = expf((*this)(i) - max);
     (*this)(i) = exp_d;
     sum += exp_d;
   }
@@ -112,12 +114,13 @@ void VectorBase<Real>::ApplySoftMax() {
 template<typename Real>
 void VectorBase<Real>::ApplyLogSoftMax() {
   Real sum = 0;
+  Real max = Dim() > 0 ? *std::max_element(data_, data_ + dim_) : 0;
 
   for (int i = 0; i < Dim(); ++i) {
-    Real exp_d = exp((*this)(i));
+    Real exp_d = exp((*this)(i) - max);
     sum += exp_d;
   }
-  Real logsum = log(sum);
+  Real logsum = max + log(sum);
   
   for (int i = 0; i < Dim(); ++i) {
     (*this)(i) -= logsum;
-- 
2.43.0


From 5e91f534fd971bf30e5cc89cef564df95fe34276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:28 +0000
Subject: [PATCH 21/52] fix: NormalizeLayer keeps an all-zero row instead of
 producing NaN

---
 src/nnet.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nnet.cc b/src/nnet.cc
index 60609fb..458293d 100644
--- a/src/nnet.cc
+++ b/src/nnet.cc
@@ -169,6 +169,8 @@ void NormalizeLayer::Propagate(
     SubVector<float> row = out->Row(row_idx);
 
     double squared_sum = row.VecVec(row);
+    if (squared_sum == 0.0) continue;
+
     float scale = static_cast<float>(sqrt(D / squared_sum));
     row.Scale(scale);
   }
-- 
2.43.0


From c347279885abf24c1d6d369ab08c3af7ebf6dc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 22/52] fix: no integer overflow when checking the byte rate of
 a wave header

---
 src/pcm_reader.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pcm_reader.cc b/src/pcm_reader.cc
index 0c020dc..8fee94a 100644
--- a/src/pcm_reader.cc
+++ b/src/pcm_reader.cc
@@ -84,10 +84,12 @@ Status ReadPcmHeader(util::ReadableFile *fd, ce_wave_format_t *wave_fmt) {
   PK_CHECK_STATUS(fd->ReadValue(&block_align));
   PK_CHECK_STATUS(fd->ReadValue(&bits_per_sample));
 
-  if (bytes_rate != sample_rate * bits_per_sample / 8) {
+  int64_t expected_bytes_rate =
+      static_cast<int64_t>(sample_rate) * bits_per_sample / 8;
+  if (bytes_rate != expected_bytes_rate) {
     return Status::Corruption(util::Format(
         "bytes_rate == {} expected, but {} found: {}",
-        sample_rate * bits_per_sample / 8,
+        expected_bytes_rate,
         bytes_rate,
         fd->filename()));
   }
-- 
2.43.0


From bd4cdad2283e9d30014c8458822a84b5a479dbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 23/52] fix: quantize a matrix of equal elements without
 dividing by zero

---
 src/matrix.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matrix.cc b/src/matrix.cc
index 85fa40b..8b84c77 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -361,6 +361,9 @@ void ComputeQuantizationParams(const MatrixBase<float> &src,
 
   double scale = (max - min) / 255.0;
 
+  // All elements in src are the same positive number
+  if (scale == 0.0) scale = max;
+
   // Find zero-point
   double f_zero_point = -min / scale;
   int32_t zero_point = static_cast<int32_t>(round(f_zero_point));
-- 
2.43.0


From 3b4162703988b2dee2be29a7a20556f27a67d983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:58 +0000
Subject: [PATCH 24/52] fix: StringToLong reports an empty string instead of
 reading it as 0

---
 src/util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index c407b57..cce0fcc 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -52,7 +52,7 @@ Status StringToLong(const std::string &str, long *val) {
   std::string trim_str = Trim(str);
   char *end = nullptr;
   *val = strtol(trim_str.c_str(), &end, 0);
-  if (*end != '\0') {
+  if (*end != '\0' || end == trim_str.c_str()) {
     return Status::Corruption(Format("unexpected number string: {}", trim_str));
   }
   
-- 
2.43.0


From 46790deff1bfc3b5c9977b558ca1b21c7b376d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:06 +0000
Subject: [PATCH 25/52] fix: Configuration::GetInteger does not accept a number
 followed by other text

---
 src/configuration.h | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/configuration.h b/src/configuration.h
index a5ac69d..4a21186 100644
--- a/src/configuration.h
+++ b/src/configuration.h
@@ -46,18 +46,23 @@ class Configuration {
     return Status::OK();
   }
   Status GetInteger(const std::string &key, int *val) const {
-    int int_val = INT_MIN;
+    std::string str;
+    Status status = GetString(key, &str);
+    if (!status.ok()) return status;
     try {
-      int_val = GetIntegerOrElse(key, INT_MIN);
+      size_t parsed = 0;
+      int int_val = std::stoi(str, &parsed);
+      if (parsed == str.size()) {
+        *val = int_val;
+        return Status::OK();
+      }
     } catch (const std::logic_error &) {
-      return Status::Corruption(util::Format(
-          "Value of key '{}' is not an integer in '{}'",
-          key,
-          filename()));
+      // Fall through
     }
-    if (int_val == INT_MIN) return KeyNotFound(key);
-    *val = int_val;
-    return Status::OK();
+    return Status::Corruption(util::Format(
+        "Value of key '{}' is not an integer in '{}'",
+        key,
+        filename()));
   }
 
   // Get filename
-- 
2.43.0


From 779959c1b864a636fff6e2f1b81e28121d0dda99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:11 +0000
Subject: [PATCH 26/52] fix: Nnet::Read reports a negative number of layers as
 corruption

---
 src/nnet.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nnet.cc b/src/nnet.cc
index 458293d..552fced 100644
--- a/src/nnet.cc
+++ b/src/nnet.cc
@@ -285,6 +285,12 @@ Status Nnet::Read(util::ReadableFile *fd) {
 
   int32_t num_layers;
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_layers));
+  if (num_layers < 0) {
+    return Status::Corruption(util::Format(
+        "Nnet: unexpected num_layers {}: {}",
+        num_layers,
+        fd->filename()));
+  }
 
   // Read each layers
   for (int layer_idx = 0; layer_idx < num_layers; ++layer_idx) {
-- 
2.43.0


From 9a3f30edd32d72f9214f70bc01185d014dbe9688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:33 +0000
Subject: [PATCH 27/52] fix: ConstFst::Read rejects negative numbers of states
 or arcs

---
 src/openfst/include/fst/const-fst.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/openfst/include/fst/const-fst.h b/src/openfst/include/fst/const-fst.h
index 09c81c7..db1bc17 100644
--- a/src/openfst/include/fst/const-fst.h
+++ b/src/openfst/include/fst/const-fst.h
@@ -196,6 +196,11 @@ ConstFstImpl<Arc, Unsigned> *ConstFstImpl<Arc, Unsigned>::Read(
       new ConstFstImpl<Arc, Unsigned>());
   FstHeader hdr;
   if (!impl->ReadHeader(strm, opts, kMinFileVersion, &hdr)) return nullptr;
+  if (hdr.NumStates() < 0 || hdr.NumArcs() < 0) {
+    LOG(ERROR) << "ConstFst::Read: Negative number of states or arcs: "
+               << opts.source;
+    return nullptr;
+  }
   impl->start_ = hdr.Start();
   impl->nstates_ = hdr.NumStates();
   impl->narcs_ = hdr.NumArcs();
-- 
2.43.0


From bf7bb6c9a65e5ac7dbfaa00bf7ca5692d7a57caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:35 +0000
Subject: [PATCH 28/52] fix: reading a string stops at the end of the file

---
 src/openfst/include/fst/util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openfst/include/fst/util.h b/src/openfst/include/fst/util.h
index a89b8c1..e914531 100644
--- a/src/openfst/include/fst/util.h
+++ b/src/openfst/include/fst/util.h
@@ -62,7 +62,7 @@ inline std::istream &ReadType(std::istream &strm, string *s) {  // NOLINT
   strm.read(reinterpret_cast<char *>(&ns), sizeof(ns));
   for (int32 i = 0; i < ns; ++i) {
     char c;
-    strm.read(&c, 1);
+    if (!strm.read(&c, 1)) break;
     *s += c;
   }
   return strm;
-- 
2.43.0


From fcc02f82b8832674b8e580dcc10995ca48e4c315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:39 +0000
Subject: [PATCH 29/52] fix: convert_am.py accepts node names containing '-' in
 Append and Offset

---
 tool/convert_am.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tool/convert_am.py b/tool/convert_am.py
index c66f2ee..1c1e10a 100644
--- a/tool/convert_am.py
+++ b/tool/convert_am.py
@@ -233,8 +233,8 @@ def compute_batch_norm(mean, var, eps, target_rms):
 
 re_component = re.compile(r'^component-node name=(.*?) component=(.*?) input=(.*?)$')
 re_input = re.compile(r'^Append\((.*)\)$')
-re_split = re.compile(r'(Offset\([\w\.]+, *-?\d+\)|[\w\.]+)')
-re_offset = re.compile(r'^Offset\(([\w\.]+), *(-?\d+)\)$')
+re_split = re.compile(r'(Offset\([-\w\.]+, *-?\d+\)|[-\w\.]+)')
+re_offset = re.compile(r'^Offset\(([-\w\.]+), *(-?\d+)\)$')
 def parse_nnet3_desc(desc_text):
     lines = desc_text.split('\n')
     prev_name = 'input'
-- 
2.43.0


From 332747ad4b6f02754015e5b3ac2667ef728224d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:42 +0000
Subject: [PATCH 30/52] fix: prune_lm.py keeps the end marker of a unigram-only
 model

---
 tool/prune_lm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tool/prune_lm.py b/tool/prune_lm.py
index f3541bf..beaac43 100644
--- a/tool/prune_lm.py
+++ b/tool/prune_lm.py
@@ -36,6 +36,9 @@ for line in sys.stdin:
         f = line.strip().split()
         if line.strip() == '':
             print(line.strip())
+        elif line.strip() == '\\end\\':
+            state = State.END
+            print(line.strip())
         elif line.strip()[0] == '\\':
             state = State.NGRAM
         elif len(f) in {2, 3}:
-- 
2.43.0


From 8c7f30b0e3f17edf1f637d7b6d10dce903797860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 31/52] fix: an utterance of 100000 words or more no longer
 aborts the process

---
 src/decoder.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index 3a0fb70..f3ebaf3 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -428,7 +428,6 @@ Decoder::Hypothesis Decoder::BestPath() {
     PK_DEBUG(util::Format("Word: {}", olabel->olabel()));
     words.push_back(olabel->olabel());
     olabel = olabel->previous();
-    assert(words.size() < 100000);
   }
 
   // Final weights are already included when the stream is ended
-- 
2.43.0


From d07b318e26d8f313ef9512c1cdabb38a3877f44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:30 +0000
Subject: [PATCH 32/52] fix: compute the CachedFst hash in unsigned arithmetic

States from 69 million on overflowed a signed int, which is undefined.
---
 src/fst.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fst.h b/src/fst.h
index 36edb69..ac5e6f9 100644
--- a/src/fst.h
+++ b/src/fst.h
@@ -175,10 +175,10 @@ class CachedFst {
   const IFst *fst_;
 
   // Compute hash value for state and ilabel
-  inline int32_t Hash(int state, int ilabel) const {
-    int32_t h = 19;
-    h = h * 31 + state;
-    h = h * 31 + ilabel;
+  inline uint32_t Hash(int state, int ilabel) const {
+    uint32_t h = 19;
+    h = h * 31 + static_cast<uint32_t>(state);
+    h = h * 31 + static_cast<uint32_t>(ilabel);
 
     return h;
   }
-- 
2.43.0


From e46aec904769e7bdc7d9fcd3f64cb1f27f956cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:54 +0000
Subject: [PATCH 33/52] fix: read lines of any length as one line

ReadLine cut lines at 4095 bytes: the rest of a long comment in a
configuration file was taken as a setting, a long value or word was cut.
---
 src/util.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index cce0fcc..6d8feda 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -108,12 +108,23 @@ bool ReadableFile::ReadLine(std::string *line, Status *status) {
     }
   }
 
+  // Read the rest of a line that is longer than the chunk
+  *line = s;
+  while (strlen(chunk.data()) == chunk.size() - 1 &&
+         line->back() != '\n' &&
+         (s = fgets(chunk.data(), chunk.size(), fd_)) != NULL) {
+    *line += s;
+  }
+  if (ferror(fd_)) {
+    *status = Status::IOError(filename_);
+    return false;
+  }
+
   // The last line may not end with '\n', fgets() already reached EOF then.
   // Clears it to make the next call report the first time that reached EOF
   if (feof(fd_)) clearerr(fd_);
 
   // Trim the tailing '\r' or '\n'
-  *line = s;
   while (line->empty() == false &&
          (line->back() == '\r' || line->back() == '\n')) {
     line->pop_back();
-- 
2.43.0


From 8d1658db66c3ee880d92f03a61b8a1f87e85ffcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:43 +0000
Subject: [PATCH 34/52] fix: refuse decoding graphs whose states claim arcs
 outside the graph

The decoder read arcs beyond the mapped arc array.
---
 src/openfst/include/fst/const-fst.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/openfst/include/fst/const-fst.h b/src/openfst/include/fst/const-fst.h
index db1bc17..2a63043 100644
--- a/src/openfst/include/fst/const-fst.h
+++ b/src/openfst/include/fst/const-fst.h
@@ -233,6 +233,15 @@ ConstFstImpl<Arc, Unsigned> *ConstFstImpl<Arc, Unsigned>::Read(
     return nullptr;
   }
   impl->arcs_ = reinterpret_cast<Arc *>(impl->arcs_region_->mutable_data());
+  for (size_t s = 0; s < impl->nstates_; ++s) {
+    const ConstState &state = impl->states_[s];
+    if (state.narcs > impl->narcs_ ||
+        (state.narcs > 0 && state.pos > impl->narcs_ - state.narcs)) {
+      LOG(ERROR) << "ConstFst::Read: Arcs of a state are out of range: "
+                 << opts.source;
+      return nullptr;
+    }
+  }
   return impl.release();
 }
 
-- 
2.43.0


From ff4d11c180a657a3e55dcf972191791b5c50d8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:49 +0000
Subject: [PATCH 35/52] fix: refuse language models with states, arcs or labels
 out of range

A damaged arc or arc position was read or, building the lowest-order
table, written outside the heap buffer when it was first used.
---
 src/fst.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/fst.cc b/src/fst.cc
index 66de6ba..0ebdaf3 100644
--- a/src/fst.cc
+++ b/src/fst.cc
@@ -109,6 +109,23 @@ Status Fst::Read(util::ReadableFile *fd) {
   status = fd->Read(arcs_.data(), sizeof(arcs_.front()) * arcs_.size());
   if (!status.ok()) return status;
 
+  // Checks that states, arcs and labels are in range
+  bool in_range = start_state >= 0 && start_state < state_number;
+  int last_idx = 0;
+  for (int idx : state_idx_) {
+    if (idx < -1 || idx > arc_number || (idx >= 0 && idx < last_idx)) {
+      in_range = false;
+    }
+    if (idx >= 0) last_idx = idx;
+  }
+  for (const FstArc &arc : arcs_) {
+    if (arc.next_state < 0 || arc.next_state >= state_number ||
+        arc.input_label < 0) {
+      in_range = false;
+    }
+  }
+  if (!in_range) return Status::Corruption(fd->filename());
+
   // Success
   return status;
 }
-- 
2.43.0


From 1fcafb21260a0ac2446f6f482120d22b024e492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:54 +0000
Subject: [PATCH 36/52] fix: refuse a negative context or chunk size

A negative chunk size aborted the process in the first call of
ce_stt_process, a negative context lost frames.
---
 src/am.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/am.cc b/src/am.cc
index bb87452..a4d67b5 100644
--- a/src/am.cc
+++ b/src/am.cc
@@ -56,6 +56,13 @@ Status AcousticModel::Read(const Configuration &conf) {
   PK_CHECK_STATUS(conf.GetInteger("left_context", &left_context_));
   PK_CHECK_STATUS(conf.GetInteger("right_context", &right_context_));
   PK_CHECK_STATUS(conf.GetInteger("chunk_size", &chunk_size_));
+  if (left_context_ < 0 || right_context_ < 0 || chunk_size_ < 0) {
+    return Status::Corruption(util::Format(
+        "unexpected left_context, right_context or chunk_size: {}, {}, {}",
+        left_context_,
+        right_context_,
+        chunk_size_));
+  }
 
   // Read tid2pdf_
   std::string tid2pdf_filename;
-- 
2.43.0


From ed960c6a0177fbeb8f3b4b8b6f0da2af3c7eb7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 37/52] fix: refuse a model whose graph refers to missing
 states, pdfs or words

A damaged label or state was used as an index without a bound check (or
aborted) while decoding, long after the model had been accepted.
---
 src/am.h           |  8 ++++++++
 src/ce_stt.cc      | 32 ++++++++++++++++++++++++++++++++
 src/symbol_table.h |  5 +++++
 3 files changed, 45 insertions(+)

diff --git a/src/am.h b/src/am.h
index d53bcd2..6d4f047 100644
--- a/src/am.h
+++ b/src/am.h
@@ -38,6 +38,14 @@ class AcousticModel {
     return tid2pdf_;
   }
 
+  // Returns true if transition-id trans_id maps to a pdf-id of this model
+  bool HasTransition(int trans_id) const {
+    return trans_id >= 0 &&
+           trans_id < tid2pdf_.Dim() &&
+           tid2pdf_(trans_id) >= 0 &&
+           tid2pdf_(trans_id) < log_prior_.Dim();
+  }
+
   // Compute the log-likelihood of the feature matrix
   void Process(Instance *inst,
                const VectorBase<float> &frame_feat,
diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 7228a23..e61f6e9 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -130,6 +130,35 @@ Status ReadHclgFst(ce_stt_t *self, const Configuration &conf) {
   return Status::OK();
 }
 
+// Checks that the states, transition-ids and words in HCLG fst exist in the
+// model
+Status CheckHclgFst(const ce_stt_t *self) {
+  const int num_states = self->fst->NumStates();
+  if (self->fst->Start() < 0 || self->fst->Start() >= num_states) {
+    return Status::Corruption("HCLG: start state out of range");
+  }
+  for (int state = 0; state < num_states; ++state) {
+    fst::ArcIterator<fst::Fst<fst::StdArc>> arc_iter(*self->fst, state);
+    for (; !arc_iter.Done(); arc_iter.Next()) {
+      const fst::StdArc &arc = arc_iter.Value();
+      if (arc.nextstate < 0 || arc.nextstate >= num_states) {
+        return Status::Corruption(
+            Format("HCLG: next state {} out of range", arc.nextstate));
+      }
+      if (arc.ilabel != 0 && !self->am->HasTransition(arc.ilabel)) {
+        return Status::Corruption(
+            Format("HCLG: transition-id {} has no pdf", arc.ilabel));
+      }
+      if (arc.olabel != 0 && !self->symbol_table->Has(arc.olabel)) {
+        return Status::Corruption(
+            Format("HCLG: word {} not in symbol table", arc.olabel));
+      }
+    }
+  }
+
+  return Status::OK();
+}
+
 // Checks if parameter utt is correct. On success return 0, on failed return
 // CE_STT_FAILED and copy error string into error_message
 int32_t CheckParamUtt(ce_utt_t *utt) {
@@ -216,6 +245,9 @@ ce_stt_t *ce_stt_init(const char *config_file) {
   status = ReadSymbolTable(recognizer, conf);
   if (!status.ok()) goto pasco_init_failed;
 
+  status = CheckHclgFst(recognizer);
+  if (!status.ok()) goto pasco_init_failed;
+
   // DelteLmFst (if available)
   status = ReadDeltaLmFst(recognizer, conf);
   if (!status.ok()) goto pasco_init_failed;
diff --git a/src/symbol_table.h b/src/symbol_table.h
index d21c637..0d8feb9 100644
--- a/src/symbol_table.h
+++ b/src/symbol_table.h
@@ -22,6 +22,11 @@ class SymbolTable {
   // Read synbol table file
   Status Read(const std::string &filename);
 
+  // Returns true if symbol_id could be passed to Get()
+  bool Has(int symbol_id) const {
+    return symbol_id >= 0 && symbol_id < static_cast<int>(words_.size());
+  }
+
   // Get symbol by id
   const char *Get(int symbol_id) const;
 
-- 
2.43.0


From c39709b444464f7d5b7cd134d7e460372ddb288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:45 +0000
Subject: [PATCH 38/52] fix: refuse a decoding graph whose 64-bit start state
 is out of range

It was truncated to 32 bits and could name another state.
---
 src/openfst/include/fst/const-fst.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/openfst/include/fst/const-fst.h b/src/openfst/include/fst/const-fst.h
index 2a63043..2453ba3 100644
--- a/src/openfst/include/fst/const-fst.h
+++ b/src/openfst/include/fst/const-fst.h
@@ -201,6 +201,11 @@ ConstFstImpl<Arc, Unsigned> *ConstFstImpl<Arc, Unsigned>::Read(
                << opts.source;
     return nullptr;
   }
+  if (hdr.Start() < kNoStateId || hdr.Start() >= hdr.NumStates()) {
+    LOG(ERROR) << "ConstFst::Read: Start state is out of range: "
+               << opts.source;
+    return nullptr;
+  }
   impl->start_ = hdr.Start();
   impl->nstates_ = hdr.NumStates();
   impl->narcs_ = hdr.NumArcs();
-- 
2.43.0


From 2faa19c08d3b0fa873e7959df8cf17146af85525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:35 +0000
Subject: [PATCH 39/52] fix: keep the message of ce_stt_errmsg per thread

Requests that failed in two threads at the same time raced on one buffer,
and a thread could read the message of another.
---
 src/ce_stt.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index e61f6e9..5a92797 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -61,8 +61,9 @@ typedef struct ce_utt_internal_t {
 
 namespace {
 
-// Buffer for last_error()
-char error_message[2048] = "";
+// Buffer for last_error(). Each thread has its own, since requests may fail in
+// several threads at the same time.
+thread_local char error_message[2048] = "";
 
 // Read symbol table
 Status ReadSymbolTable(ce_stt_t *self, const Configuration &conf) {
-- 
2.43.0


From 051258279cd9e7c01ec9f2ce01fd76cb42adbe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 40/52] fix: refuse a model whose network does not fit its
 features, priors or context

A layer, prior or context of another size was accepted and aborted the process
(or was used out of bounds) when the first utterance was scored.
---
 src/am.cc     | 22 ++++++++++++++++++++++
 src/am.h      |  4 ++++
 src/ce_stt.cc |  3 +++
 src/nnet.cc   | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 src/nnet.h    | 25 +++++++++++++++++++++++++
 5 files changed, 101 insertions(+)

diff --git a/src/am.cc b/src/am.cc
index a4d67b5..542051d 100644
--- a/src/am.cc
+++ b/src/am.cc
@@ -78,6 +78,28 @@ Status AcousticModel::Read(const Configuration &conf) {
   return Status::OK();
 }
 
+Status AcousticModel::CheckShape(int feat_dim) const {
+  int num_cols = feat_dim;
+  int64_t left = 0, right = 0;
+  if (!nnet_.CheckShape(&num_cols, &left, &right)) {
+    return Status::Corruption("nnet: dimension mismatch between layers");
+  }
+  if (num_cols != log_prior_.Dim()) {
+    return Status::Corruption(util::Format(
+        "nnet has {} outputs, but prior has {}",
+        num_cols,
+        log_prior_.Dim()));
+  }
+  if (left != left_context_ || right != right_context_) {
+    return Status::Corruption(util::Format(
+        "nnet does not match left_context and right_context: {}, {}",
+        left_context_,
+        right_context_));
+  }
+
+  return Status::OK();
+}
+
 void AcousticModel::AppendFrame(Instance *inst,
                                 const VectorBase<float> &frame_feat) const {
   Vector<float> frame(frame_feat.Dim());
diff --git a/src/am.h b/src/am.h
index 6d4f047..6902d14 100644
--- a/src/am.h
+++ b/src/am.h
@@ -46,6 +46,10 @@ class AcousticModel {
            tid2pdf_(trans_id) < log_prior_.Dim();
   }
 
+  // Checks that the nnet accepts features of `feat_dim` dimensions, removes
+  // exactly the left and right context and has one output for each prior
+  Status CheckShape(int feat_dim) const;
+
   // Compute the log-likelihood of the feature matrix
   void Process(Instance *inst,
                const VectorBase<float> &frame_feat,
diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 5a92797..72c656d 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -242,6 +242,9 @@ ce_stt_t *ce_stt_init(const char *config_file) {
   status = recognizer->am->Read(conf);
   if (!status.ok()) goto pasco_init_failed;
 
+  status = recognizer->am->CheckShape(PK_FBANK_DIM);
+  if (!status.ok()) goto pasco_init_failed;
+
   // SYMBOL TABLE
   status = ReadSymbolTable(recognizer, conf);
   if (!status.ok()) goto pasco_init_failed;
diff --git a/src/nnet.cc b/src/nnet.cc
index 552fced..b383671 100644
--- a/src/nnet.cc
+++ b/src/nnet.cc
@@ -3,6 +3,7 @@
 #include "nnet.h"
 
 #include <assert.h>
+#include <limits.h>
 #include <math.h>
 
 namespace pocketkaldi {
@@ -42,6 +43,15 @@ Status LinearLayer::Read(util::ReadableFile *fd) {
   return Status::OK();
 }
 
+bool LinearLayer::CheckShape(
+    int *num_cols, int64_t *left, int64_t *right) const {
+  if (*num_cols != W_.NumRows()) return false;
+  if (b_.Dim() == 0 || b_.Dim() != W_.NumCols()) return false;
+
+  *num_cols = W_.NumCols();
+  return true;
+}
+
 SpliceLayer::SpliceLayer() {}
 SpliceLayer::SpliceLayer(const std::vector<int> &indices):
     indices_(indices) {
@@ -94,6 +104,17 @@ Status SpliceLayer::Read(util::ReadableFile *fd) {
   return Status::OK();
 }
 
+bool SpliceLayer::CheckShape(
+    int *num_cols, int64_t *left, int64_t *right) const {
+  if (indices_.empty()) return false;
+
+  int64_t out_cols = static_cast<int64_t>(indices_.size()) * *num_cols;
+  if (out_cols > INT_MAX) return false;
+
+  *num_cols = static_cast<int>(out_cols);
+  return true;
+}
+
 BatchNormLayer::BatchNormLayer() {}
 BatchNormLayer::BatchNormLayer(const VectorBase<float> &scale,
                                const VectorBase<float> &offset) {
@@ -123,6 +144,13 @@ Status BatchNormLayer::Read(util::ReadableFile *fd) {
   return Status::OK();
 }
 
+bool BatchNormLayer::CheckShape(
+    int *num_cols, int64_t *left, int64_t *right) const {
+  return scale_.Dim() > 0 &&
+         scale_.Dim() == *num_cols &&
+         offset_.Dim() == *num_cols;
+}
+
 void SoftmaxLayer::Propagate(
     const MatrixBase<float> &in,
     Matrix<float> *out) const {
@@ -217,6 +245,15 @@ Status NarrowLayer::Read(util::ReadableFile *fd) {
 }
 
 
+bool NarrowLayer::CheckShape(
+    int *num_cols, int64_t *left, int64_t *right) const {
+  if (narrow_left_ < 0 || narrow_right_ < 0) return false;
+
+  *left += narrow_left_;
+  *right += narrow_right_;
+  return true;
+}
+
 Nnet::Nnet(): left_context_(0), right_context_(0) {
 }
 
@@ -300,6 +337,16 @@ Status Nnet::Read(util::ReadableFile *fd) {
   return Status::OK();
 }
 
+bool Nnet::CheckShape(int *num_cols, int64_t *left, int64_t *right) const {
+  *left = 0;
+  *right = 0;
+  for (const std::unique_ptr<Layer> &layer : layers_) {
+    if (!layer->CheckShape(num_cols, left, right)) return false;
+  }
+
+  return true;
+}
+
 void Nnet::Propagate(const MatrixBase<float> &in, Matrix<float> *out) const {
   Matrix<float> layer_input, layer_output;
   
diff --git a/src/nnet.h b/src/nnet.h
index e5c8a58..dba4e13 100644
--- a/src/nnet.h
+++ b/src/nnet.h
@@ -3,6 +3,7 @@
 #ifndef POCKETKALDI_NNET_H_
 #define POCKETKALDI_NNET_H_
 
+#include <stdint.h>
 #include <vector>
 #include <memory>
 #include "matrix.h"
@@ -38,6 +39,14 @@ class Layer {
   // Read layer from fd
   virtual Status Read(util::ReadableFile *fd) = 0;
 
+  // Checks that this layer could process input of `*num_cols` columns. On
+  // success, sets `*num_cols` to the number of columns in its output, and adds
+  // the number of rows it removes from the begin and the end of its input to
+  // `*left` and `*right`
+  virtual bool CheckShape(int *num_cols, int64_t *left, int64_t *right) const {
+    return true;
+  }
+
   // Layer type
   virtual std::string Type() const = 0;
 
@@ -62,6 +71,9 @@ class LinearLayer : public Layer {
   // Implements interface Layer
   Status Read(util::ReadableFile *fd) override;
 
+  // Implements interface Layer
+  bool CheckShape(int *num_cols, int64_t *left, int64_t *right) const override;
+
   // Implements interface Layer
   std::string Type() const override { return "Linear"; }
 
@@ -90,6 +102,9 @@ class SpliceLayer : public Layer {
   // Implements interface Layer
   Status Read(util::ReadableFile *fd) override;
 
+  // Implements interface Layer
+  bool CheckShape(int *num_cols, int64_t *left, int64_t *right) const override;
+
   // Implements interface Layer
   std::string Type() const override { return "Splice"; }
 
@@ -113,6 +128,9 @@ class BatchNormLayer : public Layer {
   // Implements interface Layer
   Status Read(util::ReadableFile *fd) override;
 
+  // Implements interface Layer
+  bool CheckShape(int *num_cols, int64_t *left, int64_t *right) const override;
+
   // Implements interface Layer
   std::string Type() const override { return "BatchNorm"; }
 
@@ -189,6 +207,9 @@ class NarrowLayer : public Layer {
   // Implements interface Layer
   Status Read(util::ReadableFile *fd) override;
 
+  // Implements interface Layer
+  bool CheckShape(int *num_cols, int64_t *left, int64_t *right) const override;
+
   // Implements interface Layer
   std::string Type() const override { return "NarrowLayer"; }
 
@@ -231,6 +252,10 @@ class Nnet {
   // Propogate batch matrix through this neural network
   void Propagate(const MatrixBase<float> &in, Matrix<float> *out) const;
 
+  // Checks that each layer fits the output of the layer before it when the
+  // input has `*num_cols` columns. See Layer::CheckShape
+  bool CheckShape(int *num_cols, int64_t *left, int64_t *right) const;
+
   // Returns the left and right context of nnet
   int left_context() const { return left_context_; }
   int right_context() const { return right_context_; }
-- 
2.43.0


From 074773313903de0b362081a913d16d1bb0994d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 41/52] fix: refuse an original_lm that lacks words of the
 decoding graph

The weight of such a word was read outside of the vector when the word was
recognised.
---
 src/ce_stt.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 72c656d..627511f 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -160,6 +160,27 @@ Status CheckHclgFst(const ce_stt_t *self) {
   return Status::OK();
 }
 
+// Checks that the original LM has the weight of each word in HCLG fst
+Status CheckOriginalLm(const ce_stt_t *self) {
+  if (self->original_lm == nullptr) return Status::OK();
+
+  int max_word = self->symbol_table->eos_id();
+  for (int state = 0; state < self->fst->NumStates(); ++state) {
+    fst::ArcIterator<fst::Fst<fst::StdArc>> arc_iter(*self->fst, state);
+    for (; !arc_iter.Done(); arc_iter.Next()) {
+      max_word = std::max(max_word, arc_iter.Value().olabel);
+    }
+  }
+  if (max_word >= self->original_lm->Dim()) {
+    return Status::Corruption(Format(
+        "original_lm has {} words, but word {} is used",
+        self->original_lm->Dim(),
+        max_word));
+  }
+
+  return Status::OK();
+}
+
 // Checks if parameter utt is correct. On success return 0, on failed return
 // CE_STT_FAILED and copy error string into error_message
 int32_t CheckParamUtt(ce_utt_t *utt) {
@@ -256,6 +277,9 @@ ce_stt_t *ce_stt_init(const char *config_file) {
   status = ReadDeltaLmFst(recognizer, conf);
   if (!status.ok()) goto pasco_init_failed;
 
+  status = CheckOriginalLm(recognizer);
+  if (!status.ok()) goto pasco_init_failed;
+
   // Initialize fbank feature extractor
   recognizer->fbank = new Fbank();
 
-- 
2.43.0


From a6a27b748e1d01c426b747137d260a0f36a5a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 42/52] fix: refuse a large_lm whose back-off arcs form a cycle

Looking up a word followed the cycle until the stack was exhausted.
---
 src/ce_stt.cc |  5 +++++
 src/fst.cc    | 17 +++++++++++++++++
 src/fst.h     |  3 +++
 3 files changed, 25 insertions(+)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 627511f..026b2ea 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -104,6 +104,11 @@ Status ReadDeltaLmFst(ce_stt_t *self, const Configuration &conf) {
   PK_CHECK_STATUS(fd_large_lm.Open(large_lm_file));
   self->large_lm_fst = new LmFst();
   PK_CHECK_STATUS(self->large_lm_fst->Read(&fd_large_lm));
+  if (self->large_lm_fst->HasBackoffCycle()) {
+    return Status::Corruption(pocketkaldi::util::Format(
+        "cycle of back-off arcs: {}",
+        large_lm_file));
+  }
   self->large_lm_fst->InitBucket0();
   
   // Build DeltaLmFst
diff --git a/src/fst.cc b/src/fst.cc
index 0ebdaf3..868b2fc 100644
--- a/src/fst.cc
+++ b/src/fst.cc
@@ -227,6 +227,23 @@ const FstArc *LmFst::GetBackoffArc(int state) const {
   return first;
 }
 
+bool LmFst::HasBackoffCycle() const {
+  // The state from which each state was visited first
+  std::vector<int> visited_from(state_idx_.size(), -1);
+  for (int start = 0; start < state_idx_.size(); ++start) {
+    int state = start;
+    while (visited_from[state] == -1) {
+      visited_from[state] = start;
+      const FstArc *backoff_arc = GetBackoffArc(state);
+      if (backoff_arc == nullptr) break;
+      state = backoff_arc->next_state;
+      if (visited_from[state] == start) return true;
+    }
+  }
+
+  return false;
+}
+
 bool LmFst::GetArc(int state, int ilabel, FstArc *arc) const {
   assert(ilabel != 0 && "invalid ilabel");
 
diff --git a/src/fst.h b/src/fst.h
index ac5e6f9..86bcc33 100644
--- a/src/fst.h
+++ b/src/fst.h
@@ -112,6 +112,9 @@ class LmFst : public Fst {
   // Initialize bucket for state 0 optimization
   void InitBucket0();
 
+  // Returns true if the back-off arcs of some states form a cycle
+  bool HasBackoffCycle() const;
+
  private:
   // Get the backoff arc for given state. If there is no back-off arc return
   // nullptr
-- 
2.43.0


From b684cd42ab8b9cadadf449ab7083a716dc9738ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 43/52] fix: stop when a wave file cannot be read to its end

The transcript of the part before the read error was printed as the result.
---
 src/main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.cc b/src/main.cc
index ce1c41f..1054c63 100644
--- a/src/main.cc
+++ b/src/main.cc
@@ -42,6 +42,7 @@ std::string ProcessAudio(ce_stt_t *recognizer, const std::string &filename) {
 
     ce_stt_process(utt, buffer, bytes_read);
   }
+  if (ferror(fd)) Fatal("unable to read: " + filename);
 
   ce_stt_end_of_stream(utt);
   std::string hyp = utt->hyp;
-- 
2.43.0


From 493ae60489fbfc132d354be88841dc45fea77329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:26 +0000
Subject: [PATCH 44/52] fix: exit with an error when the output cannot be
 written

Results that did not reach a full disk were lost with exit status 0.
---
 src/main.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.cc b/src/main.cc
index 1054c63..4b472c0 100644
--- a/src/main.cc
+++ b/src/main.cc
@@ -103,5 +103,10 @@ int main(int argc, char **argv) {
   }
 
   ce_stt_destroy(recognizer);
+
+  if (fflush(stdout) != 0 || ferror(stdout)) {
+    fprintf(stderr, "error: unable to write the output\n");
+    return 1;
+  }
   return 0;
 }
-- 
2.43.0


From 06f867015b185541d5b16db9ed9f425e2c3a5497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 45/52] fix: write log messages to stderr, not into the
 program's output

A warning (a language model without <s>, a word of the decoding graph that
the language model does not know) appeared between the transcripts.
---
 src/util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.h b/src/util.h
index 3d23407..628be04 100644
--- a/src/util.h
+++ b/src/util.h
@@ -36,8 +36,8 @@
     Status st = (st_exp);\
     if (!st.ok()) return st;}
 
-#define PK_INFO(msg) std::cout << __FILE__ << ": " << (msg) << std::endl;
-#define PK_WARN(msg) std::cout << "WARN: " << __FILE__ << ": " \
+#define PK_INFO(msg) std::cerr << __FILE__ << ": " << (msg) << std::endl;
+#define PK_WARN(msg) std::cerr << "WARN: " << __FILE__ << ": " \
                                << (msg) << std::endl;
 // #define PK_DEBUG(msg) std::cout << __FILE__ << ": " << (msg) << std::endl;
 #define PK_DEBUG(msg)
-- 
2.43.0


From 8e02a4b5d2aa3740d894883f651504a419ed6a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 46/52] fix: follow long chains of back-off arcs without
 recursion

---
 src/fst.cc | 53 +++++++++++++++++++++++++----------------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/src/fst.cc b/src/fst.cc
index 868b2fc..0c90000 100644
--- a/src/fst.cc
+++ b/src/fst.cc
@@ -247,43 +247,40 @@ bool LmFst::HasBackoffCycle() const {
 bool LmFst::GetArc(int state, int ilabel, FstArc *arc) const {
   assert(ilabel != 0 && "invalid ilabel");
 
-  // We have special optimize for state 0
-  if (state == 0 && ilabel < bucket_0_.size()) {
-    if (bucket_0_[ilabel].input_label == ilabel) {
-      *arc = bucket_0_[ilabel];
-      return true;
+  // The chain of backoff arcs may be as long as the FST has states
+  float backoff_weight = 0.0f;
+  for (; ; ) {
+    // We have special optimize for state 0
+    if (state == 0 && ilabel < bucket_0_.size()) {
+      if (bucket_0_[ilabel].input_label == ilabel) {
+        *arc = bucket_0_[ilabel];
+        break;
+      }
     }
-  }
 
-  if (Fst::GetArc(state, ilabel, arc)) {
-    return true;
-  } else {
+    if (Fst::GetArc(state, ilabel, arc)) break;
+
     const FstArc *backoff_arc = GetBackoffArc(state);
-    if (backoff_arc) {
-      if (!GetArc(backoff_arc->next_state, ilabel, arc)) return false;
-      arc->weight += backoff_arc->weight;
-      return true;
-    } else {
-      return false;
-    }
+    if (backoff_arc == nullptr) return false;
+    backoff_weight += backoff_arc->weight;
+    state = backoff_arc->next_state;
   }
+
+  arc->weight += backoff_weight;
+  return true;
 }
 
 float LmFst::Final(int state_id) const {
-  float final = Fst::Final(state_id);
-  if (std::isfinite(final)) {
-    return final;
-  } else {
+  float backoff_weight = 0.0f;
+  for (; ; ) {
+    float final = Fst::Final(state_id);
+    if (std::isfinite(final)) return final + backoff_weight;
+
     // Follow the backoff arc
     const FstArc *backoff_arc = GetBackoffArc(state_id);
-    if (backoff_arc) {
-      float final_w = Final(backoff_arc->next_state);
-      if (!std::isfinite(final_w)) return INFINITY;
-
-      return final_w + backoff_arc->weight;
-    } else {
-      return INFINITY;
-    }
+    if (backoff_arc == nullptr) return INFINITY;
+    backoff_weight += backoff_arc->weight;
+    state_id = backoff_arc->next_state;
   }
 }
 
-- 
2.43.0


From 17afa44af2913181f47a5938d188d1b177c85188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:46 +0000
Subject: [PATCH 47/52] fix: Read16kPcm refuses files whose size is unknown or
 beyond the range of int

---
 src/pcm_reader.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pcm_reader.cc b/src/pcm_reader.cc
index 8fee94a..f00faf6 100644
--- a/src/pcm_reader.cc
+++ b/src/pcm_reader.cc
@@ -3,6 +3,7 @@
 #include "pcm_reader.h"
 
 #include <assert.h>
+#include <limits.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <string.h>
@@ -203,6 +204,13 @@ Status Read16kPcm(const char *filename, Vector<float> *pcm_data) {
   WaveReader reader;
   PK_CHECK_STATUS(reader.SetFormat(fmt));
 
+  // The size of a pipe is unknown, and a large file exceeds the range of int
+  if (fd.file_size() < 44 || fd.file_size() - 44 > INT_MAX) {
+    return Status::Corruption(util::Format(
+        "unexpected file size {}: {}",
+        fd.file_size(),
+        filename));
+  }
   int data_size = static_cast<int>(fd.file_size() - 44);
   std::vector<char> buffer(data_size);
   PK_CHECK_STATUS(fd.Read(buffer.data(), data_size));
-- 
2.43.0


From e33a185b2a79c3027ce13c5a67bd335f641b0375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:54 +0000
Subject: [PATCH 48/52] fix: no integer overflow when checking the section size
 of a graph

A header with a multiple of 2^29 more states or of 2^28 more arcs than the
graph has passed the check.
---
 src/fst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fst.cc b/src/fst.cc
index 0c90000..e34d88a 100644
--- a/src/fst.cc
+++ b/src/fst.cc
@@ -79,7 +79,7 @@ Status Fst::Read(util::ReadableFile *fd) {
   start_state_ = start_state;
 
   // Check section size
-  int expected_section_size =
+  int64_t expected_section_size =
       sizeof(state_number) +
       sizeof(arc_number) +
       sizeof(start_state) +
-- 
2.43.0


From 6d521c8a98736480a1d12fc3d3ec9ec38c7b2c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:00 +0000
Subject: [PATCH 49/52] fix: Matrix::Read reports a shape beyond the range of
 int as corruption

Such a matrix was read as an empty one or raised bad_alloc.
---
 src/matrix.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/matrix.cc b/src/matrix.cc
index 8b84c77..3713837 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -3,6 +3,7 @@
 #include "matrix.h"
 
 #include <assert.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include <math.h>
@@ -169,7 +170,11 @@ Status Matrix<Real>::Read(util::ReadableFile *fd) {
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_rows));
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_cols));
 
-  if (num_rows < 0 || num_cols < 0 || (num_rows == 0) != (num_cols == 0)) {
+  // Elements are indexed by int, and rows are padded by up to 16 bytes
+  bool too_large = num_rows > 0 &&
+      num_cols > INT_MAX / num_rows - static_cast<int>(16 / sizeof(Real));
+  if (num_rows < 0 || num_cols < 0 || (num_rows == 0) != (num_cols == 0) ||
+      too_large) {
     return Status::Corruption(util::Format(
         "Matrix::Read: unexpected shape {} x {}: {}",
         num_rows,
-- 
2.43.0


From f1eb4b576f24d647aa3324d6280ec902487f2551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:54 +0000
Subject: [PATCH 50/52] fix: refuse decoding graphs with more states or arcs
 than the file holds

Reading them raised bad_alloc, or read beyond the states.
---
 src/openfst/include/fst/const-fst.h |  6 ++++++
 src/openfst/lib/mapped-file.cc      | 13 +++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/openfst/include/fst/const-fst.h b/src/openfst/include/fst/const-fst.h
index 2453ba3..8a7c470 100644
--- a/src/openfst/include/fst/const-fst.h
+++ b/src/openfst/include/fst/const-fst.h
@@ -8,6 +8,7 @@
 #define FST_CONST_FST_H_
 
 #include <climits>
+#include <limits>
 #include <string>
 #include <vector>
 
@@ -201,6 +202,11 @@ ConstFstImpl<Arc, Unsigned> *ConstFstImpl<Arc, Unsigned>::Read(
                << opts.source;
     return nullptr;
   }
+  if (hdr.NumStates() > std::numeric_limits<typename Arc::StateId>::max() ||
+      hdr.NumArcs() > std::numeric_limits<Unsigned>::max()) {
+    LOG(ERROR) << "ConstFst::Read: Too many states or arcs: " << opts.source;
+    return nullptr;
+  }
   if (hdr.Start() < kNoStateId || hdr.Start() >= hdr.NumStates()) {
     LOG(ERROR) << "ConstFst::Read: Start state is out of range: "
                << opts.source;
diff --git a/src/openfst/lib/mapped-file.cc b/src/openfst/lib/mapped-file.cc
index 12232ac..aeba25f 100644
--- a/src/openfst/lib/mapped-file.cc
+++ b/src/openfst/lib/mapped-file.cc
@@ -59,6 +59,19 @@ MappedFile *MappedFile::Map(std::istream *istrm, bool memorymap,
     }
   }
 
+  // Allocates nothing for a region that reaches beyond the end of the file.
+  // Size of a pipe is unknown.
+  if (spos >= 0) {
+    istrm->seekg(0, std::ios::end);
+    const auto epos = istrm->tellg();
+    istrm->seekg(spos, std::ios::beg);
+    if (epos < spos || static_cast<size_t>(epos - spos) < size) {
+      LOG(ERROR) << "Region of " << size << " bytes at offset " << spos
+                 << " is not within \"" << source << "\"";
+      return nullptr;
+    }
+  }
+
   // If all else fails, reads from the file into the allocated buffer.
   if (memorymap) {
     LOG(WARNING) << "File mapping at offset " << spos << " of file " << source
-- 
2.43.0


From 8353bddaab813a441436089b4003c8490dc3314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:59 +0000
Subject: [PATCH 51/52] fix: no integer overflow when a wave piece ends beyond
 2 GiB

With a byte of the previous piece pending, a piece of the largest size holds
2^31 bytes of samples.
---
 src/pcm_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pcm_reader.cc b/src/pcm_reader.cc
index f00faf6..2c586bd 100644
--- a/src/pcm_reader.cc
+++ b/src/pcm_reader.cc
@@ -185,7 +185,7 @@ Status WaveReader::Process(
   }
 
   // Update buffer
-  int processed_bytes = bytes_per_sample * num_samples;
+  size_t processed_bytes = static_cast<size_t>(bytes_per_sample) * num_samples;
   assert(processed_bytes <= buffer_.size());
   buffer_.erase(buffer_.begin(), buffer_.begin() + processed_bytes);
 
-- 
2.43.0


From 627a7c42a3f977e10b8dd42b057d4c9c0af48211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:05 +0000
Subject: [PATCH 52/52] fix: no integer overflow in the size of a vector

A vector of 2^29 floats or more raised bad_alloc or was allocated too small,
so a piece of 1 GiB of audio ended the program.
---
 src/vector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.cc b/src/vector.cc
index e7887b0..5f3546e 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -40,7 +40,7 @@ inline void Vector<Real>::Init(int dim) {
     this->data_ = NULL;
     return;
   }
-  int size;
+  size_t size;
   void *data;
 
   size = dim * sizeof(Real);
-- 
2.43.0

