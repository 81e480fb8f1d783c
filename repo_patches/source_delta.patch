From b7ef2843ddb84943d309e22832693df2000e46dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:06 +0000
Subject: [PATCH 01/84] fix: report the true position of frames in fixed-size
 lacing

---
 webm_parser/src/block_parser.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index b851f51..1df0a07 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -215,8 +215,9 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
           return Status(Status::kInvalidElementValue);
         }
         lace_sizes_.resize(value_.num_frames, frame_size);
-        frame_metadata_.position =
-            frame_metadata_.parent_element.position + header_bytes_read_;
+        frame_metadata_.position = frame_metadata_.parent_element.position +
+                                   frame_metadata_.parent_element.header_size +
+                                   header_bytes_read_;
         frame_metadata_.size = frame_size;
         state_ = State::kReadingFrames;
         continue;
-- 
2.43.0


From 7616e9c8e9c17b79b4ac9128df862e50317c9741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:06 +0000
Subject: [PATCH 02/84] fix: keep the position of an element that ends an
 unknown-size sibling

---
 webm_parser/src/webm_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webm_parser/src/webm_parser.cc b/webm_parser/src/webm_parser.cc
index cf8bc94..2655d00 100644
--- a/webm_parser/src/webm_parser.cc
+++ b/webm_parser/src/webm_parser.cc
@@ -167,11 +167,11 @@ class WebmParser::DocumentParser {
             state_ = State::kValidatingChildSize;
           } else {
             child_metadata_.header_size = 0;
+            child_metadata_.position = reader->Position();
             state_ = State::kReadingChildId;
           }
           PrepareForNextChild();
           callback = original_callback;
-          child_metadata_.position = reader->Position();
           continue;
         }
 
-- 
2.43.0


From 0925b3d17f9e4888ee5cf16fe5d585feeacf340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:24 +0000
Subject: [PATCH 03/84] fix: hand on the element that ends a nested
 unknown-size element

---
 webm_parser/src/recursive_parser.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/webm_parser/src/recursive_parser.h b/webm_parser/src/recursive_parser.h
index 1646f2f..9886e4f 100644
--- a/webm_parser/src/recursive_parser.h
+++ b/webm_parser/src/recursive_parser.h
@@ -71,6 +71,13 @@ class RecursiveParser : public ElementParser {
     return impl_->Feed(callback, reader, num_bytes_read);
   }
 
+  bool GetCachedMetadata(ElementMetadata* metadata) override {
+    assert(metadata != nullptr);
+    assert(impl_ != nullptr);
+
+    return impl_->GetCachedMetadata(metadata);
+  }
+
   decltype(std::declval<T>().value()) value() const {
     assert(impl_ != nullptr);
 
-- 
2.43.0


From c9a61b5ab0c18ea434feddb9d6081d947281f10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:36 +0000
Subject: [PATCH 04/84] fix: locate colour, mastering and projection elements
 after a seek

---
 webm_parser/src/ancestory.cc | 47 ++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/webm_parser/src/ancestory.cc b/webm_parser/src/ancestory.cc
index 9860a28..8771156 100644
--- a/webm_parser/src/ancestory.cc
+++ b/webm_parser/src/ancestory.cc
@@ -75,6 +75,13 @@ bool Ancestory::ById(Id id, Ancestory* ancestory) {
       Id::kTrackEntry,
       Id::kVideo,
   };
+  static constexpr Id kMasteringMetadataAncestory[] = {
+      Id::kSegment, Id::kTracks, Id::kTrackEntry,
+      Id::kVideo,   Id::kColour, Id::kMasteringMetadata,
+  };
+  static constexpr Id kProjectionAncestory[] = {
+      Id::kSegment, Id::kTracks, Id::kTrackEntry, Id::kVideo, Id::kProjection,
+  };
   static constexpr Id kAudioAncestory[] = {
       Id::kSegment,
       Id::kTracks,
@@ -225,9 +232,49 @@ bool Ancestory::ById(Id id, Ancestory* ancestory) {
     case Id::kDisplayUnit:
     case Id::kAspectRatioType:
     case Id::kFrameRate:
+    case Id::kColour:
+    case Id::kProjection:
       *ancestory = Ancestory(kVideoAncestory, 4);
       return true;
 
+    case Id::kMatrixCoefficients:
+    case Id::kBitsPerChannel:
+    case Id::kChromaSubsamplingHorz:
+    case Id::kChromaSubsamplingVert:
+    case Id::kCbSubsamplingHorz:
+    case Id::kCbSubsamplingVert:
+    case Id::kChromaSitingHorz:
+    case Id::kChromaSitingVert:
+    case Id::kRange:
+    case Id::kTransferCharacteristics:
+    case Id::kPrimaries:
+    case Id::kMaxCll:
+    case Id::kMaxFall:
+    case Id::kMasteringMetadata:
+      *ancestory = Ancestory(kMasteringMetadataAncestory, 5);
+      return true;
+
+    case Id::kPrimaryRChromaticityX:
+    case Id::kPrimaryRChromaticityY:
+    case Id::kPrimaryGChromaticityX:
+    case Id::kPrimaryGChromaticityY:
+    case Id::kPrimaryBChromaticityX:
+    case Id::kPrimaryBChromaticityY:
+    case Id::kWhitePointChromaticityX:
+    case Id::kWhitePointChromaticityY:
+    case Id::kLuminanceMax:
+    case Id::kLuminanceMin:
+      *ancestory = Ancestory(kMasteringMetadataAncestory, 6);
+      return true;
+
+    case Id::kProjectionType:
+    case Id::kProjectionPrivate:
+    case Id::kProjectionPoseYaw:
+    case Id::kProjectionPosePitch:
+    case Id::kProjectionPoseRoll:
+      *ancestory = Ancestory(kProjectionAncestory, 5);
+      return true;
+
     case Id::kSamplingFrequency:
     case Id::kOutputSamplingFrequency:
     case Id::kChannels:
-- 
2.43.0


From 1ac2655f0c733c1db25f34309693caf99ee2a6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:57 +0000
Subject: [PATCH 05/84] fix: do not drop an empty element that ends an
 unknown-size sibling at its parent's end

---
 webm_parser/src/master_parser.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index d8c3dba..8966c0b 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -245,13 +245,13 @@ Status MasterParser::Feed(Callback* callback, Reader* reader,
 
         if (total_bytes_read_ > byte_cap) {
           return Status(Status::kElementOverflow);
-        } else if (total_bytes_read_ == byte_cap) {
-          state_ = State::kEndReached;
-          continue;
         }
 
         if (child_parser_->GetCachedMetadata(&child_metadata_)) {
           state_ = State::kValidatingChildSize;
+        } else if (total_bytes_read_ == byte_cap) {
+          state_ = State::kEndReached;
+          continue;
         } else {
           state_ = State::kFirstReadOfChildId;
         }
-- 
2.43.0


From 0905e6c036b9366d38a589776739d121d5758886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:32 +0000
Subject: [PATCH 06/84] fix: accept an empty unknown-size element at the end of
 its parent

---
 webm_parser/src/master_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index 8966c0b..bf0937f 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -35,7 +35,7 @@ Status MasterParser::Init(const ElementMetadata& metadata,
     max_size_ = max_size;
   }
 
-  if (metadata.size == 0) {
+  if (max_size_ == 0) {
     state_ = State::kEndReached;
   } else {
     state_ = State::kFirstReadOfChildId;
-- 
2.43.0


From f6e6ddd72b5820f583f57ac13700f429ceaf3c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:17 +0000
Subject: [PATCH 07/84] fix: count consumed bytes when a callback throws so
 that parsing can resume

---
 webm_parser/src/master_parser.cc | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index bf0937f..7c2016f 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -20,6 +20,23 @@
 
 namespace webm {
 
+namespace {
+
+// Adds the number of bytes read by a child parser to its parent's totals on
+// destruction.
+struct ByteCounter {
+  const std::uint64_t* local;
+  std::uint64_t* num_bytes_read;
+  std::uint64_t* total;
+
+  ~ByteCounter() {
+    *num_bytes_read += *local;
+    *total += *local;
+  }
+};
+
+}  // namespace
+
 // Spec reference:
 // http://matroska.org/technical/specs/index.html#EBML_ex
 // https://github.com/Matroska-Org/ebml-specification/blob/master/specification.markdown
@@ -225,9 +242,14 @@ Status MasterParser::Feed(Callback* callback, Reader* reader,
 
       case State::kReadingChildBody: {
         assert(child_parser_ != nullptr);
-        status = child_parser_->Feed(callback, reader, &local_num_bytes_read);
-        *num_bytes_read += local_num_bytes_read;
-        total_bytes_read_ += local_num_bytes_read;
+        local_num_bytes_read = 0;
+        {
+          // Count the bytes the child consumed even if a callback throws, so
+          // that parsing can be resumed.
+          const ByteCounter counter{&local_num_bytes_read, num_bytes_read,
+                                    &total_bytes_read_};
+          status = child_parser_->Feed(callback, reader, &local_num_bytes_read);
+        }
         if (!status.completed_ok()) {
           return status;
         }
-- 
2.43.0


From a0eec390d21791b8416ddfc01af1ed00f8b1827f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:17 +0000
Subject: [PATCH 08/84] fix: skipping an unknown-size element must not skip or
 populate its parent

---
 webm_parser/src/master_parser.h       | 4 ++++
 webm_parser/src/master_value_parser.h | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/webm_parser/src/master_parser.h b/webm_parser/src/master_parser.h
index d3ca7c7..d123f26 100644
--- a/webm_parser/src/master_parser.h
+++ b/webm_parser/src/master_parser.h
@@ -114,6 +114,10 @@ class MasterParser : public ElementParser {
     return child_metadata_;
   }
 
+  // Returns true if the child that is currently being parsed was requested to
+  // be skipped.
+  bool is_skipping_child() const { return action_ == Action::kSkip; }
+
  protected:
   // Allocates a new parser of type T, forwarding args to the constructor, and
   // creates a std::pair<Id, std::unique_ptr<ElementParser>> using the given id
diff --git a/webm_parser/src/master_value_parser.h b/webm_parser/src/master_value_parser.h
index 2a02a3f..50b8822 100644
--- a/webm_parser/src/master_value_parser.h
+++ b/webm_parser/src/master_value_parser.h
@@ -441,6 +441,11 @@ class MasterValueParser : public ElementParser {
                 std::uint64_t* num_bytes_read) override {
       *num_bytes_read = 0;
 
+      // A skipped child must neither start its parent nor be stored in it.
+      if (parent_->master_parser_.is_skipping_child()) {
+        return Base::Feed(callback, reader, num_bytes_read);
+      }
+
       Status status = Prepare(callback);
       if (!status.completed_ok()) {
         return status;
-- 
2.43.0


From 7da813a14edcc5ac917417098de724d032d251fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:42 +0000
Subject: [PATCH 09/84] fix: drop an assertion that a malformed stream can
 trigger

---
 webm_parser/src/master_parser.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/webm_parser/src/master_parser.cc b/webm_parser/src/master_parser.cc
index 7c2016f..b660f9c 100644
--- a/webm_parser/src/master_parser.cc
+++ b/webm_parser/src/master_parser.cc
@@ -140,7 +140,6 @@ Status MasterParser::Feed(Callback* callback, Reader* reader,
 
       case State::kFinishingReadingChildId: {
         assert(child_parser_ == nullptr);
-        assert(my_size_ == kUnknownElementSize || total_bytes_read_ < my_size_);
         status = id_parser_.Feed(callback, reader, &local_num_bytes_read);
         *num_bytes_read += local_num_bytes_read;
         total_bytes_read_ += local_num_bytes_read;
-- 
2.43.0


From 94a09920768e4d40bd0407ff655d94814afe1d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:05 +0000
Subject: [PATCH 10/84] fix: report failed writes while copying a file to move
 its cues

---
 mkvmuxer/mkvmuxer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index f9eb9c6..584799e 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -163,7 +163,10 @@ bool ChunkedCopy(mkvparser::IMkvReader* source, mkvmuxer::IMkvWriter* dst,
       delete[] buf;
       return false;
     }
-    dst->Write(buf, static_cast<uint32_t>(read_len));
+    if (dst->Write(buf, static_cast<uint32_t>(read_len))) {
+      delete[] buf;
+      return false;
+    }
     offset += read_len;
     size -= read_len;
   }
-- 
2.43.0


From a0af834ab1c0f8a46324b718f6b298b6012c0275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:05 +0000
Subject: [PATCH 11/84] fix: do not keep deleted frames when writing a held
 back frame fails

---
 mkvmuxer/mkvmuxer.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 584799e..0a79985 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2691,6 +2691,7 @@ bool Cluster::QueueOrWriteFrame(const Frame* const frame) {
   // Iterate through all queued frames in the current track except the last one
   // and write it if it is okay to do so (i.e.) no other track has an held back
   // frame with timestamp <= the timestamp of the frame in question.
+  bool wrote_frames = true;
   std::vector<std::list<Frame*>::iterator> frames_to_erase;
   for (std::list<Frame*>::iterator
            current_track_iterator = stored_frames_[track_number].begin(),
@@ -2710,11 +2711,11 @@ bool Cluster::QueueOrWriteFrame(const Frame* const frame) {
       }
     }
     if (okay_to_write) {
-      const bool wrote_frame = DoWriteFrame(frame_to_write);
+      wrote_frames = DoWriteFrame(frame_to_write);
       delete frame_to_write;
-      if (!wrote_frame)
-        return false;
       frames_to_erase.push_back(current_track_iterator);
+      if (!wrote_frames)
+        break;
     } else {
       break;
     }
@@ -2724,7 +2725,7 @@ bool Cluster::QueueOrWriteFrame(const Frame* const frame) {
        iterator != frames_to_erase.end(); ++iterator) {
     stored_frames_[track_number].erase(*iterator);
   }
-  return true;
+  return wrote_frames;
 }
 
 bool Cluster::WriteClusterHeader() {
-- 
2.43.0


From af1735e9078b101dbf2f9dce892c49831d3e160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:05 +0000
Subject: [PATCH 12/84] fix: report queued frames that could not be written
 instead of dropping them

---
 mkvmuxer/mkvmuxer.cc | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 0a79985..1356227 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -4093,16 +4093,16 @@ int Segment::WriteFramesAll() {
     // places where |doc_type_version_| needs to be updated.
     if (frame->discard_padding() != 0)
       doc_type_version_ = 4;
-    if (!cluster->AddFrame(frame)) {
-      delete frame;
-      continue;
-    }
-
-    if (new_cuepoint_ && cues_track_ == frame->track_number()) {
-      if (!AddCuePoint(frame->timestamp(), cues_track_)) {
-        delete frame;
-        continue;
+    // A frame that was queued has been accepted, so losing it is an error. The
+    // remaining frames stay queued and are freed with the Segment.
+    if (!cluster->AddFrame(frame) ||
+        (new_cuepoint_ && cues_track_ == frame->track_number() &&
+         !AddCuePoint(frame->timestamp(), cues_track_))) {
+      for (int32_t j = 0; i + j < frames_size_; ++j) {
+        frames_[j] = frames_[i + j];
       }
+      frames_size_ -= i;
+      return -1;
     }
 
     if (frame->timestamp() > last_timestamp_) {
@@ -4133,6 +4133,7 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
       return false;
 
     int32_t shift_left = 0;
+    bool wrote_frames = true;
 
     // TODO(fgalligan): Change this to use the durations of frames instead of
     // the next frame's start time if the duration is accurate.
@@ -4145,16 +4146,12 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
       const Frame* const frame_prev = frames_[i - 1];
       if (frame_prev->discard_padding() != 0)
         doc_type_version_ = 4;
-      if (!cluster->AddFrame(frame_prev)) {
-        delete frame_prev;
-        continue;
-      }
-
-      if (new_cuepoint_ && cues_track_ == frame_prev->track_number()) {
-        if (!AddCuePoint(frame_prev->timestamp(), cues_track_)) {
-          delete frame_prev;
-          continue;
-        }
+      // A frame that was queued has been accepted, so losing it is an error.
+      if (!cluster->AddFrame(frame_prev) ||
+          (new_cuepoint_ && cues_track_ == frame_prev->track_number() &&
+           !AddCuePoint(frame_prev->timestamp(), cues_track_))) {
+        wrote_frames = false;
+        break;
       }
 
       ++shift_left;
@@ -4178,6 +4175,9 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
 
       frames_size_ = new_frames_size;
     }
+
+    if (!wrote_frames)
+      return false;
   }
 
   return true;
-- 
2.43.0


From 26823977ea9399d63d9924ff7122094b5377a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:50 +0000
Subject: [PATCH 13/84] fix: write queued non-key frames that need a reference
 block

---
 mkvmuxer/mkvmuxer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 1356227..a5843ac 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3545,6 +3545,11 @@ bool Segment::AddGenericFrame(const Frame* frame) {
       delete new_frame;
       return false;
     }
+    if (!frame->CanBeSimpleBlock() && !frame->is_key() &&
+        !frame->reference_block_timestamp_set()) {
+      new_frame->set_reference_block_timestamp(
+          last_track_timestamp_[frame->track_number() - 1]);
+    }
     if (!QueueFrame(new_frame)) {
       delete new_frame;
       return false;
-- 
2.43.0


From 80737aea5ee2b9d91f8876251bd6f39726fb1095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:50 +0000
Subject: [PATCH 14/84] fix: refuse invalid frames instead of queueing them

---
 mkvmuxer/mkvmuxer.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index a5843ac..fa7b8fa 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3516,7 +3516,13 @@ bool Segment::AddGenericFrame(const Frame* frame) {
     return false;
 
   // Check if the track number is valid.
-  if (!tracks_.GetTrackByNumber(frame->track_number()))
+  if (!tracks_.GetTrackByNumber(frame->track_number()) ||
+      frame->track_number() > kMaxTrackNumber)
+    return false;
+
+  // Check the frame data before anything is changed or queued.
+  if (!frame->frame() || frame->length() == 0 ||
+      (frame->additional() && frame->additional_length() == 0))
     return false;
 
   if (frame->discard_padding() != 0)
-- 
2.43.0


From b03a750b659e0be0aca58f90f1d096ca54965a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:50 +0000
Subject: [PATCH 15/84] fix: do not leak the copied frame when adding it fails

---
 mkvmuxer/mkvmuxer.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index fa7b8fa..6fe081c 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3592,12 +3592,12 @@ bool Segment::AddGenericFrame(const Frame* frame) {
     frame_created = true;
   }
 
-  if (!cluster->AddFrame(frame))
+  if (!cluster->AddFrame(frame) ||
+      (new_cuepoint_ && cues_track_ == frame->track_number() &&
+       !AddCuePoint(frame->timestamp(), cues_track_))) {
+    if (frame_created)
+      delete frame;
     return false;
-
-  if (new_cuepoint_ && cues_track_ == frame->track_number()) {
-    if (!AddCuePoint(frame->timestamp(), cues_track_))
-      return false;
   }
 
   last_timestamp_ = frame->timestamp();
-- 
2.43.0


From 312dda9354928818b4b7e1b3b6a4682f00c3e368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:50 +0000
Subject: [PATCH 16/84] fix: refuse an automatic track number above 126

---
 mkvmuxer/mkvmuxer.cc | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 6fe081c..3bdeb2e 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -1773,16 +1773,6 @@ bool Tracks::AddTrack(Track* track, int32_t number) {
 
   const uint32_t count = track_entries_size_ + 1;
 
-  Track** const track_entries = new (std::nothrow) Track*[count];  // NOLINT
-  if (!track_entries)
-    return false;
-
-  for (uint32_t i = 0; i < track_entries_size_; ++i) {
-    track_entries[i] = track_entries_[i];
-  }
-
-  delete[] track_entries_;
-
   // Find the lowest availible track number > 0.
   if (track_num == 0) {
     track_num = count;
@@ -1792,14 +1782,27 @@ bool Tracks::AddTrack(Track* track, int32_t number) {
     do {
       exit = true;
       for (uint32_t i = 0; i < track_entries_size_; ++i) {
-        if (track_entries[i]->number() == track_num) {
+        if (track_entries_[i]->number() == track_num) {
           track_num++;
           exit = false;
           break;
         }
       }
     } while (!exit);
+
+    if (track_num > 0x7E)
+      return false;
   }
+
+  Track** const track_entries = new (std::nothrow) Track*[count];  // NOLINT
+  if (!track_entries)
+    return false;
+
+  for (uint32_t i = 0; i < track_entries_size_; ++i) {
+    track_entries[i] = track_entries_[i];
+  }
+
+  delete[] track_entries_;
   track->set_number(track_num);
 
   track_entries_ = track_entries;
-- 
2.43.0


From be69f66f7250ce1b90513bd5bfdbc9836d50a190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:51 +0000
Subject: [PATCH 17/84] fix: keep frames that follow a long gap while audio is
 queued

---
 mkvmuxer/mkvmuxer.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 3bdeb2e..5c35143 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3542,6 +3542,13 @@ bool Segment::AddGenericFrame(const Frame* frame) {
     if (rel_timecode > kMaxBlockTimecode) {
       force_new_cluster_ = true;
     }
+  } else if (frames_size_ > 0) {
+    // The first cluster will start at the earliest queued frame.
+    const uint64_t timecode_scale = segment_info_.timecode_scale();
+    const uint64_t frame_timecode = frame->timestamp() / timecode_scale;
+    const uint64_t first_timecode = frames_[0]->timestamp() / timecode_scale;
+    if (frame_timecode > first_timecode + kMaxBlockTimecode)
+      force_new_cluster_ = true;
   }
 
   // If the segment has a video track hold onto audio frames to make sure the
@@ -3957,13 +3964,18 @@ bool Segment::DoNewClusterProcessing(uint64_t track_number,
       return false;
 
     // Write the current frame to the current cluster (if TestFrame
-    // returns 0) or to a newly created cluster (TestFrame returns 1).
-    if (result <= 1)
+    // returns 0) or to a newly created cluster.
+    if (result == 0)
       return true;
 
-    // TestFrame returned 2, which means there was a large time
-    // difference between the cluster and the frame itself.  Do the
-    // test again, comparing the frame to the new cluster.
+    // The new cluster starts at the earliest queued frame.  If there is a large
+    // time difference between that and the frame itself, then do the test
+    // again, comparing the frame to the new cluster.
+    const uint64_t frame_timecode =
+        frame_timestamp_ns / segment_info_.timecode_scale();
+    if (frame_timecode - cluster_list_[cluster_list_size_ - 1]->timecode() <=
+        static_cast<uint64_t>(kMaxBlockTimecode))
+      return true;
   }
 }
 
-- 
2.43.0


From 45e973d27564116cd8848b98cf9271a3be4ad475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:51 +0000
Subject: [PATCH 18/84] fix: free the colour space string and replaced
 chromaticities

---
 mkvmuxer/mkvmuxer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 5c35143..4356f70 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -1080,6 +1080,10 @@ bool MasteringMetadata::SetChromaticity(
       return false;
   }
 
+  delete r_;
+  delete g_;
+  delete b_;
+  delete white_point_;
   r_ = r_ptr.release();
   g_ = g_ptr.release();
   b_ = b_ptr.release();
@@ -1432,6 +1436,7 @@ VideoTrack::VideoTrack(unsigned int* seed)
       projection_(NULL) {}
 
 VideoTrack::~VideoTrack() {
+  delete[] colour_space_;
   delete colour_;
   delete projection_;
 }
-- 
2.43.0


From e6a17aca059e82ed53f9df75b9aa8608db980898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:51 +0000
Subject: [PATCH 19/84] fix: accept mastering metadata with only a maximum
 luminance

---
 mkvmuxer/mkvmuxer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 4356f70..7db92e0 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -1002,7 +1002,8 @@ bool MasteringMetadata::Valid() const {
   }
   if (luminance_max_ != kValueNotPresent) {
     if (luminance_max_ < kMinLuminance || luminance_max_ > kMaxLuminanceMax ||
-        luminance_max_ < luminance_min_) {
+        (luminance_min_ != kValueNotPresent &&
+         luminance_max_ < luminance_min_)) {
       return false;
     }
   }
-- 
2.43.0


From e6eb75bc14c123f1d37beb70b5934b299f971624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:51 +0000
Subject: [PATCH 20/84] fix: refuse a negative cue index

---
 mkvmuxer/mkvmuxer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 7db92e0..5d16947 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -433,7 +433,7 @@ CuePoint* Cues::GetCueByIndex(int32_t index) const {
   if (cue_entries_ == NULL)
     return NULL;
 
-  if (index >= cue_entries_size_)
+  if (index < 0 || index >= cue_entries_size_)
     return NULL;
 
   return cue_entries_[index];
-- 
2.43.0


From 2d7dd2d65a696fa5ea7aa1c38768de30a9e7e411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:51 +0000
Subject: [PATCH 21/84] fix: treat every non-zero write status as a failure

---
 mkvmuxer/mkvmuxerutil.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxerutil.cc b/mkvmuxer/mkvmuxerutil.cc
index d1e835c..8276577 100644
--- a/mkvmuxer/mkvmuxerutil.cc
+++ b/mkvmuxer/mkvmuxerutil.cc
@@ -335,7 +335,7 @@ int32 SerializeInt(IMkvWriter* writer, int64 value, int32 size) {
 
     const int32 status = writer->Write(&b, 1);
 
-    if (status < 0)
+    if (status != 0)
       return status;
   }
 
@@ -363,7 +363,7 @@ int32 SerializeFloat(IMkvWriter* writer, float f) {
 
     const int32 status = writer->Write(&byte, 1);
 
-    if (status < 0)
+    if (status != 0)
       return status;
   }
 
-- 
2.43.0


From 4ec0ba0145a6c0bd7f001651a30bd32fd1fc26ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:51 +0000
Subject: [PATCH 22/84] fix: report a failed write of the date element

---
 mkvmuxer/mkvmuxer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 5d16947..6cce143 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3007,8 +3007,9 @@ bool SegmentInfo::Write(IMkvWriter* writer) {
       return false;
   }
 
-  if (date_utc_ != INT64_MIN)
-    WriteEbmlDateElement(writer, libwebm::kMkvDateUTC, date_utc_);
+  if (date_utc_ != INT64_MIN &&
+      !WriteEbmlDateElement(writer, libwebm::kMkvDateUTC, date_utc_))
+    return false;
 
   if (!WriteEbmlElement(writer, libwebm::kMkvMuxingApp, muxing_app_))
     return false;
-- 
2.43.0


From 842a4306a26e1606251358d54fdaf8e77b9d5bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:51 +0000
Subject: [PATCH 23/84] fix: estimate the duration from every track, whatever
 its number

---
 mkvmuxer/mkvmuxer.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 6cce143..474d3b2 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3270,8 +3270,7 @@ bool Segment::Finalize() {
       duration = duration_;
     } else {
       if (last_block_duration_ == 0 && estimate_file_duration_) {
-        const int num_tracks = static_cast<int>(tracks_.track_entries_size());
-        for (int i = 0; i < num_tracks; ++i) {
+        for (int i = 0; i < kMaxTrackNumber; ++i) {
           if (track_frames_written_[i] < 2)
             continue;
 
-- 
2.43.0


From fda1fb2a86c80a9cca5ba4d0aa909d95fc52feb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:51 +0000
Subject: [PATCH 24/84] fix: let the segment duration cover the last queued
 frame

---
 mkvmuxer/mkvmuxer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 474d3b2..f305d81 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -4140,6 +4140,7 @@ int Segment::WriteFramesAll() {
     if (frame->timestamp() > last_timestamp_) {
       last_timestamp_ = frame->timestamp();
       last_track_timestamp_[frame->track_number() - 1] = frame->timestamp();
+      last_block_duration_ = frame->duration();
     }
 
     delete frame;
@@ -4191,6 +4192,7 @@ bool Segment::WriteFramesLessThan(uint64_t timestamp) {
         last_timestamp_ = frame_prev->timestamp();
         last_track_timestamp_[frame_prev->track_number() - 1] =
             frame_prev->timestamp();
+        last_block_duration_ = frame_prev->duration();
       }
 
       delete frame_prev;
-- 
2.43.0


From 02b81c265174ed086c3d1e6200a736e6fc8ffb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:51 +0000
Subject: [PATCH 25/84] fix: refuse to move cues when there are none or no seek
 head to update

---
 mkvmuxer/mkvmuxer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index f305d81..03d79b8 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2767,7 +2767,7 @@ bool Cluster::WriteClusterHeader() {
 //
 // SeekHead Class
 
-SeekHead::SeekHead() : start_pos_(0ULL) {
+SeekHead::SeekHead() : start_pos_(-1) {
   for (int32_t i = 0; i < kSeekEntryCount; ++i) {
     seek_entry_id_[i] = 0;
     seek_entry_pos_[i] = 0;
@@ -3208,6 +3208,9 @@ bool Segment::CopyAndMoveCuesBeforeClusters(mkvparser::IMkvReader* reader,
                                             IMkvWriter* writer) {
   if (!writer->Seekable() || chunking_)
     return false;
+  // There must be a finalized file with cues to move.
+  if (mode_ != kFile || !output_cues_ || cluster_list_size_ < 1)
+    return false;
   const int64_t cluster_offset =
       cluster_list_[0]->size_position() - GetUIntSize(libwebm::kMkvCluster);
 
-- 
2.43.0


From 7af3b8a8a59c6c40ae8155b38daf5a13af0f9ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:04 +0000
Subject: [PATCH 26/84] fix: use an unsigned index over the track numbers

---
 mkvmuxer/mkvmuxer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 03d79b8..4231575 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -3273,7 +3273,7 @@ bool Segment::Finalize() {
       duration = duration_;
     } else {
       if (last_block_duration_ == 0 && estimate_file_duration_) {
-        for (int i = 0; i < kMaxTrackNumber; ++i) {
+        for (uint64_t i = 0; i < kMaxTrackNumber; ++i) {
           if (track_frames_written_[i] < 2)
             continue;
 
-- 
2.43.0


From 7f4f50b756394eaa2a34aa46647759c72bd021a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:01 +0000
Subject: [PATCH 27/84] fix: list chapters, tags and cues together in the seek
 head

---
 mkvmuxer/mkvmuxer.cc | 16 +++++++++++-----
 mkvmuxer/mkvmuxer.h  |  9 +++++++--
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 4231575..9b8d162 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2801,6 +2801,16 @@ bool SeekHead::Finalize(IMkvWriter* writer) const {
     if (payload_size == 0)
       return true;
 
+    // The entries must fit into the reserved space.
+    const uint64_t total_entry_size = kReservedEntryCount * MaxEntrySize();
+    const uint64_t total_size =
+        EbmlMasterElementSize(libwebm::kMkvSeekHead, total_entry_size) +
+        total_entry_size;
+    if (EbmlMasterElementSize(libwebm::kMkvSeekHead, payload_size) +
+            payload_size >
+        total_size)
+      return false;
+
     const int64_t pos = writer->Position();
     if (writer->Position(start_pos_))
       return false;
@@ -2823,10 +2833,6 @@ bool SeekHead::Finalize(IMkvWriter* writer) const {
       }
     }
 
-    const uint64_t total_entry_size = kSeekEntryCount * MaxEntrySize();
-    const uint64_t total_size =
-        EbmlMasterElementSize(libwebm::kMkvSeekHead, total_entry_size) +
-        total_entry_size;
     const int64_t size_left = total_size - (writer->Position() - start_pos_);
 
     const uint64_t bytes_written = WriteVoidElement(writer, size_left);
@@ -2841,7 +2847,7 @@ bool SeekHead::Finalize(IMkvWriter* writer) const {
 }
 
 bool SeekHead::Write(IMkvWriter* writer) {
-  const uint64_t entry_size = kSeekEntryCount * MaxEntrySize();
+  const uint64_t entry_size = kReservedEntryCount * MaxEntrySize();
   const uint64_t size =
       EbmlMasterElementSize(libwebm::kMkvSeekHead, entry_size);
 
diff --git a/mkvmuxer/mkvmuxer.h b/mkvmuxer/mkvmuxer.h
index 2c4bb9e..e81113b 100644
--- a/mkvmuxer/mkvmuxer.h
+++ b/mkvmuxer/mkvmuxer.h
@@ -1424,10 +1424,15 @@ class SeekHead {
   // a SeekHead element later. Returns true on success.
   bool Write(IMkvWriter* writer);
 
-  // We are going to put a cap on the number of Seek Entries.
-  constexpr static int32_t kSeekEntryCount = 5;
+  // We are going to put a cap on the number of Seek Entries: Info, Tracks,
+  // Chapters, Tags, Cluster and Cues.
+  constexpr static int32_t kSeekEntryCount = 6;
 
  private:
+  // The number of maximum size Seek Entries space is reserved for. The entries
+  // of a file are never all of the maximum size.
+  constexpr static int32_t kReservedEntryCount = 5;
+
   // Returns the maximum size in bytes of one seek entry.
   uint64_t MaxEntrySize() const;
 
-- 
2.43.0


From 91b72a6a9248b143e7aeca6820a392e95e909397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:14 +0000
Subject: [PATCH 28/84] fix: mkvparser: read chapter UIDs as unsigned integers

---
 mkvparser/mkvparser.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 9bb6c96..4d18658 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -3535,6 +3535,11 @@ long Chapters::Atom::Parse(IMkvReader* pReader, long long pos, long long size) {
         return status;
 
       m_uid = static_cast<unsigned long long>(val);
+
+      // The UID is unsigned: undo the sign extension of values whose most
+      // significant coded bit is set.
+      if (size < 8)
+        m_uid &= (1ULL << (8 * size)) - 1;
     } else if (id == libwebm::kMkvChapterTimeStart) {
       const long long val = UnserializeUInt(pReader, pos, size);
 
-- 
2.43.0


From 6a0a6d4be04f33ccdf8c9a7efc4e010130abc918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:11 +0000
Subject: [PATCH 29/84] fix: mkvparser: check for overflow when scaling
 cluster, cue and chapter times

---
 mkvparser/mkvparser.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 4d18658..fd43813 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2473,6 +2473,10 @@ long long CuePoint::GetTime(const Segment* pSegment) const {
   const long long scale = pInfo->GetTimeCodeScale();
   assert(scale >= 1);
 
+  // Check if m_timecode * scale could overflow.
+  if (m_timecode > LLONG_MAX / scale)
+    return -1;
+
   const long long time = scale * m_timecode;
 
   return time;
@@ -3589,6 +3593,10 @@ long long Chapters::Atom::GetTime(const Chapters* pChapters,
   if (timecode < 0)
     return -1;
 
+  // Check if timecode * timecode_scale could overflow.
+  if (timecode > LLONG_MAX / timecode_scale)
+    return -1;
+
   const long long result = timecode_scale * timecode;
 
   return result;
@@ -7119,6 +7127,10 @@ long long Cluster::GetTime() const {
   const long long scale = pInfo->GetTimeCodeScale();
   assert(scale >= 1);
 
+  // Check if m_timecode * scale could overflow.
+  if (m_timecode > LLONG_MAX / scale)
+    return -1;
+
   const long long t = m_timecode * scale;
 
   return t;
-- 
2.43.0


From cc58644c920dfae3aa504ca50f428644351ab343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:11 +0000
Subject: [PATCH 30/84] fix: mkvparser: don't rely on time order when seeking

---
 mkvparser/mkvparser.cc | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index fd43813..0614184 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -3210,15 +3210,15 @@ const Cluster* Segment::FindCluster(long long time_ns) const {
   }
 
   assert(i == j);
-  assert(i > 0);
   assert(i <= m_clusterCount);
 
-  const long k = i - 1;
+  // Nothing requires the clusters of a file to be in time order, so the search
+  // can miss the clusters that start before |time_ns|.
+  const long k = (i > 0) ? (i - 1) : 0;
 
   Cluster* const pCluster = m_clusters[k];
   assert(pCluster);
   assert(pCluster->m_index == k);
-  assert(pCluster->GetTime() <= time_ns);
 
   return pCluster;
 }
@@ -4871,7 +4871,6 @@ long Track::Seek(long long time_ns, const BlockEntry*& pResult) const {
   Cluster** const i = clusters + pCluster->GetIndex();
   assert(i);
   assert(*i == pCluster);
-  assert(pCluster->GetTime() <= time_ns);
 
   Cluster** const j = clusters + count;
 
@@ -4903,13 +4902,15 @@ long Track::Seek(long long time_ns, const BlockEntry*& pResult) const {
   }
 
   assert(lo == hi);
-  assert(lo > i);
   assert(lo <= j);
 
+  // The first block can start before its cluster does.
+  if (lo == i)
+    return 0;
+
   while (lo > i) {
     pCluster = *--lo;
     assert(pCluster);
-    assert(pCluster->GetTime() <= time_ns);
 
     pResult = pCluster->GetEntry(this);
 
@@ -5499,7 +5500,6 @@ long VideoTrack::Seek(long long time_ns, const BlockEntry*& pResult) const {
   Cluster** const i = clusters + pCluster->GetIndex();
   assert(i);
   assert(*i == pCluster);
-  assert(pCluster->GetTime() <= time_ns);
 
   Cluster** const j = clusters + count;
 
@@ -5531,12 +5531,14 @@ long VideoTrack::Seek(long long time_ns, const BlockEntry*& pResult) const {
   }
 
   assert(lo == hi);
-  assert(lo > i);
   assert(lo <= j);
 
-  pCluster = *--lo;
+  // The first block can start before its cluster does.
+  if (lo > i)
+    --lo;
+
+  pCluster = *lo;
   assert(pCluster);
-  assert(pCluster->GetTime() <= time_ns);
 
   pResult = pCluster->GetEntry(this, time_ns);
 
@@ -5546,7 +5548,6 @@ long VideoTrack::Seek(long long time_ns, const BlockEntry*& pResult) const {
   while (lo != i) {
     pCluster = *--lo;
     assert(pCluster);
-    assert(pCluster->GetTime() <= time_ns);
 
     pResult = pCluster->GetEntry(this, time_ns);
 
-- 
2.43.0


From 1ddcbe4a2236a3f3d662106228b8424514b259af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:11 +0000
Subject: [PATCH 31/84] fix: mkvparser: don't assert that a cluster parses when
 looking for an entry

---
 mkvparser/mkvparser.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 0614184..988b630 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -7472,12 +7472,11 @@ const BlockEntry* Cluster::GetEntry(const Track* pTrack,
       long len;
 
       const long status = Parse(pos, len);
-      assert(status >= 0);
 
       if (status > 0)  // completely parsed, and no more entries
         return pResult;
 
-      if (status < 0)  // should never happen
+      if (status < 0)  // error
         return 0;
 
       assert(m_entries);
-- 
2.43.0


From f620a7b6b83f43d13391d3e99fe6f95ed5fe4173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:42 +0000
Subject: [PATCH 32/84] fix: mkvparser: report read errors inside a block group
 instead of asserting

---
 mkvparser/mkvparser.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 988b630..f4ebf8d 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -7254,8 +7254,8 @@ long Cluster::CreateBlockGroup(long long start_offset, long long size,
     pos += len;  // consume ID
 
     const long long size = ReadUInt(pReader, pos, len);
-    assert(size >= 0);  // TODO
-    assert((pos + len) <= stop);
+    if (size < 0 || (pos + len) > stop)
+      return E_FILE_FORMAT_INVALID;
 
     pos += len;  // consume size
 
@@ -7280,7 +7280,6 @@ long Cluster::CreateBlockGroup(long long start_offset, long long size,
       long long time;
 
       long status = UnserializeInt(pReader, pos, size_, time);
-      assert(status == 0);
       if (status != 0)
         return -1;
 
-- 
2.43.0


From b498cdc921429bf8373836fc0ce9a0a9e898fac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:42 +0000
Subject: [PATCH 33/84] fix: mkvparser: refuse projection types outside the
 enumeration

---
 mkvparser/mkvparser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index f4ebf8d..658c45a 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -5263,7 +5263,7 @@ bool Projection::Parse(IMkvReader* reader, long long start, long long size,
     if (child_id == libwebm::kMkvProjectionType) {
       long long projection_type = kTypeNotPresent;
       projection_type = UnserializeUInt(reader, read_pos, child_size);
-      if (projection_type < 0)
+      if (projection_type < 0 || projection_type > kMesh)
         return false;
 
       projection_ptr->type = static_cast<ProjectionType>(projection_type);
-- 
2.43.0


From bac12022c7ae17890bedbba4522ab98acc75d461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:54 +0000
Subject: [PATCH 34/84] fix: mkvparser: report read errors inside a cue point
 instead of asserting

---
 mkvparser/mkvparser.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 658c45a..f485754 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2294,7 +2294,8 @@ bool CuePoint::Load(IMkvReader* pReader) {
     pos_ += len;  // consume ID
 
     const long long size = ReadUInt(pReader, pos_, len);
-    assert(size >= 0);
+    if (size < 0)
+      return false;
 
     pos_ += len;  // consume Size field
     // pos_ now points to start of payload
@@ -2369,11 +2370,12 @@ bool CuePoint::Load(IMkvReader* pReader) {
     pos += len;  // consume ID
 
     const long long size = ReadUInt(pReader, pos, len);
-    assert(size >= 0);
-    assert((pos + len) <= stop);
+    if (size < 0 || (pos + len) > stop)
+      return false;
 
     pos += len;  // consume Size field
-    assert((pos + size) <= stop);
+    if ((pos + size) > stop)
+      return false;
 
     if (id == libwebm::kMkvCueTrackPositions) {
       TrackPosition& tp = *p++;
-- 
2.43.0


From 6702ab9839877e3627e6d85e5dc3000037fa9a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:17 +0000
Subject: [PATCH 35/84] fix: mkvparser: don't assert when walking on from a
 preloaded cluster

---
 mkvparser/mkvparser.cc | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index f485754..73522ec 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2557,16 +2557,19 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
 
   long long pos = pCurr->m_element_start;
 
-  assert(m_size >= 0);  // TODO
-  const long long stop = m_start + m_size;  // end of segment
+  long long total, avail;
+
+  if (m_pReader->Length(&total, &avail) < 0)
+    return NULL;
+
+  // end of segment
+  const long long stop = (m_size >= 0) ? (m_start + m_size) : total;
 
   {
     long len;
 
     long long result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);
-    assert((pos + len) <= stop);  // TODO
-    if (result != 0)
+    if (result != 0 || (pos + len) > stop)
       return NULL;
 
     const long long id = ReadID(m_pReader, pos, len);
@@ -2577,15 +2580,17 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
 
     // Read Size
     result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);  // TODO
-    assert((pos + len) <= stop);  // TODO
+    if (result != 0 || (pos + len) > stop)
+      return NULL;
 
     const long long size = ReadUInt(m_pReader, pos, len);
-    assert(size > 0);  // TODO
+    if (size <= 0)  // error
+      return NULL;
     // assert((pCurr->m_size <= 0) || (pCurr->m_size == size));
 
     pos += len;  // consume length of size of element
-    assert((pos + size) <= stop);  // TODO
+    if ((pos + size) > stop)
+      return NULL;
 
     // Pos now points to start of payload
 
@@ -2598,9 +2603,7 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
     long len;
 
     long long result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);
-    assert((pos + len) <= stop);  // TODO
-    if (result != 0)
+    if (result != 0 || (pos + len) > stop)
       return NULL;
 
     const long long idpos = pos;  // pos of next (potential) cluster
@@ -2613,14 +2616,16 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
 
     // Read Size
     result = GetUIntLength(m_pReader, pos, len);
-    assert(result == 0);  // TODO
-    assert((pos + len) <= stop);  // TODO
+    if (result != 0 || (pos + len) > stop)
+      return NULL;
 
     const long long size = ReadUInt(m_pReader, pos, len);
-    assert(size >= 0);  // TODO
+    if (size < 0)  // error
+      return NULL;
 
     pos += len;  // consume length of size of element
-    assert((pos + size) <= stop);  // TODO
+    if ((pos + size) > stop)
+      return NULL;
 
     // Pos now points to start of payload
 
@@ -2635,7 +2640,8 @@ const Cluster* Segment::GetNext(const Cluster* pCurr) {
 
       const long status = Cluster::HasBlockEntries(this, off_next_, pos_, len_);
 
-      assert(status >= 0);
+      if (status < 0)  // error or underflow
+        return NULL;
 
       if (status > 0) {
         off_next = off_next_;
-- 
2.43.0


From d066ba137514ce3e90e2a22bc5ae0f480045e300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:17 +0000
Subject: [PATCH 36/84] fix: mkvparser: recognise the cluster when parsing on
 from a preloaded one

---
 mkvparser/mkvparser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 73522ec..acab958 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2781,7 +2781,7 @@ long Segment::ParseNext(const Cluster* pCurr, const Cluster*& pResult,
     if ((pos + len) > avail)
       return E_BUFFER_NOT_FULL;
 
-    const long long id = ReadUInt(m_pReader, pos, len);
+    const long long id = ReadID(m_pReader, pos, len);
 
     if (id != libwebm::kMkvCluster)
       return -1;
-- 
2.43.0


From 874cebd4c6aef70cf8914273216914ec9a3888ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:17 +0000
Subject: [PATCH 37/84] fix: mkvparser: keep the parse position while looking
 up a preloaded cluster

---
 mkvparser/mkvparser.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index acab958..402326e 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -3021,12 +3021,12 @@ long Segment::DoParseNext(const Cluster*& pResult, long long& pos, long& len) {
     assert(pNext);
     assert(pNext->m_index < 0);
 
-    pos = pNext->GetPosition();
-    assert(pos >= 0);
+    const long long off = pNext->GetPosition();
+    assert(off >= 0);
 
-    if (pos < off_next)
+    if (off < off_next)
       i = k + 1;
-    else if (pos > off_next)
+    else if (off > off_next)
       j = k;
     else {
       pResult = pNext;
-- 
2.43.0


From 4514e848dd7707eb9525851f09f64ae6290e0bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:29 +0000
Subject: [PATCH 38/84] fix: EBML lacing with a single frame codes no frame
 size

---
 mkvparser/mkvparser.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 402326e..77fda62 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -7907,6 +7907,16 @@ long Block::Parse(const Cluster* pCluster) {
     if (pos >= stop)
       return E_FILE_FORMAT_INVALID;
 
+    if (m_frame_count == 1) {  // the size of the last frame is not coded
+      if ((stop - pos) > LONG_MAX)
+        return E_FILE_FORMAT_INVALID;
+
+      m_frames[0].pos = pos;
+      m_frames[0].len = static_cast<long>(stop - pos);
+
+      return 0;  // success
+    }
+
     long long size = 0;
     int frame_count = m_frame_count;
 
-- 
2.43.0


From 6bfc39d1e867f5cb245fa3ebf54248c6a85d2e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:17 +0000
Subject: [PATCH 39/84] fix: load a preloaded cluster of unknown size

---
 mkvparser/mkvparser.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 77fda62..d3b9e91 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -1235,21 +1235,24 @@ long Segment::DoLoadCluster(long long& pos, long& len) {
       if (status == 0)  // no entries found
         return E_FILE_FORMAT_INVALID;
 
+      const long long element_size = pCluster->GetElementSize();
+
       if (cluster_size >= 0)
         pos += cluster_size;
-      else {
-        const long long element_size = pCluster->GetElementSize();
-
-        if (element_size <= 0)
-          return E_FILE_FORMAT_INVALID;  // TODO: handle this case
-
+      else if (element_size > 0)
         pos = pCluster->m_element_start + element_size;
-      }
 
       pCluster->m_index = idx;  // move from preloaded to loaded
       ++m_clusterCount;
       --m_clusterPreloadCount;
 
+      if (cluster_size < 0 && element_size <= 0) {  // end not known yet
+        m_pUnknownSize = pCluster;
+        m_pos = -pos;
+
+        return 0;  // partial success, as for a new cluster
+      }
+
       m_pos = pos;  // consume payload
       if (segment_stop >= 0 && m_pos > segment_stop)
         return E_FILE_FORMAT_INVALID;
-- 
2.43.0


From 8f4ec1584ff1176c6971a0807cff22f9445d6ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:42 +0000
Subject: [PATCH 40/84] fix: Segment::CreateInstance asks for the byte it needs
 next

---
 mkvparser/mkvparser.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index d3b9e91..9a95a0a 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -745,9 +745,12 @@ long long Segment::CreateInstance(IMkvReader* pReader, long long pos,
     long len;
     long long result = GetUIntLength(pReader, pos, len);
 
-    if (result)  // error, or too few available bytes
+    if (result < 0)  // error
       return result;
 
+    if (result > 0)  // too few available bytes
+      return pos + 1;
+
     if ((total >= 0) && ((pos + len) > total))
       return E_FILE_FORMAT_INVALID;
 
@@ -766,9 +769,12 @@ long long Segment::CreateInstance(IMkvReader* pReader, long long pos,
 
     result = GetUIntLength(pReader, pos, len);
 
-    if (result)  // error, or too few available bytes
+    if (result < 0)  // error
       return result;
 
+    if (result > 0)  // too few available bytes
+      return pos + 1;
+
     if ((total >= 0) && ((pos + len) > total))
       return E_FILE_FORMAT_INVALID;
 
-- 
2.43.0


From e8c8f61ecfa8c8749bc956377632aa1006023001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:22 +0000
Subject: [PATCH 41/84] fix: Webm2Pes: keep the middle PTS bits out of the low
 ones

The upper bits of the middle 15 bits were or'ed into the byte that holds
bits 7-14, so every time of 46.6 seconds or more was wrong.
---
 m2ts/webm2pes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/webm2pes.cc b/m2ts/webm2pes.cc
index a4169c0..4fdb751 100644
--- a/m2ts/webm2pes.cc
+++ b/m2ts/webm2pes.cc
@@ -59,7 +59,7 @@ void PesOptionalHeader::SetPtsBits(std::int64_t pts_90khz) {
 
   // bottom 7 bits of second PTS chunk.
   pts.bits <<= 8;
-  pts.bits |= (pts2 << 1);
+  pts.bits |= (pts2 << 1) & 0xff;
   // Marker.
   pts.bits |= 1;
 
-- 
2.43.0


From 3fe377e3dfd79e9362d0e503a451587dea6fbfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:22 +0000
Subject: [PATCH 42/84] fix: Webm2Pes: select blocks by track number, not track
 index

Track numbers need not be 1, 2, ... in file order.
---
 m2ts/webm2pes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/webm2pes.cc b/m2ts/webm2pes.cc
index 4fdb751..215bc5b 100644
--- a/m2ts/webm2pes.cc
+++ b/m2ts/webm2pes.cc
@@ -400,7 +400,7 @@ bool Webm2Pes::InitWebmParser() {
         fprintf(stderr, "Webm2Pes: Codec must be VP8 or VP9.\n");
         return false;
       }
-      video_track_num_ = track_index + 1;
+      video_track_num_ = static_cast<int>(track->GetNumber());
       break;
     }
   }
-- 
2.43.0


From b6592028c86f3ebe8259b758bf7c4c723a484afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:22 +0000
Subject: [PATCH 43/84] fix: Webm2Pes: escape start codes that span the BCMV
 header and the payload

The BCMV header ends in two 0 bytes. A payload beginning with 0x01 (or zeros
and 0x01) made them a start code, and one beginning with 0x03 looked escaped.
---
 m2ts/vpxpes_parser.cc | 12 ++++++------
 m2ts/vpxpes_parser.h  |  6 ++++--
 m2ts/webm2pes.cc      | 14 +++++++++++---
 m2ts/webm2pes.h       |  5 +++++
 4 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 4f6fe5c..046136e 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -129,7 +129,7 @@ bool VpxPesParser::ParsePesOptionalHeader(PesOptionalHeader* header) {
   std::size_t consumed = 0;
   PacketData poh_buffer;
   if (!RemoveStartCodeEmulationPreventionBytes(&pes_file_data_[read_pos_],
-                                               kPesOptionalHeaderSize,
+                                               kPesOptionalHeaderSize, 0,
                                                &poh_buffer, &consumed)) {
     return false;
   }
@@ -203,7 +203,7 @@ bool VpxPesParser::ParseBcmvHeader(BcmvHeader* header) {
   PacketData bcmv_buffer;
   std::size_t consumed = 0;
   if (!RemoveStartCodeEmulationPreventionBytes(&pes_file_data_[read_pos_],
-                                               kBcmvHeaderSize, &bcmv_buffer,
+                                               kBcmvHeaderSize, 0, &bcmv_buffer,
                                                &consumed)) {
     return false;
   }
@@ -289,7 +289,7 @@ bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
         header.packet_length - kPesOptionalHeaderSize;
     std::size_t consumed = 0;
     if (!RemoveStartCodeEmulationPreventionBytes(&pes_file_data_[read_pos_],
-                                                 fragment_length, &payload_,
+                                                 fragment_length, 0, &payload_,
                                                  &consumed)) {
       return false;
     }
@@ -300,11 +300,10 @@ bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
 
 bool VpxPesParser::RemoveStartCodeEmulationPreventionBytes(
     const std::uint8_t* raw_data, std::size_t bytes_required,
-    PacketData* processed_data, std::size_t* bytes_consumed) const {
+    std::size_t num_zeros, PacketData* processed_data, std::size_t* bytes_consumed) const {
   if (bytes_required == 0 || !processed_data)
     return false;
 
-  std::size_t num_zeros = 0;
   std::size_t bytes_copied = 0;
   const std::uint8_t* const end_of_input =
       &pes_file_data_[0] + pes_file_data_.size();
@@ -384,7 +383,8 @@ bool VpxPesParser::ParseNextPacket(PesHeader* header, VideoFrame* frame) {
   } else {
     std::size_t consumed = 0;
     if (!RemoveStartCodeEmulationPreventionBytes(
-            &pes_file_data_[read_pos_], payload_length, &payload_, &consumed)) {
+            &pes_file_data_[read_pos_], payload_length, kBcmvPaddingSize,
+            &payload_, &consumed)) {
       return false;
     }
     read_pos_ += consumed;
diff --git a/m2ts/vpxpes_parser.h b/m2ts/vpxpes_parser.h
index d18b4b7..89ba373 100644
--- a/m2ts/vpxpes_parser.h
+++ b/m2ts/vpxpes_parser.h
@@ -85,6 +85,7 @@ class VpxPesParser {
   const std::size_t kPesOptionalHeaderMarkerValue = 0x2;
   const std::size_t kWebm2PesOptHeaderRemainingSize = 6;
   const std::size_t kBcmvHeaderSize = 10;
+  const std::size_t kBcmvPaddingSize = 2;  // 0 bytes ending the BCMV header.
 
   VpxPesParser() = default;
   ~VpxPesParser() = default;
@@ -160,10 +161,11 @@ class VpxPesParser {
   // Removes start code emulation prevention bytes while copying data from
   // |raw_data| to |processed_data|. Returns true when |bytes_required| bytes
   // have been written to |processed_data|. Reports bytes consumed during the
-  // operation via |bytes_consumed|.
+  // operation via |bytes_consumed|. |num_zeros| is the number of 0 bytes that
+  // |raw_data| continues.
   bool RemoveStartCodeEmulationPreventionBytes(
       const std::uint8_t* raw_data, std::size_t bytes_required,
-      PacketData* processed_data, std::size_t* bytes_consumed) const;
+      std::size_t num_zeros, PacketData* processed_data, std::size_t* bytes_consumed) const;
 
   std::size_t pes_file_size_ = 0;
   PacketData payload_;
diff --git a/m2ts/webm2pes.cc b/m2ts/webm2pes.cc
index 215bc5b..096083e 100644
--- a/m2ts/webm2pes.cc
+++ b/m2ts/webm2pes.cc
@@ -491,8 +491,10 @@ bool Webm2Pes::WritePesPacket(const VideoFrame& frame,
         frame.buffer().data.get() + packet_payload_range.offset;
 
     const std::size_t bytes_to_copy = packet_payload_range.length - extra_bytes;
-    if (CopyAndEscapeStartCodes(payload_start, bytes_to_copy, packet_data) ==
-        false) {
+    // The payload follows the two 0 bytes that end the BCMV header: together
+    // they must not form a start code either.
+    if (CopyAndEscapeStartCodes(payload_start, bytes_to_copy, 2 /* num_zeros */,
+                                packet_data) == false) {
       fprintf(stderr, "Webm2Pes: Payload write failed.\n");
       return false;
     }
@@ -527,10 +529,16 @@ bool Webm2Pes::WritePesPacket(const VideoFrame& frame,
 bool CopyAndEscapeStartCodes(const std::uint8_t* raw_input,
                              std::size_t raw_input_length,
                              PacketDataBuffer* packet_buffer) {
+  return CopyAndEscapeStartCodes(raw_input, raw_input_length,
+                                 0 /* num_zeros */, packet_buffer);
+}
+
+bool CopyAndEscapeStartCodes(const std::uint8_t* raw_input,
+                             std::size_t raw_input_length, int num_zeros,
+                             PacketDataBuffer* packet_buffer) {
   if (raw_input == nullptr || raw_input_length < 1 || packet_buffer == nullptr)
     return false;
 
-  int num_zeros = 0;
   for (std::size_t i = 0; i < raw_input_length; ++i) {
     const uint8_t byte = raw_input[i];
 
diff --git a/m2ts/webm2pes.h b/m2ts/webm2pes.h
index 6dcb0fd..2ab39a1 100644
--- a/m2ts/webm2pes.h
+++ b/m2ts/webm2pes.h
@@ -269,6 +269,11 @@ class Webm2Pes {
 bool CopyAndEscapeStartCodes(const std::uint8_t* raw_input,
                              std::size_t raw_input_length,
                              PacketDataBuffer* packet_buffer);
+
+// As above, for input that continues data ending in |num_zeros| 0 bytes.
+bool CopyAndEscapeStartCodes(const std::uint8_t* raw_input,
+                             std::size_t raw_input_length, int num_zeros,
+                             PacketDataBuffer* packet_buffer);
 }  // namespace libwebm
 
 #endif  // LIBWEBM_M2TS_WEBM2PES_H_
-- 
2.43.0


From 02d27e978ddb087fd16df6899f7debcf9518597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:22 +0000
Subject: [PATCH 44/84] fix: VpxPesParser: remove emulation prevention bytes
 after longer runs of 0

The converter inserts 0x03 after two or more 0 bytes.
---
 m2ts/vpxpes_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 046136e..b692667 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -317,7 +317,7 @@ bool VpxPesParser::RemoveStartCodeEmulationPreventionBytes(
     const std::uint8_t byte = raw_data[i];
     if (byte == 0) {
       ++num_zeros;
-    } else if (byte == 0x3 && num_zeros == 2) {
+    } else if (byte == 0x3 && num_zeros >= 2) {
       skip = true;
       num_zeros = 0;
     } else {
-- 
2.43.0


From 360a04a7a74486b54f286aeab5530f55ba44afe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:22 +0000
Subject: [PATCH 45/84] fix: VpxPesParser: unescape the first fragment and stay
 inside the data

The first fragment of a fragmented frame was copied with its emulation
prevention bytes, and lengths shorter than the headers read out of bounds.
---
 m2ts/vpxpes_parser.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index b692667..2d693c6 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -261,12 +261,19 @@ bool VpxPesParser::IsPayloadFragmented(const PesHeader& header) const {
 
 bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
                                                std::size_t payload_length) {
+  if (pes_packet_length <= kPesOptionalHeaderSize + kBcmvHeaderSize ||
+      read_pos_ >= pes_file_data_.size()) {
+    return false;
+  }
   const std::size_t first_fragment_length =
       pes_packet_length - kPesOptionalHeaderSize - kBcmvHeaderSize;
-  for (std::size_t i = 0; i < first_fragment_length; ++i) {
-    payload_.push_back(pes_file_data_[read_pos_ + i]);
+  std::size_t first_consumed = 0;
+  if (!RemoveStartCodeEmulationPreventionBytes(
+          &pes_file_data_[read_pos_], first_fragment_length, kBcmvPaddingSize,
+          &payload_, &first_consumed)) {
+    return false;
   }
-  read_pos_ += first_fragment_length;
+  read_pos_ += first_consumed;
   parse_state_ = kFindStartCode;
 
   while (payload_.size() < payload_length) {
@@ -285,6 +292,10 @@ bool VpxPesParser::AccumulateFragmentedPayload(std::size_t pes_packet_length,
       return false;
     }
 
+    if (header.packet_length <= kPesOptionalHeaderSize ||
+        read_pos_ >= pes_file_data_.size()) {
+      return false;
+    }
     const std::size_t fragment_length =
         header.packet_length - kPesOptionalHeaderSize;
     std::size_t consumed = 0;
@@ -309,7 +320,7 @@ bool VpxPesParser::RemoveStartCodeEmulationPreventionBytes(
       &pes_file_data_[0] + pes_file_data_.size();
   std::size_t i;
   for (i = 0; bytes_copied < bytes_required; ++i) {
-    if (raw_data + i > end_of_input)
+    if (raw_data + i >= end_of_input)
       return false;
 
     bool skip = false;
-- 
2.43.0


From ec18ceec24b346de323ebefdb0fb916f4c324787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:22 +0000
Subject: [PATCH 46/84] fix: VpxPesParser: check sizes before reading headers

---
 m2ts/vpxpes_parser.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 2d693c6..641a55c 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -44,6 +44,8 @@ bool VpxPesParser::Open(const std::string& pes_file) {
   pes_file_data_.reserve(static_cast<size_t>(pes_file_size_));
   libwebm::FilePtr file = libwebm::FilePtr(std::fopen(pes_file.c_str(), "rb"),
                                            libwebm::FILEDeleter());
+  if (file == nullptr)
+    return false;
   int byte;
   while ((byte = fgetc(file.get())) != EOF) {
     pes_file_data_.push_back(static_cast<std::uint8_t>(byte));
@@ -60,7 +62,7 @@ bool VpxPesParser::Open(const std::string& pes_file) {
 }
 
 bool VpxPesParser::VerifyPacketStartCode() const {
-  if (read_pos_ + 2 > pes_file_data_.size())
+  if (read_pos_ + 2 >= pes_file_data_.size())
     return false;
 
   // PES packets all start with the byte sequence 0x0 0x0 0x1.
@@ -98,6 +100,9 @@ bool VpxPesParser::ParsePesHeader(PesHeader* header) {
   if (!VerifyPacketStartCode())
     return false;
 
+  if (BytesAvailable() < static_cast<int>(kPesHeaderSize))
+    return false;
+
   std::size_t pos = read_pos_;
   for (auto& a : header->start_code) {
     a = pes_file_data_[pos++];
@@ -197,8 +202,10 @@ bool VpxPesParser::ParsePesOptionalHeader(PesOptionalHeader* header) {
 
 // Parses and validates a BCMV header.
 bool VpxPesParser::ParseBcmvHeader(BcmvHeader* header) {
-  if (!header || parse_state_ != kParseBcmvHeader)
+  if (!header || parse_state_ != kParseBcmvHeader ||
+      read_pos_ >= pes_file_size_) {
     return false;
+  }
 
   PacketData bcmv_buffer;
   std::size_t consumed = 0;
@@ -372,6 +379,8 @@ bool VpxPesParser::ParseNextPacket(PesHeader* header, VideoFrame* frame) {
   }
 
   // BCMV header length includes the length of the BCMVHeader itself. Adjust:
+  if (header->bcmv_header.length <= BcmvHeader::size())
+    return false;
   const std::size_t payload_length =
       header->bcmv_header.length - BcmvHeader::size();
 
-- 
2.43.0


From a49d7b7ab3e089402d7d48603068e19bb908b69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:22 +0000
Subject: [PATCH 47/84] fix: VpxPesParser: read all 33 bits of the PTS

---
 m2ts/vpxpes_parser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m2ts/vpxpes_parser.cc b/m2ts/vpxpes_parser.cc
index 641a55c..5d631fe 100644
--- a/m2ts/vpxpes_parser.cc
+++ b/m2ts/vpxpes_parser.cc
@@ -181,8 +181,8 @@ bool VpxPesParser::ParsePesOptionalHeader(PesOptionalHeader* header) {
       return false;
     }
 
-    header->pts = (poh_buffer[offset] & 0xe) << 29 |
-                  ((ReadUint16(&poh_buffer[offset + 1]) & ~1) << 14) |
+    header->pts = static_cast<std::uint64_t>(poh_buffer[offset] & 0xe) << 29 |
+                  ((ReadUint16(&poh_buffer[offset + 1]) & 0xfffeu) << 14) |
                   (ReadUint16(&poh_buffer[offset + 3]) >> 1);
     offset += 5;
     bytes_left -= 5;
-- 
2.43.0


From ff349530ae36041ade2062ad750263c9640fc5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:22 +0000
Subject: [PATCH 48/84] fix: VpxPes2Ts: size the packet buffer instead of
 reserving it

Elements beyond size() were accessed.
---
 m2ts/vpxpes2ts.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/m2ts/vpxpes2ts.cc b/m2ts/vpxpes2ts.cc
index 21d4038..e428bbd 100644
--- a/m2ts/vpxpes2ts.cc
+++ b/m2ts/vpxpes2ts.cc
@@ -150,7 +150,7 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
   std::uint8_t continuity_counter = 0;
   std::size_t read_pos = 0;
 
-  ts_buffer_.reserve(kTsPacketSize);
+  ts_buffer_.resize(kTsPacketSize);
 
   while (bytes_to_packetize > 0) {
     if (continuity_counter > 0xf)
-- 
2.43.0


From fcea9f4c20be30c94c245644f16727450be3c290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:22 +0000
Subject: [PATCH 49/84] fix: VpxPes2Ts: continue the continuity counter from
 frame to frame

It restarted at 0 for every frame, which demuxers see as lost packets.
---
 m2ts/vpxpes2ts.cc | 8 ++------
 m2ts/vpxpes2ts.h  | 3 +++
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/m2ts/vpxpes2ts.cc b/m2ts/vpxpes2ts.cc
index e428bbd..93ab64f 100644
--- a/m2ts/vpxpes2ts.cc
+++ b/m2ts/vpxpes2ts.cc
@@ -147,15 +147,11 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
   const int kTsPayloadSize = 184;
   const int kTsPacketSize = kTsHeaderSize + kTsPayloadSize;
   int bytes_to_packetize = static_cast<int>(packet_data.size());
-  std::uint8_t continuity_counter = 0;
   std::size_t read_pos = 0;
 
   ts_buffer_.resize(kTsPacketSize);
 
   while (bytes_to_packetize > 0) {
-    if (continuity_counter > 0xf)
-      continuity_counter = 0;
-
     // Calculate payload size (need to know if we'll have to pad with an empty
     // adaptation field).
     int payload_size = std::min(bytes_to_packetize, kTsPayloadSize);
@@ -163,7 +159,7 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
     // Write the TS header.
     const TsHeader header(
         bytes_to_packetize == static_cast<int>(packet_data.size()),
-        payload_size != kTsPayloadSize, continuity_counter);
+        payload_size != kTsPayloadSize, continuity_counter_);
     header.Write(&ts_buffer_);
     int write_pos = kTsHeaderSize;
 
@@ -195,7 +191,7 @@ bool VpxPes2Ts::ReceivePacket(const PacketDataBuffer& packet_data) {
     }
 
     bytes_to_packetize -= payload_size;
-    continuity_counter++;
+    continuity_counter_ = (continuity_counter_ + 1) & 0xf;
 
     if (write_pos != kTsPacketSize) {
       fprintf(stderr, "VpxPes2Ts: Invalid packet length.\n");
diff --git a/m2ts/vpxpes2ts.h b/m2ts/vpxpes2ts.h
index 2609a1f..6873d30 100644
--- a/m2ts/vpxpes2ts.h
+++ b/m2ts/vpxpes2ts.h
@@ -38,6 +38,9 @@ class VpxPes2Ts : public PacketReceiverInterface {
   FilePtr output_file_;
   std::unique_ptr<Webm2Pes> pes_converter_;
   PacketDataBuffer ts_buffer_;
+
+  // Counts the packets of the stream, modulo 16.
+  std::uint8_t continuity_counter_ = 0;
 };
 
 }  // namespace libwebm
-- 
2.43.0


From 41708bd0f3e3be8a694ee6de6481ca594c67842f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:27 +0000
Subject: [PATCH 50/84] fix: ParseVP9SuperFrameIndex: accept sub frames smaller
 than the index

A superframe whose sub frames are together shorter than its index was refused.
---
 common/libwebm_util.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/common/libwebm_util.cc b/common/libwebm_util.cc
index d158250..f9cd505 100644
--- a/common/libwebm_util.cc
+++ b/common/libwebm_util.cc
@@ -54,8 +54,7 @@ bool ParseVP9SuperFrameIndex(const std::uint8_t* frame,
     // Consume the super frame index. Note: it's at the end of the super frame.
     const std::size_t length = frame_length - index_length;
 
-    if (length >= index_length &&
-        frame[frame_length - index_length] == marker) {
+    if (frame[length] == marker) {
       // Found a valid superframe index.
       const std::uint8_t* byte = frame + length + 1;
 
-- 
2.43.0


From a88baa6197caac8cc7597a951e1498645dfdd612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:44 +0000
Subject: [PATCH 51/84] fix: WebVTT: keep leading zeros of the milliseconds

00:01.050 was read as 1.5 seconds, and 00:01.005 likewise.
---
 webvtt/webvttparser.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/webvtt/webvttparser.cc b/webvtt/webvttparser.cc
index c79d642..20c72ef 100644
--- a/webvtt/webvttparser.cc
+++ b/webvtt/webvttparser.cc
@@ -476,17 +476,22 @@ int Parser::ParseTime(const std::string& line, std::string::size_type* idx_ptr,
   } else {
     ++idx;  // consume FULL STOP
 
+    const std::string::size_type start = idx;
+
     val = ParseNumber(line, &idx);
 
     if (val < 0)
       return val;
 
-    if (val >= 1000)
+    // The digits are a decimal fraction of a second: leading zeros count.
+    const std::string::size_type num_digits = idx - start;
+
+    if (num_digits > 3)
       return -1;
 
-    if (val < 10)
+    if (num_digits == 1)
       t.milliseconds = val * 100;
-    else if (val < 100)
+    else if (num_digits == 2)
       t.milliseconds = val * 10;
     else
       t.milliseconds = val;
-- 
2.43.0


From 665198e1aed16637096ba5b43268c0562c77c5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:44 +0000
Subject: [PATCH 52/84] fix: WebVTT: no overflow setting times of 596 hours and
 more

---
 webvtt/webvttparser.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/webvtt/webvttparser.cc b/webvtt/webvttparser.cc
index 20c72ef..af5b758 100644
--- a/webvtt/webvttparser.cc
+++ b/webvtt/webvttparser.cc
@@ -674,14 +674,14 @@ Time& Time::presentation(presentation_t d) {
     return *this;
   }
 
-  seconds = static_cast<int>(d / 1000);
-  milliseconds = static_cast<int>(d - 1000 * seconds);
+  milliseconds = static_cast<int>(d % 1000);
+  d /= 1000;
 
-  minutes = seconds / 60;
-  seconds -= 60 * minutes;
+  seconds = static_cast<int>(d % 60);
+  d /= 60;
 
-  hours = minutes / 60;
-  minutes -= 60 * hours;
+  minutes = static_cast<int>(d % 60);
+  hours = static_cast<int>(d / 60);
 
   return *this;
 }
-- 
2.43.0


From 64af0b0a48d54cfe9cc7290879537501ee4f9816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:42 +0000
Subject: [PATCH 53/84] fix: initialize the VP9 header parser's display size

An inter frame that takes its size from a reference leaves the display size
alone, so the accessors returned uninitialized memory.
---
 common/vp9_header_parser.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/vp9_header_parser.h b/common/vp9_header_parser.h
index 3e57514..b9458ab 100644
--- a/common/vp9_header_parser.h
+++ b/common/vp9_header_parser.h
@@ -47,6 +47,8 @@ class Vp9HeaderParser {
         refresh_frame_flags_(0),
         width_(0),
         height_(0),
+        display_width_(0),
+        display_height_(0),
         row_tiles_(0),
         column_tiles_(0),
         frame_parallel_mode_(0) {}
-- 
2.43.0


From 9e445447cea2d41863a48dea13a0540e9ae9afad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:42 +0000
Subject: [PATCH 54/84] fix: do not overflow the VP9 luma picture size

VP9 allows frames of up to 65536x65536.
---
 common/vp9_level_stats.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/vp9_level_stats.cc b/common/vp9_level_stats.cc
index 96a4bcc..b06bbe6 100644
--- a/common/vp9_level_stats.cc
+++ b/common/vp9_level_stats.cc
@@ -41,7 +41,7 @@ void Vp9LevelStats::AddFrame(const Vp9HeaderParser& parser, int64_t time_ns) {
 
   const int width = parser.width();
   const int height = parser.height();
-  const int64_t luma_picture_size = width * height;
+  const int64_t luma_picture_size = static_cast<int64_t>(width) * height;
   const int64_t luma_picture_breadth = (width > height) ? width : height;
   if (luma_picture_size > max_luma_picture_size_)
     max_luma_picture_size_ = luma_picture_size;
-- 
2.43.0


From 40e642dd13079046845a7b7807367c27b2f9e815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:42 +0000
Subject: [PATCH 55/84] fix: report only VP9 levels whose every limit admits
 the stream

A criterion that exceeded the limits of all levels was ignored, the number of
reference frames was only compared with the limit of the lowest level, and a
stream without altref frames was never given a level.
---
 common/vp9_level_stats.cc | 94 +++++++--------------------------------
 1 file changed, 15 insertions(+), 79 deletions(-)

diff --git a/common/vp9_level_stats.cc b/common/vp9_level_stats.cc
index b06bbe6..f281da0 100644
--- a/common/vp9_level_stats.cc
+++ b/common/vp9_level_stats.cc
@@ -134,90 +134,26 @@ Vp9Level Vp9LevelStats::GetLevel() const {
   const int min_altref_distance = GetMinimumAltrefDistance();
   const int max_ref_frames = GetMaxReferenceFrames();
 
-  int level_index = 0;
-  Vp9Level max_level = LEVEL_UNKNOWN;
   const double grace_multiplier =
       max_luma_sample_rate_grace_percent_ / 100.0 + 1.0;
   for (int i = 0; i < kNumVp9Levels; ++i) {
-    if (max_luma_sample_rate <=
-        Vp9LevelTable[i].max_luma_sample_rate * grace_multiplier) {
-      if (max_level < Vp9LevelTable[i].level) {
-        max_level = Vp9LevelTable[i].level;
-        level_index = i;
-      }
-      break;
+    const Vp9LevelRow& row = Vp9LevelTable[i];
+    // Only check CPB size for levels that are defined, and the altref distance
+    // when there is one.
+    if (max_luma_sample_rate <= row.max_luma_sample_rate * grace_multiplier &&
+        max_luma_picture_size <= row.max_luma_picture_size &&
+        max_luma_picture_breadth <= row.max_luma_picture_breadth &&
+        average_bitrate <= row.average_bitrate &&
+        (row.max_cpb_size <= 0 || max_cpb_size <= row.max_cpb_size) &&
+        compression_ratio >= row.compression_ratio &&
+        max_column_tiles <= row.max_tiles &&
+        (min_altref_distance == -1 ||
+         min_altref_distance >= row.min_altref_distance) &&
+        max_ref_frames <= row.max_ref_frames) {
+      return row.level;
     }
   }
-  for (int i = 0; i < kNumVp9Levels; ++i) {
-    if (max_luma_picture_size <= Vp9LevelTable[i].max_luma_picture_size) {
-      if (max_level < Vp9LevelTable[i].level) {
-        max_level = Vp9LevelTable[i].level;
-        level_index = i;
-      }
-      break;
-    }
-  }
-  for (int i = 0; i < kNumVp9Levels; ++i) {
-    if (max_luma_picture_breadth <= Vp9LevelTable[i].max_luma_picture_breadth) {
-      if (max_level < Vp9LevelTable[i].level) {
-        max_level = Vp9LevelTable[i].level;
-        level_index = i;
-      }
-      break;
-    }
-  }
-  for (int i = 0; i < kNumVp9Levels; ++i) {
-    if (average_bitrate <= Vp9LevelTable[i].average_bitrate) {
-      if (max_level < Vp9LevelTable[i].level) {
-        max_level = Vp9LevelTable[i].level;
-        level_index = i;
-      }
-      break;
-    }
-  }
-  for (int i = 0; i < kNumVp9Levels; ++i) {
-    // Only check CPB size for levels that are defined.
-    if (Vp9LevelTable[i].max_cpb_size > 0 &&
-        max_cpb_size <= Vp9LevelTable[i].max_cpb_size) {
-      if (max_level < Vp9LevelTable[i].level) {
-        max_level = Vp9LevelTable[i].level;
-        level_index = i;
-      }
-      break;
-    }
-  }
-  for (int i = 0; i < kNumVp9Levels; ++i) {
-    if (max_column_tiles <= Vp9LevelTable[i].max_tiles) {
-      if (max_level < Vp9LevelTable[i].level) {
-        max_level = Vp9LevelTable[i].level;
-        level_index = i;
-      }
-      break;
-    }
-  }
-
-  for (int i = 0; i < kNumVp9Levels; ++i) {
-    if (max_ref_frames <= Vp9LevelTable[i].max_ref_frames) {
-      if (max_level < Vp9LevelTable[i].level) {
-        max_level = Vp9LevelTable[i].level;
-        level_index = i;
-      }
-      break;
-    }
-  }
-
-  // Check if the current level meets the minimum altref distance requirement.
-  // If not, set to unknown level as we can't move up a level as the minimum
-  // altref distance get farther apart and we can't move down a level as we are
-  // already at the minimum level for all the other requirements.
-  if (min_altref_distance < Vp9LevelTable[level_index].min_altref_distance)
-    max_level = LEVEL_UNKNOWN;
-
-  // The minimum compression ratio has the same behavior as minimum altref
-  // distance.
-  if (compression_ratio < Vp9LevelTable[level_index].compression_ratio)
-    max_level = LEVEL_UNKNOWN;
-  return max_level;
+  return LEVEL_UNKNOWN;
 }
 
 int64_t Vp9LevelStats::GetMaxLumaSampleRate() const { return max_luma_size_; }
-- 
2.43.0


From b2eb8a761d8e9dd0a9df83e9f2aa56583506b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:42 +0000
Subject: [PATCH 56/84] fix: reject an invalid VP9 level that follows a valid
 one

---
 common/hdr_util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/hdr_util.cc b/common/hdr_util.cc
index 7381958..8bce77f 100644
--- a/common/hdr_util.cc
+++ b/common/hdr_util.cc
@@ -179,8 +179,10 @@ bool ParseVpxCodecPrivate(const uint8_t* private_data, int32_t length,
       const int levels[kNumLevels] = {10, 11, 20, 21, 30, 31, 40,
                                       41, 50, 51, 52, 60, 61, 62};
 
+      bool valid_level = false;
       for (int i = 0; i < kNumLevels; ++i) {
         if (priv_level == levels[i]) {
+          valid_level = true;
           if (features->level != Vp9CodecFeatures::kValueNotPresent &&
               features->level != priv_level) {
             return false;
@@ -189,7 +191,7 @@ bool ParseVpxCodecPrivate(const uint8_t* private_data, int32_t length,
           break;
         }
       }
-      if (features->level == Vp9CodecFeatures::kValueNotPresent)
+      if (!valid_level)
         return false;
     } else if (id_byte == kVp9BitDepthId) {
       const int priv_profile = static_cast<int>(private_data[offset++]);
-- 
2.43.0


From cf59e6e6fced8d25b71b2abf943018f1e2a7d9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:42 +0000
Subject: [PATCH 57/84] fix: check the allocated chromaticity, not the pointer
 to it

---
 common/hdr_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/hdr_util.cc b/common/hdr_util.cc
index 8bce77f..dccfd88 100644
--- a/common/hdr_util.cc
+++ b/common/hdr_util.cc
@@ -20,7 +20,7 @@ bool CopyPrimaryChromaticity(const mkvparser::PrimaryChromaticity& parser_pc,
                              PrimaryChromaticityPtr* muxer_pc) {
   muxer_pc->reset(new (std::nothrow)
                       mkvmuxer::PrimaryChromaticity(parser_pc.x, parser_pc.y));
-  if (!muxer_pc)
+  if (!*muxer_pc)
     return false;
   return true;
 }
-- 
2.43.0


From a91c03942a9f02142611dca9a26cedb9845405e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:42 +0000
Subject: [PATCH 58/84] fix: swap the middle bytes of 32-bit values

---
 common/webm_endian.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/webm_endian.cc b/common/webm_endian.cc
index b1ef7ca..6cf6afd 100644
--- a/common/webm_endian.cc
+++ b/common/webm_endian.cc
@@ -31,8 +31,8 @@ uint32_t swap32_check_little_endian(uint32_t value) {
   if (check.c[0] != 0x67)
     return 0;
 
-  return value << 24 | ((value << 8) & 0x0000FF00U) |
-         ((value >> 8) & 0x00FF0000U) | value >> 24;
+  return value << 24 | ((value << 8) & 0x00FF0000U) |
+         ((value >> 8) & 0x0000FF00U) | value >> 24;
 }
 
 // Swaps unsigned 64 bit values to big endian if needed. Returns |value|
-- 
2.43.0


From 0ea1b77b7119ea6bd17c9f617d069b2f8b9de908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 59/84] fix: WriteUIntSize: report values that have no coded
 form

With the size left to the function, a value above 2^56 - 2 overflowed the
shift and was reported as written although nothing was.
---
 mkvmuxer/mkvmuxerutil.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mkvmuxer/mkvmuxerutil.cc b/mkvmuxer/mkvmuxerutil.cc
index 8276577..1561327 100644
--- a/mkvmuxer/mkvmuxerutil.cc
+++ b/mkvmuxer/mkvmuxerutil.cc
@@ -401,12 +401,10 @@ int32 WriteUIntSize(IMkvWriter* writer, uint64 value, int32 size) {
       if (value <= max)
         break;
 
-      ++size;
+      if (++size > 8)
+        return -1;
     }
 
-    if (size > 8)
-      return false;
-
     value |= bit;
   }
 
-- 
2.43.0


From 5014a36c957671a147d789cc6808e3b6b8f83e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 60/84] fix: refuse fixed integer sizes above 8 bytes, before
 writing anything

Sizes above 2^32 were truncated for the payload but not for the size field.
---
 mkvmuxer/mkvmuxerutil.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mkvmuxer/mkvmuxerutil.cc b/mkvmuxer/mkvmuxerutil.cc
index 1561327..97a6852 100644
--- a/mkvmuxer/mkvmuxerutil.cc
+++ b/mkvmuxer/mkvmuxerutil.cc
@@ -444,15 +444,16 @@ bool WriteEbmlElement(IMkvWriter* writer, uint64 type, uint64 value,
   if (!writer)
     return false;
 
-  if (WriteID(writer, type))
-    return false;
-
   uint64 size = GetUIntSize(value);
   if (fixed_size > 0) {
-    if (size > fixed_size)
+    if (size > fixed_size || fixed_size > 8)
       return false;
     size = fixed_size;
   }
+
+  if (WriteID(writer, type))
+    return false;
+
   if (WriteUInt(writer, size))
     return false;
 
-- 
2.43.0


From e07e15fd46be251756cc315584fb31c44ec9911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 61/84] fix: WriteVoidElement: refuse size 0 without writing an
 ID

---
 mkvmuxer/mkvmuxerutil.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer/mkvmuxerutil.cc b/mkvmuxer/mkvmuxerutil.cc
index 97a6852..7d6c7ef 100644
--- a/mkvmuxer/mkvmuxerutil.cc
+++ b/mkvmuxer/mkvmuxerutil.cc
@@ -568,8 +568,9 @@ uint64 WriteFrame(IMkvWriter* writer, const Frame* const frame,
 }
 
 uint64 WriteVoidElement(IMkvWriter* writer, uint64 size) {
-  if (!writer)
-    return false;
+  // The smallest void element is an ID and an empty size.
+  if (!writer || size < 2)
+    return 0;
 
   // Subtract one for the void ID and the coded size.
   uint64 void_entry_size = size - 1 - GetCodedUIntSize(size - 1);
-- 
2.43.0


From 28bdfcfc4b9229dd774147d4feda5eb96a76f42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:52 +0000
Subject: [PATCH 62/84] fix: refuse binary elements longer than a single write

The size field held the full length but only its low 32 bits were written.
---
 mkvmuxer/mkvmuxerutil.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mkvmuxer/mkvmuxerutil.cc b/mkvmuxer/mkvmuxerutil.cc
index 7d6c7ef..7d6b442 100644
--- a/mkvmuxer/mkvmuxerutil.cc
+++ b/mkvmuxer/mkvmuxerutil.cc
@@ -515,7 +515,8 @@ bool WriteEbmlElement(IMkvWriter* writer, uint64 type, const char* value) {
 
 bool WriteEbmlElement(IMkvWriter* writer, uint64 type, const uint8* value,
                       uint64 size) {
-  if (!writer || !value || size < 1)
+  // IMkvWriter::Write takes a 32-bit length.
+  if (!writer || !value || size < 1 || size > 0xFFFFFFFFULL)
     return false;
 
   if (WriteID(writer, type))
-- 
2.43.0


From e63a713a82ed1dba407a3d6378498f4bfa67066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:15 +0000
Subject: [PATCH 63/84] fix: FileReader/IstreamReader::Skip reported skipping
 bytes beyond the end of the file

---
 webm_parser/src/file_reader.cc    | 25 ++++++++++++++++---------
 webm_parser/src/istream_reader.cc | 26 +++++++++++++++++---------
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/webm_parser/src/file_reader.cc b/webm_parser/src/file_reader.cc
index a2a397b..523d3ca 100644
--- a/webm_parser/src/file_reader.cc
+++ b/webm_parser/src/file_reader.cc
@@ -85,24 +85,31 @@ Status FileReader::Skip(std::uint64_t num_to_skip,
     return Status(Status::kEndOfFile);
   }
 
-  // Try seeking forward first.
+  // Try seeking forward first. Seeking beyond the end of the file succeeds, so
+  // read the last of the skipped bytes to make sure that it exists.
   long seek_offset = std::numeric_limits<long>::max();  // NOLINT
   if (num_to_skip < static_cast<unsigned long>(seek_offset)) {  // NOLINT
     seek_offset = static_cast<long>(num_to_skip);  // NOLINT
   }
-  if (!FSEEK_(file_.get(), seek_offset, SEEK_CUR)) {
-    *num_actually_skipped = static_cast<std::uint64_t>(seek_offset);
-    position_ += static_cast<std::uint64_t>(seek_offset);
-    if (static_cast<unsigned long>(seek_offset) == num_to_skip) {  // NOLINT
-      return Status(Status::kOkCompleted);
-    } else {
-      return Status(Status::kOkPartial);
+  if (!FSEEK_(file_.get(), seek_offset - 1, SEEK_CUR)) {
+    if (std::fgetc(file_.get()) != EOF) {
+      *num_actually_skipped = static_cast<std::uint64_t>(seek_offset);
+      position_ += static_cast<std::uint64_t>(seek_offset);
+      if (static_cast<unsigned long>(seek_offset) == num_to_skip) {  // NOLINT
+        return Status(Status::kOkCompleted);
+      } else {
+        return Status(Status::kOkPartial);
+      }
+    }
+    if (FSEEK_(file_.get(), -(seek_offset - 1), SEEK_CUR)) {
+      return Status(Status::kSeekFailed);
     }
   }
   std::clearerr(file_.get());
 
   // Seeking doesn't work on things like pipes, so if seeking failed then fall
-  // back to reading the data into a junk buffer.
+  // back to reading the data into a junk buffer. The same is done when there is
+  // less data than should be skipped.
   std::size_t actual = 0;
   do {
     std::uint8_t junk[1024];
diff --git a/webm_parser/src/istream_reader.cc b/webm_parser/src/istream_reader.cc
index 6993fc0..fb3af51 100644
--- a/webm_parser/src/istream_reader.cc
+++ b/webm_parser/src/istream_reader.cc
@@ -79,7 +79,8 @@ Status IstreamReader::Skip(std::uint64_t num_to_skip,
     return Status(Status::kEndOfFile);
   }
 
-  // Try seeking forward first.
+  // Try seeking forward first. Seeking beyond the end of the stream may succeed,
+  // so read the last of the skipped bytes to make sure that it exists.
   using unsigned_streamsize = std::make_unsigned<std::streamsize>::type;
   constexpr std::streamsize streamsize_max =
       std::numeric_limits<std::streamsize>::max();
@@ -89,19 +90,26 @@ Status IstreamReader::Skip(std::uint64_t num_to_skip,
   } else {
     seek_offset = static_cast<std::streamsize>(num_to_skip);
   }
-  if (istream_->seekg(seek_offset, std::ios_base::cur)) {
-    *num_actually_skipped = static_cast<std::uint64_t>(seek_offset);
-    position_ += static_cast<std::uint64_t>(seek_offset);
-    if (static_cast<std::uint64_t>(seek_offset) == num_to_skip) {
-      return Status(Status::kOkCompleted);
-    } else {
-      return Status(Status::kOkPartial);
+  if (istream_->seekg(seek_offset - 1, std::ios_base::cur)) {
+    if (istream_->get() != std::istream::traits_type::eof()) {
+      *num_actually_skipped = static_cast<std::uint64_t>(seek_offset);
+      position_ += static_cast<std::uint64_t>(seek_offset);
+      if (static_cast<std::uint64_t>(seek_offset) == num_to_skip) {
+        return Status(Status::kOkCompleted);
+      } else {
+        return Status(Status::kOkPartial);
+      }
+    }
+    istream_->clear();
+    if (!istream_->seekg(-(seek_offset - 1), std::ios_base::cur)) {
+      return Status(Status::kSeekFailed);
     }
   }
   istream_->clear();
 
   // Seeking doesn't work on things like pipes, so if seeking failed then fall
-  // back to reading the data into a junk buffer.
+  // back to reading the data into a junk buffer. The same is done when there is
+  // less data than should be skipped.
   std::size_t actual = 0;
   do {
     char junk[1024];
-- 
2.43.0


From 7ec7792bccce66c93c2217228ca04407557ceb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:15 +0000
Subject: [PATCH 64/84] fix: FileReader/IstreamReader::Skip stopped after one
 piece because the loop variable was shadowed

---
 webm_parser/src/file_reader.cc    | 2 +-
 webm_parser/src/istream_reader.cc | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/webm_parser/src/file_reader.cc b/webm_parser/src/file_reader.cc
index 523d3ca..3945add 100644
--- a/webm_parser/src/file_reader.cc
+++ b/webm_parser/src/file_reader.cc
@@ -118,7 +118,7 @@ Status FileReader::Skip(std::uint64_t num_to_skip,
       num_to_read = static_cast<std::size_t>(num_to_skip);
     }
 
-    std::size_t actual =
+    actual =
         std::fread(static_cast<void*>(junk), 1, num_to_read, file_.get());
     *num_actually_skipped += static_cast<std::uint64_t>(actual);
     position_ += static_cast<std::uint64_t>(actual);
diff --git a/webm_parser/src/istream_reader.cc b/webm_parser/src/istream_reader.cc
index fb3af51..864d9d6 100644
--- a/webm_parser/src/istream_reader.cc
+++ b/webm_parser/src/istream_reader.cc
@@ -110,7 +110,7 @@ Status IstreamReader::Skip(std::uint64_t num_to_skip,
   // Seeking doesn't work on things like pipes, so if seeking failed then fall
   // back to reading the data into a junk buffer. The same is done when there is
   // less data than should be skipped.
-  std::size_t actual = 0;
+  std::streamsize actual = 0;
   do {
     char junk[1024];
     std::streamsize num_to_read = static_cast<std::streamsize>(sizeof(junk));
@@ -119,7 +119,7 @@ Status IstreamReader::Skip(std::uint64_t num_to_skip,
     }
 
     istream_->read(junk, num_to_read);
-    std::streamsize actual = istream_->gcount();
+    actual = istream_->gcount();
     *num_actually_skipped += static_cast<std::uint64_t>(actual);
     position_ += static_cast<std::uint64_t>(actual);
     num_to_skip -= static_cast<std::uint64_t>(actual);
-- 
2.43.0


From 8ce70cab61bffed85d2d9135175d58db06510aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:15 +0000
Subject: [PATCH 65/84] fix: FileReader::Seek used a null file for an empty
 reader

---
 webm_parser/src/file_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webm_parser/src/file_reader.cc b/webm_parser/src/file_reader.cc
index 3945add..8ffa3a8 100644
--- a/webm_parser/src/file_reader.cc
+++ b/webm_parser/src/file_reader.cc
@@ -137,7 +137,7 @@ Status FileReader::Skip(std::uint64_t num_to_skip,
 }
 
 Status FileReader::Seek(std::uint64_t seek_position) {
-  if (FSEEK_(file_.get(), seek_position, SEEK_SET)) {
+  if (file_ == nullptr || FSEEK_(file_.get(), seek_position, SEEK_SET)) {
     return Status(Status::kSeekFailed);
   }
   position_ = seek_position;
-- 
2.43.0


From 0f072f697381471288d400619c730e9f1f6fff58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:15 +0000
Subject: [PATCH 66/84] fix: MkvReader asserted on a pipe instead of failing to
 open it

---
 mkvparser/mkvreader.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mkvparser/mkvreader.cc b/mkvparser/mkvreader.cc
index 4672604..5c16a47 100644
--- a/mkvparser/mkvreader.cc
+++ b/mkvparser/mkvreader.cc
@@ -9,8 +9,6 @@
 
 #include <sys/types.h>
 
-#include <cassert>
-
 namespace mkvparser {
 
 MkvReader::MkvReader() : m_file(NULL), reader_owns_file_(true) {}
@@ -57,10 +55,11 @@ bool MkvReader::GetFileSize() {
 
   m_length = _ftelli64(m_file);
 #else
-  fseek(m_file, 0L, SEEK_END);
+  m_length = -1;
+  if (fseek(m_file, 0L, SEEK_END))
+    return false;  // error
   m_length = ftell(m_file);
 #endif
-  assert(m_length >= 0);
 
   if (m_length < 0)
     return false;
-- 
2.43.0


From fcca241b367297eafe5937c6ee6cbbf480593b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:15 +0000
Subject: [PATCH 67/84] fix: MkvReader::Read ignored a failed seek and returned
 bytes from elsewhere

---
 mkvparser/mkvreader.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mkvparser/mkvreader.cc b/mkvparser/mkvreader.cc
index 5c16a47..ab4e9e7 100644
--- a/mkvparser/mkvreader.cc
+++ b/mkvparser/mkvreader.cc
@@ -118,15 +118,18 @@ int MkvReader::Read(long long offset, long len, unsigned char* buffer) {
   if (status)
     return -1;  // error
 #elif defined(_WIN32)
-  fseeko64(m_file, static_cast<off_t>(offset), SEEK_SET);
+  if (fseeko64(m_file, static_cast<off_t>(offset), SEEK_SET))
+    return -1;  // error
 #elif !(defined(__ANDROID__) && __ANDROID_API__ < 24 && !defined(__LP64__) && \
         defined(_FILE_OFFSET_BITS) && _FILE_OFFSET_BITS == 64)
   // POSIX.1 has fseeko and ftello. fseeko and ftello are not available before
   // Android API level 24. See
   // https://android.googlesource.com/platform/bionic/+/main/docs/32-bit-abi.md
-  fseeko(m_file, static_cast<off_t>(offset), SEEK_SET);
+  if (fseeko(m_file, static_cast<off_t>(offset), SEEK_SET))
+    return -1;  // error
 #else
-  fseek(m_file, static_cast<long>(offset), SEEK_SET);
+  if (fseek(m_file, static_cast<long>(offset), SEEK_SET))
+    return -1;  // error
 #endif
 
   const size_t size = fread(buffer, 1, len, m_file);
-- 
2.43.0


From 5e168d140dcc4653d29b0f341a8c0d2b28daf89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:48 +0000
Subject: [PATCH 68/84] fix: webm_info printed VP9 codec features that are not
 present

---
 webm_info.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/webm_info.cc b/webm_info.cc
index e0ac153..a91b31e 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -387,16 +387,20 @@ bool OutputTracks(const mkvparser::Segment& segment, const Options& options,
             fprintf(stderr, "Error parsing VpxCodecPrivate.\n");
             return false;
           }
-          if (features.profile != -1)
+          if (features.profile !=
+              libwebm::Vp9CodecFeatures::kValueNotPresent)
             fprintf(o, "%sVP9 profile            : %d\n",
                     indent->indent_str().c_str(), features.profile);
-          if (features.level != -1)
+          if (features.level !=
+              libwebm::Vp9CodecFeatures::kValueNotPresent)
             fprintf(o, "%sVP9 level              : %d\n",
                     indent->indent_str().c_str(), features.level);
-          if (features.bit_depth != -1)
+          if (features.bit_depth !=
+              libwebm::Vp9CodecFeatures::kValueNotPresent)
             fprintf(o, "%sVP9 bit_depth          : %d\n",
                     indent->indent_str().c_str(), features.bit_depth);
-          if (features.chroma_subsampling != -1)
+          if (features.chroma_subsampling !=
+              libwebm::Vp9CodecFeatures::kValueNotPresent)
             fprintf(o, "%sVP9 chroma subsampling : %d\n",
                     indent->indent_str().c_str(), features.chroma_subsampling);
         }
-- 
2.43.0


From a26a634cdae1ec3ac247763695b0841cf25b2aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:44 +0000
Subject: [PATCH 69/84] fix: webm_info -all left the SeekHead out

---
 webm_info.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/webm_info.cc b/webm_info.cc
index a91b31e..d9cc6fa 100644
--- a/webm_info.cc
+++ b/webm_info.cc
@@ -93,6 +93,7 @@ void Options::SetAll(bool value) {
   output_ebml_header = value;
   output_seconds = value;
   output_segment = value;
+  output_seekhead = value;
   output_segment_info = value;
   output_tracks = value;
   output_clusters = value;
-- 
2.43.0


From 40305d707d8986a5de4724f833ac1b19fdef5b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:31 +0000
Subject: [PATCH 70/84] fix: mkvparser_sample labelled the pose roll as pitch

---
 mkvparser_sample.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mkvparser_sample.cc b/mkvparser_sample.cc
index f285c3e..70a531b 100644
--- a/mkvparser_sample.cc
+++ b/mkvparser_sample.cc
@@ -315,7 +315,7 @@ int main(int argc, char* argv[]) {
         if (projection->pose_pitch != mkvparser::Projection::kValueNotPresent)
           printf("\t\t\tProjectionPosePitch: %f\n", projection->pose_pitch);
         if (projection->pose_roll != mkvparser::Projection::kValueNotPresent)
-          printf("\t\t\tProjectionPosePitch: %f\n", projection->pose_roll);
+          printf("\t\t\tProjectionPoseRoll: %f\n", projection->pose_roll);
       }
     }
 
-- 
2.43.0


From 74321c0eacbae876960c665bf439f69c6ccb7be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:06 +0000
Subject: [PATCH 71/84] fix: mkvmuxer_sample wrote the frames of every audio
 (video) track to the last one

---
 mkvmuxer_sample.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mkvmuxer_sample.cc b/mkvmuxer_sample.cc
index 9be2ff9..2044000 100644
--- a/mkvmuxer_sample.cc
+++ b/mkvmuxer_sample.cc
@@ -11,6 +11,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <list>
+#include <map>
 #include <memory>
 #include <new>
 #include <string>
@@ -419,6 +420,7 @@ int main(int argc, char* argv[]) {
   unsigned long i = 0;
   uint64_t vid_track = 0;  // no track added
   uint64_t aud_track = 0;  // no track added
+  std::map<long long, uint64_t> output_tracks;  // by input track number
 
   using mkvparser::Track;
 
@@ -452,6 +454,7 @@ int main(int argc, char* argv[]) {
         printf("\n Could not add video track.\n");
         return EXIT_FAILURE;
       }
+      output_tracks[parser_track->GetNumber()] = vid_track;
 
       mkvmuxer::VideoTrack* const video = static_cast<mkvmuxer::VideoTrack*>(
           muxer_segment.GetTrackByNumber(vid_track));
@@ -617,6 +620,7 @@ int main(int argc, char* argv[]) {
         printf("\n Could not add audio track.\n");
         return EXIT_FAILURE;
       }
+      output_tracks[parser_track->GetNumber()] = aud_track;
 
       mkvmuxer::AudioTrack* const audio = static_cast<mkvmuxer::AudioTrack*>(
           muxer_segment.GetTrackByNumber(aud_track));
@@ -735,8 +739,7 @@ int main(int argc, char* argv[]) {
           mkvmuxer::Frame muxer_frame;
           if (!muxer_frame.Init(data, frame.len))
             return EXIT_FAILURE;
-          muxer_frame.set_track_number(track_type == Track::kAudio ? aud_track
-                                                                   : vid_track);
+          muxer_frame.set_track_number(output_tracks[trackNum]);
           if (block->GetDiscardPadding())
             muxer_frame.set_discard_padding(block->GetDiscardPadding());
           muxer_frame.set_timestamp(time_ns);
-- 
2.43.0


From ce70c7f6e8172cdcb6a2649583f9dad19385b23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:54 +0000
Subject: [PATCH 72/84] fix: mkvmuxer_sample -copy_tags failed on input with a
 tag without a text

---
 mkvmuxer_sample.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mkvmuxer_sample.cc b/mkvmuxer_sample.cc
index 2044000..a6cc141 100644
--- a/mkvmuxer_sample.cc
+++ b/mkvmuxer_sample.cc
@@ -409,6 +409,9 @@ int main(int argc, char* argv[]) {
       for (int j = 0; j < tag->GetSimpleTagCount(); j++) {
         const mkvparser::Tags::SimpleTag* const simple_tag =
             tag->GetSimpleTag(j);
+        // The muxer only writes tags which have both a name and a text.
+        if (!simple_tag->GetTagName() || !simple_tag->GetTagString())
+          continue;
         muxer_tag->add_simple_tag(simple_tag->GetTagName(),
                                   simple_tag->GetTagString());
       }
-- 
2.43.0


From 37fa36c14fdf7ace03112936c0ad345c69cf17c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:58 +0000
Subject: [PATCH 73/84] fix: mkvmuxer_sample overflowed on WebVTT cue times
 beyond the range of nanoseconds

---
 sample_muxer_metadata.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/sample_muxer_metadata.cc b/sample_muxer_metadata.cc
index 6eadcfd..c408cc4 100644
--- a/sample_muxer_metadata.cc
+++ b/sample_muxer_metadata.cc
@@ -12,11 +12,19 @@
 #include "sample_muxer_metadata.h"
 
 #include <cstdio>
+#include <limits>
 #include <string>
 
 #include "mkvmuxer/mkvmuxer.h"
 #include "webvtt/vttreader.h"
 
+namespace {
+
+// The last time (in milliseconds) that can be expressed in nanoseconds.
+const int64_t kMaxTimeMs = std::numeric_limits<int64_t>::max() / 1000000;
+
+}  // namespace
+
 SampleMuxerMetadata::SampleMuxerMetadata() : segment_(NULL) {}
 
 bool SampleMuxerMetadata::Init(mkvmuxer::Segment* segment) {
@@ -142,6 +150,11 @@ bool SampleMuxerMetadata::ParseChapters(const char* file,
       return false;
     }
 
+    if (c.stop_time.presentation() > kMaxTimeMs) {
+      printf("bad WebVTT cue timestamp (too large)\n");
+      return false;
+    }
+
     t = c.start_time;
     cues.push_back(c);
   }
@@ -298,6 +311,11 @@ bool SampleMuxerMetadata::Parse(const char* file, Kind /* kind */,
       return false;
     }
 
+    if (c.stop_time.presentation() > kMaxTimeMs) {
+      printf("bad WebVTT cue timestamp (too large)\n");
+      return false;
+    }
+
     cues_set_.insert(cue);
   }
 }
-- 
2.43.0


From a88c741460bf03de328fa72016accbba01ca2daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:58 +0000
Subject: [PATCH 74/84] fix: mkvmuxer_sample accepted projection types that do
 not exist

---
 mkvmuxer_sample.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mkvmuxer_sample.cc b/mkvmuxer_sample.cc
index a6cc141..14426ff 100644
--- a/mkvmuxer_sample.cc
+++ b/mkvmuxer_sample.cc
@@ -487,6 +487,11 @@ int main(int argc, char* argv[]) {
         }
         // Override the values that came from parser if set on command line.
         if (projection_type != mkvparser::Projection::kTypeNotPresent) {
+          if (projection_type < mkvparser::Projection::kRectangular ||
+              projection_type > mkvparser::Projection::kMesh) {
+            printf("\n Projection type is not valid.\n");
+            return EXIT_FAILURE;
+          }
           muxer_projection.set_type(
               static_cast<MuxerProjType>(projection_type));
           if (projection_type == mkvparser::Projection::kRectangular &&
-- 
2.43.0


From 09a51be25f671c7d0ab052a7b81826177734335f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:58 +0000
Subject: [PATCH 75/84] fix: mkvmuxer_sample converted sample rates outside the
 range of int

---
 mkvmuxer_sample.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mkvmuxer_sample.cc b/mkvmuxer_sample.cc
index 14426ff..0d95b42 100644
--- a/mkvmuxer_sample.cc
+++ b/mkvmuxer_sample.cc
@@ -10,6 +10,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 #include <list>
 #include <map>
 #include <memory>
@@ -619,6 +620,11 @@ int main(int argc, char* argv[]) {
           static_cast<const mkvparser::AudioTrack*>(parser_track);
       const long long channels = pAudioTrack->GetChannels();
       const double sample_rate = pAudioTrack->GetSamplingRate();
+      if (!(sample_rate >= 0.0 &&
+            sample_rate <= std::numeric_limits<int>::max())) {
+        printf("\n Sample rate is not valid.\n");
+        return EXIT_FAILURE;
+      }
 
       // Add the audio track to the muxer
       aud_track = muxer_segment.AddAudioTrack(static_cast<int>(sample_rate),
-- 
2.43.0


From b60997be445e35a0fa1bf4e82eb4452c953735d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:58 +0000
Subject: [PATCH 76/84] fix: vttdemux overflowed on large block durations

---
 vttdemux.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vttdemux.cc b/vttdemux.cc
index 186783b..f025050 100644
--- a/vttdemux.cc
+++ b/vttdemux.cc
@@ -9,6 +9,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 #include <map>
 #include <memory>
 #include <string>
@@ -879,6 +880,13 @@ bool vttdemux::WriteCueTimings(FILE* f, FrameParser* parser) {
   if (timecode_scale <= 0)
     return false;
 
+  // The stop time must not exceed the range of |mkvtime_t|.
+  const mkvtime_t max_ns = std::numeric_limits<mkvtime_t>::max();
+  const mkvtime_t max_duration_ns = start_ns < 0 ? max_ns : max_ns - start_ns;
+
+  if (duration_timecode > max_duration_ns / timecode_scale)
+    return false;
+
   const mkvtime_t duration_ns = duration_timecode * timecode_scale;
   const mkvtime_t stop_ns = start_ns + duration_ns;
 
-- 
2.43.0


From bc9fabec39d18a34f0822dcd8e135c25b30f5a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:10 +0000
Subject: [PATCH 77/84] fix: skip the sign of the VP9 quantizer deltas

---
 common/vp9_header_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/vp9_header_parser.cc b/common/vp9_header_parser.cc
index c017d7f..6edfee6 100644
--- a/common/vp9_header_parser.cc
+++ b/common/vp9_header_parser.cc
@@ -259,7 +259,7 @@ void Vp9HeaderParser::ParseTileInfo() {
 
 void Vp9HeaderParser::SkipDeltaQ() {
   if (ReadBit())
-    VpxReadLiteral(4);
+    VpxReadLiteral(5);  // Consume delta_q + sign
 }
 
 int Vp9HeaderParser::AlignPowerOfTwo(int value, int n) {
-- 
2.43.0


From 62e2f002841ab9b79d5b775b4fcaf2643b237ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:08 +0000
Subject: [PATCH 78/84] fix: end a cluster of unknown size where its segment
 ends

---
 mkvparser/mkvparser.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 9a95a0a..cf9c7f6 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -6338,6 +6338,14 @@ long Cluster::Parse(long long& pos, long& len) const {
   if (total >= 0 && avail > total)
     return E_FILE_FORMAT_INVALID;
 
+  // A cluster of unknown size ends where its segment does, if not before.
+  if (m_pSegment->m_size >= 0) {
+    const long long segment_stop = m_pSegment->m_start + m_pSegment->m_size;
+
+    if (total < 0 || segment_stop < total)
+      total = segment_stop;
+  }
+
   pos = m_pos;
 
   for (;;) {
-- 
2.43.0


From 1412089ef5d616ea3b360a87f182c250296406ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:54 +0000
Subject: [PATCH 79/84] fix: take the times given to Cluster in timecode units

Cluster::AddFrame(), AddFrameWithAdditional(), AddFrameWithDiscardPadding()
and AddMetadata() document their times in timecode units, but passed them on
as if they were nanoseconds.
---
 mkvmuxer/mkvmuxer.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mkvmuxer/mkvmuxer.cc b/mkvmuxer/mkvmuxer.cc
index 9b8d162..b0f5e62 100644
--- a/mkvmuxer/mkvmuxer.cc
+++ b/mkvmuxer/mkvmuxer.cc
@@ -2507,7 +2507,7 @@ bool Cluster::AddFrame(const uint8_t* data, uint64_t length,
   if (!frame.Init(data, length))
     return false;
   frame.set_track_number(track_number);
-  frame.set_timestamp(abs_timecode);
+  frame.set_timestamp(abs_timecode * timecode_scale_);
   frame.set_is_key(is_key);
   return QueueOrWriteFrame(&frame);
 }
@@ -2526,7 +2526,7 @@ bool Cluster::AddFrameWithAdditional(const uint8_t* data, uint64_t length,
     return false;
   }
   frame.set_track_number(track_number);
-  frame.set_timestamp(abs_timecode);
+  frame.set_timestamp(abs_timecode * timecode_scale_);
   frame.set_is_key(is_key);
   return QueueOrWriteFrame(&frame);
 }
@@ -2540,7 +2540,7 @@ bool Cluster::AddFrameWithDiscardPadding(const uint8_t* data, uint64_t length,
     return false;
   frame.set_discard_padding(discard_padding);
   frame.set_track_number(track_number);
-  frame.set_timestamp(abs_timecode);
+  frame.set_timestamp(abs_timecode * timecode_scale_);
   frame.set_is_key(is_key);
   return QueueOrWriteFrame(&frame);
 }
@@ -2552,8 +2552,8 @@ bool Cluster::AddMetadata(const uint8_t* data, uint64_t length,
   if (!frame.Init(data, length))
     return false;
   frame.set_track_number(track_number);
-  frame.set_timestamp(abs_timecode);
-  frame.set_duration(duration_timecode);
+  frame.set_timestamp(abs_timecode * timecode_scale_);
+  frame.set_duration(duration_timecode * timecode_scale_);
   frame.set_is_key(true);  // All metadata blocks are keyframes.
   return QueueOrWriteFrame(&frame);
 }
-- 
2.43.0


From 8e8495b019511dd34ff6a421a448fa42bc09c86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:51 +0000
Subject: [PATCH 80/84] fix: let ParseNext go on from a preloaded cluster at
 any time

|m_pos| is negative while a cluster of unknown size is being loaded; ParseNext
does not use it for a preloaded cluster.
---
 mkvparser/mkvparser.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index cf9c7f6..244ca77 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -2751,8 +2751,6 @@ long Segment::ParseNext(const Cluster* pCurr, const Cluster*& pResult,
     return 0;  // success
   }
 
-  assert(m_pos > 0);
-
   long long total, avail;
 
   long status = m_pReader->Length(&total, &avail);
-- 
2.43.0


From ee3daadeecc8fd25c5e8ebc18d573314ffedd42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:05 +0000
Subject: [PATCH 81/84] fix: let Match() find elements that are followed by
 data

Both variants returned false when more data than the id or size was
available, which is always the case. The second one also leaked its buffer
when the payload could not be read.
---
 mkvparser/mkvparser.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mkvparser/mkvparser.cc b/mkvparser/mkvparser.cc
index 244ca77..16676fc 100644
--- a/mkvparser/mkvparser.cc
+++ b/mkvparser/mkvparser.cc
@@ -407,7 +407,7 @@ bool Match(IMkvReader* pReader, long long& pos, unsigned long expected_id,
   long len = 0;
 
   const long long id = ReadID(pReader, pos, len);
-  if (id < 0 || (available - pos) > len)
+  if (id < 0 || (available - pos) < len)
     return false;
 
   if (static_cast<unsigned long>(id) != expected_id)
@@ -416,7 +416,7 @@ bool Match(IMkvReader* pReader, long long& pos, unsigned long expected_id,
   pos += len;  // consume id
 
   const long long size = ReadUInt(pReader, pos, len);
-  if (size < 0 || size > 8 || len < 1 || len > 8 || (available - pos) > len)
+  if (size < 0 || size > 8 || len < 1 || len > 8 || (available - pos) < len)
     return false;
 
   pos += len;  // consume length of size of payload
@@ -444,7 +444,7 @@ bool Match(IMkvReader* pReader, long long& pos, unsigned long expected_id,
 
   long len = 0;
   const long long id = ReadID(pReader, pos, len);
-  if (id < 0 || (available - pos) > len)
+  if (id < 0 || (available - pos) < len)
     return false;
 
   if (static_cast<unsigned long>(id) != expected_id)
@@ -453,7 +453,7 @@ bool Match(IMkvReader* pReader, long long& pos, unsigned long expected_id,
   pos += len;  // consume id
 
   const long long size = ReadUInt(pReader, pos, len);
-  if (size < 0 || len <= 0 || len > 8 || (available - pos) > len)
+  if (size < 0 || len <= 0 || len > 8 || (available - pos) < len)
     return false;
 
   unsigned long long rollover_check =
@@ -480,8 +480,11 @@ bool Match(IMkvReader* pReader, long long& pos, unsigned long expected_id,
     return false;
 
   status = pReader->Read(pos, buflen_, buf);
-  if (status != 0)
+  if (status != 0) {
+    delete[] buf;
+    buf = NULL;
     return false;
+  }
 
   buflen = buflen_;
 
-- 
2.43.0


From d1598a531d7b5ae441c0c7e672d8b847afce9b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:01 +0000
Subject: [PATCH 82/84] fix: reject EBML laces whose sizes go below zero or
 wrap around

---
 webm_parser/src/block_parser.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index 1df0a07..35fde1a 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -9,7 +9,6 @@
 
 #include <cassert>
 #include <cstdint>
-#include <numeric>
 #include <type_traits>
 #include <vector>
 
@@ -224,12 +223,20 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
       }
 
       case State::kValidatingSize: {
-        std::uint64_t sum = std::accumulate(
-            lace_sizes_.begin(), lace_sizes_.end(), header_bytes_read_);
-        if (sum >= frame_metadata_.parent_element.size) {
+        if (header_bytes_read_ >= frame_metadata_.parent_element.size) {
           return Status(Status::kInvalidElementValue);
         }
-        lace_sizes_.push_back(frame_metadata_.parent_element.size - sum);
+        // Check each size, and not just their sum, which wraps around if EBML
+        // lacing gives a negative or a huge size.
+        std::uint64_t remaining =
+            frame_metadata_.parent_element.size - header_bytes_read_;
+        for (std::uint64_t lace_size : lace_sizes_) {
+          if (lace_size >= remaining) {
+            return Status(Status::kInvalidElementValue);
+          }
+          remaining -= lace_size;
+        }
+        lace_sizes_.push_back(remaining);
         frame_metadata_.position = frame_metadata_.parent_element.position +
                                    frame_metadata_.parent_element.header_size +
                                    header_bytes_read_;
-- 
2.43.0


From ad10116062e00422c0ffa3e7089df71c9fcdd5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:01 +0000
Subject: [PATCH 83/84] fix: do not skip the rest of the stream when a skipped
 block is shorter than its header

---
 webm_parser/src/block_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/webm_parser/src/block_parser.cc b/webm_parser/src/block_parser.cc
index 35fde1a..b9fc879 100644
--- a/webm_parser/src/block_parser.cc
+++ b/webm_parser/src/block_parser.cc
@@ -246,6 +246,9 @@ Status BasicBlockParser<T>::Feed(Callback* callback, Reader* reader,
       }
 
       case State::kSkipping:
+        if (header_bytes_read_ > frame_metadata_.parent_element.size) {
+          return Status(Status::kInvalidElementValue);
+        }
         do {
           // Skip the remaining part of the header and all of the frames.
           status = reader->Skip(
-- 
2.43.0


From aa26d042e2444af00114ad14d1e7d49778dbc480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:36 +0000
Subject: [PATCH 84/84] fix: consume all of a BlockVirtual element

---
 webm_parser/src/virtual_block_parser.cc | 15 +++++++++++++++
 webm_parser/src/virtual_block_parser.h  |  3 ++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/webm_parser/src/virtual_block_parser.cc b/webm_parser/src/virtual_block_parser.cc
index 712c77f..63ca29b 100644
--- a/webm_parser/src/virtual_block_parser.cc
+++ b/webm_parser/src/virtual_block_parser.cc
@@ -58,6 +58,21 @@ Status VirtualBlockParser::Feed(Callback* callback, Reader* reader,
         if (my_size_ < total_bytes_read_) {
           return Status(Status::kInvalidElementValue);
         }
+        state_ = State::kSkipping;
+        continue;
+      }
+
+      case State::kSkipping: {
+        // Whatever follows the header still belongs to this element.
+        while (total_bytes_read_ < my_size_) {
+          status = reader->Skip(my_size_ - total_bytes_read_,
+                                &local_num_bytes_read);
+          *num_bytes_read += local_num_bytes_read;
+          total_bytes_read_ += local_num_bytes_read;
+          if (!status.ok()) {
+            return status;
+          }
+        }
         state_ = State::kDone;
         continue;
       }
diff --git a/webm_parser/src/virtual_block_parser.h b/webm_parser/src/virtual_block_parser.h
index d7b8cd7..11824b3 100644
--- a/webm_parser/src/virtual_block_parser.h
+++ b/webm_parser/src/virtual_block_parser.h
@@ -58,7 +58,8 @@ class VirtualBlockParser : public ElementParser {
     /* clang-format off */
     // State             Transitions to state  When
     kReadingHeader,   // kValidatingSize       header parsed
-    kValidatingSize,  // kDone                 no errors
+    kValidatingSize,  // kSkipping             no errors
+    kSkipping,        // kDone                 all bytes consumed
     kDone,            // No transitions from here (must call Init)
     /* clang-format on */
   } state_ = State::kReadingHeader;
-- 
2.43.0

