From 28853611da66f7e28c48d5d93f28d83595787aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 01/31] fix: hybrid compressor silently dropped all data at
 quality 0 and 1

Brotli's fragment encoders used at qualities 0 and 1 never report the
intermediate representation to the callback, so nothing was encoded and the
result decoded to an empty file. Use the lowest quality that produces IR.
---
 src/brotli_ir_gen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brotli_ir_gen.rs b/src/brotli_ir_gen.rs
index 13fe93c..4b30b5e 100644
--- a/src/brotli_ir_gen.rs
+++ b/src/brotli_ir_gen.rs
@@ -391,7 +391,7 @@ impl<AllocU8:Allocator<u8>,
                                                        opt.lgblock.unwrap_or(18));
         brotli::enc::encode::BrotliEncoderSetParameter(&mut ret.brotli_encoder,
                                                        brotli::enc::encode::BrotliEncoderParameter::BROTLI_PARAM_QUALITY,
-                                                       u32::from(opt.quality.unwrap_or(10)));
+                                                       core::cmp::max(2, u32::from(opt.quality.unwrap_or(10)))); // qualities 0 and 1 never invoke the IR callback
         if opt.q9_5 {
             brotli::enc::encode::BrotliEncoderSetParameter(&mut ret.brotli_encoder,
                                                        brotli::enc::encode::BrotliEncoderParameter::BROTLI_PARAM_Q9_5,
-- 
2.43.0


From 322e6df6c9c16d92517eae28ff70dce4441a2cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 02/31] fix: raw to command ring buffer wrapped before it
 reached its end

The write index was reset to zero as soon as the read index was nonzero, even
when the buffer had room left, so literals were lost or repeated.
---
 src/raw_to_cmd/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw_to_cmd/mod.rs b/src/raw_to_cmd/mod.rs
index d01ac94..a09eed5 100644
--- a/src/raw_to_cmd/mod.rs
+++ b/src/raw_to_cmd/mod.rs
@@ -66,7 +66,7 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>, AllocU32:Allocator<u32>
             self.ring_buffer.slice_mut()[(self.ring_buffer_decode_index as usize)..(self.ring_buffer_decode_index as usize + max_copy)].clone_from_slice(&input[*input_offset..(*input_offset + max_copy)]);
             *input_offset += max_copy;
             self.ring_buffer_decode_index += max_copy as u32;
-            if self.ring_buffer_output_index != 0 {
+            if self.ring_buffer_output_index != 0 && self.ring_buffer_decode_index as usize == self.ring_buffer.slice().len() {
                self.ring_buffer_decode_index = 0;
             }
         }
-- 
2.43.0


From e7fbeccffde14fa4d4b3f31f8253eb8f6d9db276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 03/31] fix: distance arithmetic overflow in the IR optimizer's
 cache forecast

---
 src/ir_optimize/mod.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/ir_optimize/mod.rs b/src/ir_optimize/mod.rs
index 405148b..26d9fdf 100644
--- a/src/ir_optimize/mod.rs
+++ b/src/ir_optimize/mod.rs
@@ -44,17 +44,17 @@ pub fn should_merge<SelectedCDF:CDF16,
             //future_hit = i32::from(entry_id);
             match entry_id {
                 0 | 1 | 2 | 3 => actuary.cross_command_state.bk.distance_lru[entry_id as usize] = copy.distance,
-                4 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance - 1,
-                5 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance + 1,
-                6 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance - 1,
-                7 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance + 1,
-                8 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance - 2,
-                9 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance + 2,
-                10 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance - 2,
-                11 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance + 2,
-                12 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance - 3,
-                13 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance + 3,
-                14 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance - 3,
+                4 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance.wrapping_sub(1),
+                5 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance.wrapping_add(1),
+                6 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance.wrapping_sub(1),
+                7 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance.wrapping_add(1),
+                8 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance.wrapping_sub(2),
+                9 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance.wrapping_add(2),
+                10 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance.wrapping_sub(2),
+                11 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance.wrapping_add(2),
+                12 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance.wrapping_sub(3),
+                13 => actuary.cross_command_state.bk.distance_lru[0] = copy.distance.wrapping_add(3),
+                14 => actuary.cross_command_state.bk.distance_lru[1] = copy.distance.wrapping_sub(3),
                 _ => {},
             }
         }
-- 
2.43.0


From b08508a3fb5e25bad9cae078859e45b111b14794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 04/31] fix: ANS decoder state underflow on corrupt input

---
 src/ans.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ans.rs b/src/ans.rs
index 452e4a7..d0efb23 100644
--- a/src/ans.rs
+++ b/src/ans.rs
@@ -234,7 +234,8 @@ impl ANSDecoder {
         self.buffer_a_bytes_required = self.buffer_b_bytes_required;
         // if we've run out of symbols to decode, we don't care what buffer_a's value is, we just clear state and start fresh
         self.buffer_a_bytes_required |= ((u64::from(self.sym_count) == u64::from(NUM_SYMBOLS_BEFORE_FLUSH - 1)) as u8) << 3;
-        let x = (freq as u64) * (self.state_a >> LOG2_SCALE) + (self.state_a & SCALE_MASK) - start as u64;
+        // a corrupt stream may name an offset outside of every symbol: do not overflow on it
+        let x = ((freq as u64) * (self.state_a >> LOG2_SCALE) + (self.state_a & SCALE_MASK)).wrapping_sub(start as u64);
         self.sym_count = self.sym_count.wrapping_add(1);
         // if we ran out of data in our state, we setup buffer_b to require pull from our wordstream
         self.buffer_b_bytes_required = (x < NORMALIZATION_INTERVAL) as u8; // mark to need 4 bytes to continue
-- 
2.43.0


From e4f4fae3c34f27a07cae29ded3c26cc55af0b504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 05/31] fix: out of bounds dictionary access on a corrupt
 stream

The dictionary word index is coded in whole nibbles, so a corrupt stream can
name a word beyond the end of the static dictionary, which panicked.
---
 src/cmd_to_raw/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cmd_to_raw/mod.rs b/src/cmd_to_raw/mod.rs
index 52b03cb..9e9d323 100644
--- a/src/cmd_to_raw/mod.rs
+++ b/src/cmd_to_raw/mod.rs
@@ -284,9 +284,15 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>> DivansRecodeState<RingB
     fn parse_dictionary(&mut self, dict_cmd:&DictCommand) -> DivansOutputResult {
         // dictionary words are bounded in size: make sure there's enough room for the whole word
         let copy_len = u32::from(dict_cmd.word_size);
+        if copy_len > kBrotliMaxDictionaryWordLength as u32 {
+            return DivansOutputResult::Failure(ErrMsg::DictWordSizeTooLarge(dict_cmd.word_size));
+        }
         let word_len_category_index = kBrotliDictionaryOffsetsByLength[copy_len as usize] as u32;
-        let word_index = (dict_cmd.word_id * copy_len) + word_len_category_index;
+        let word_index = u64::from(dict_cmd.word_id) * u64::from(copy_len) + u64::from(word_len_category_index);
         let dict = &kBrotliDictionary;
+        if word_index + u64::from(copy_len) > dict.len() as u64 {
+            return DivansOutputResult::Failure(ErrMsg::InputOffsetOutOfBounds);
+        }
         let word = &dict[(word_index as usize)..(word_index as usize + copy_len as usize)];
         let mut transformed_word = [0u8;kBrotliMaxDictionaryWordLength as usize + 13];
         let final_len = TransformDictionaryWord(&mut transformed_word[..],
-- 
2.43.0


From f99bd2df6804c5c4e915932fea1962008c7e4189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 06/31] fix: copy commands of a corrupt stream could overflow a
 shift or divide by zero

---
 src/cmd_to_raw/mod.rs | 3 +++
 src/codec/copy.rs     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/cmd_to_raw/mod.rs b/src/cmd_to_raw/mod.rs
index 9e9d323..7f881b3 100644
--- a/src/cmd_to_raw/mod.rs
+++ b/src/cmd_to_raw/mod.rs
@@ -244,6 +244,9 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>> DivansRecodeState<RingB
     #[inline(always)]
     fn parse_copy(&mut self, copy:&CopyCommand) -> DivansOutputResult {
         let num_bytes_left_in_cmd = copy.num_bytes - self.state.input_sub_offset as u32;
+        if copy.distance == 0 && num_bytes_left_in_cmd != 0 {
+            return DivansOutputResult::Failure(ErrMsg::Distance0NotAllowed);
+        }
         if copy.distance <= REPEAT_BUFFER_MAX_SIZE && num_bytes_left_in_cmd > copy.distance {
             let num_bytes_to_copy = core::cmp::min(num_bytes_left_in_cmd,
                                                    self.decode_space_left_in_ring_buffer());
diff --git a/src/codec/copy.rs b/src/codec/copy.rs
index ebe5d2f..158b0b5 100644
--- a/src/codec/copy.rs
+++ b/src/codec/copy.rs
@@ -132,6 +132,9 @@ impl CopyState {
                     if superstate.specialization.adapt_cdf() {
                         nibble_prob.blend(last_nib, Speed::FAST);
                     }
+                    if last_nib + 18 >= 32 { // a corrupt stream may ask for more bits than num_bytes can hold
+                        return DivansResult::Failure(ErrMsg::CommandCodeOutOfBounds(last_nib));
+                    }
                     superstate.bk.last_clen = last_nib + 19;
                     self.state = CopySubstate::CountMantissaNibbles(0, round_up_mod_4(last_nib + 18), 1 << (last_nib + 18));
                 },
-- 
2.43.0


From 4a18cc46e438307bc39a24fde924828ec5b95d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:50 +0000
Subject: [PATCH 07/31] fix: speeds above 0x3000 were garbled, and corrupt ones
 overflowed

Converting a Speed to and from its one byte float overflowed 16 bits, which
turned valid speeds of 0x3000 and more negative, and let a corrupt stream
install speeds beyond the maximum that the CDF arithmetic can handle.
---
 src/probability/interface.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/probability/interface.rs b/src/probability/interface.rs
index af7c3aa..c1fc41d 100644
--- a/src/probability/interface.rs
+++ b/src/probability/interface.rs
@@ -566,7 +566,7 @@ mod test {
 pub fn speed_to_u8(data: i16) -> u8 {
     let length = 16 - data.leading_zeros() as u8;
     let mantissa = if data != 0 {
-        let rem = data - (1 << (length - 1));
+        let rem = i32::from(data) - (1 << (length - 1));
         (rem << 3) >> (length - 1)
     } else {
         0
@@ -579,8 +579,9 @@ pub fn u8_to_speed(data: u8) -> i16 {
         0
     } else {
         let log_val = (data >> 3) - 1;
-        let rem = (i16::from(data) & 0x7) << log_val;
-        (1i16 << log_val) | (rem >> 3)
+        let rem = (i64::from(data) & 0x7) << log_val;
+        // no valid speed exceeds 0x4000, but a corrupt stream may ask for one
+        core::cmp::min((1i64 << log_val) | (rem >> 3), 0x4000) as i16
     }
 }
 #[cfg(test)]
-- 
2.43.0


From 53e0c51b27992c569b4bfb2fe1bd769d393c5b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 08/31] fix: decoder made no progress after a broken end of
 stream marker

---
 src/mux.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/mux.rs b/src/mux.rs
index 6c65372..fd9d01e 100644
--- a/src/mux.rs
+++ b/src/mux.rs
@@ -362,6 +362,9 @@ impl<AllocU8:Allocator<u8>> Mux<AllocU8> {
                     ret += 1;
                     input = input.split_at(1).1;
                     self.eof = StreamState::EofMid
+                } else { // broken marker: end the stream here and let the trailer check fail
+                    self.eof = StreamState::EofDone;
+                    return ret;
                 }
             }
             _ => {},
@@ -373,9 +376,10 @@ impl<AllocU8:Allocator<u8>> Mux<AllocU8> {
             StreamState::EofMid => {
                 if input[0] == EOF_MARKER[2] {
                     ret += 1;
-                    self.eof = StreamState::EofDone;
-                    return ret;
                 }
+                // a broken marker ends the stream as well: the trailer check will fail
+                self.eof = StreamState::EofDone;
+                return ret;
             }
             _ => {},
         }
@@ -408,14 +412,12 @@ impl<AllocU8:Allocator<u8>> Mux<AllocU8> {
                     ret += to_push.len();
                 }
                 BytesToDeserialize::None => {
-                    if input[0] == EOF_MARKER[0] || input[0] == EOF_MARKER[1] || input[0] == EOF_MARKER[2] {
-                        if input[0] == EOF_MARKER[0] || match self.eof {
-                            StreamState::Running => false,
-                            _ => true,
-                        } {
-                            //eprint!("DESERIALIZING EOF\n");
-                            return ret + self.deserialize_eof(input);
-                        }
+                    if input[0] == EOF_MARKER[0] || match self.eof {
+                        StreamState::Running => false,
+                        _ => true,
+                    } {
+                        //eprint!("DESERIALIZING EOF\n");
+                        return ret + self.deserialize_eof(input);
                     }
                     let stream_id = input[0] & STREAM_ID_MASK;
                     let count: usize;
-- 
2.43.0


From 3ad043b9b020e5412a1aae53bb4876351be898f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 09/31] fix: multithreaded decoder deadlocked or panicked when
 freed early

The worker thread waited for input, context maps and result space without ever
looking at the error that free() broadcasts, so freeing a decoder before the
end of its stream blocked forever on the codec lock; a worker that had not
started yet panicked, poisoning that lock.
---
 src/multithreading.rs        | 14 +++++++++-----
 src/parallel_decompressor.rs |  7 ++++---
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/multithreading.rs b/src/multithreading.rs
index 85a9b62..4051011 100755
--- a/src/multithreading.rs
+++ b/src/multithreading.rs
@@ -133,6 +133,10 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> MultiWorker<A
         thread_debug!(_thread_event_type, output.len(), self, _elapsed);
         return ret;        
     }
+    pub fn has_err(&self) -> bool {
+        let &(ref lock, _) = &*self.queue;
+        lock.lock().unwrap().err.is_some()
+    }
     pub fn free(&mut self, m8: &mut RepurposingAlloc<u8, AllocU8>, mcommand: &mut AllocCommand) {
         let &(ref lock, ref cvar) = &*self.queue;
         let mut worker = lock.lock().unwrap();
@@ -243,7 +247,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.data_ready() {
+            if worker.data_ready() || worker.err.is_some() {
                 let ret = worker.pull_data();
                 thread_debug!(ThreadEventType::W_PULL_DATA, match ret {ThreadData::Data(ref d) => d.len(), ThreadData::Yield => 0, ThreadData::Eof=> 99999999,}, self, _elapsed);
                 return ret;
@@ -262,7 +266,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.cm_ready() {
+            if worker.cm_ready() || worker.err.is_some() {
                 if worker.waiters != 0 {
                     cvar.notify_one();
                 }
@@ -290,7 +294,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.result_space_ready() {
+            if worker.result_space_ready() || worker.err.is_some() {
                 thread_debug!(ThreadEventType::W_PUSH_CMD, 1, self, _elapsed);
                 if worker.waiters != 0 {
                     cvar.notify_one();
@@ -314,7 +318,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.result_space_ready() {
+            if worker.result_space_ready() || worker.err.is_some() {
                 if worker.waiters != 0 {
                     cvar.notify_one();
                 }
@@ -335,7 +339,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.result_space_ready() {
+            if worker.result_space_ready() || worker.err.is_some() {
                 if worker.waiters != 0 {
                     cvar.notify_one();
                 }
diff --git a/src/parallel_decompressor.rs b/src/parallel_decompressor.rs
index cc89219..ee322a2 100755
--- a/src/parallel_decompressor.rs
+++ b/src/parallel_decompressor.rs
@@ -108,6 +108,9 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
                 let mut unused_in = 0usize;
                 let mut unused = 0usize;
                 loop {
+                    if process_codec.demuxer().worker.worker.has_err() {
+                        return; // nobody is listening any more: the main thread is waiting for us to let go of the codec
+                    }
                     match process_codec.encode_or_decode(
                         &[],
                         &mut unused_in,
@@ -127,9 +130,7 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
                         DivansResult::NeedsMoreOutput => {}, // lets make room for more output
                     }
                 }
-            } else {
-                panic!("Thread started with None-process_codec")
-            }
+            } // otherwise the decompressor was freed before this thread got to run
         });
         ParallelDivansProcess::<DefaultDecoder, AllocU8, AllocCDF16, AllocCommand> {
             mcommand:mc,
-- 
2.43.0


From 55470f1ac31c2d580dff4ad2724e9efbc87e9c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 10/31] fix: a stream that ends before its commands or literals
 do was never reported

After the end of stream marker the serial decoder asked for more input forever
and the two threads of the parallel decoder waited for each other. Both now
fail with UnexpectedEof.
---
 src/codec/decoder.rs         |  7 +++++++
 src/divans_decompressor.rs   |  3 +++
 src/multithreading.rs        | 12 ++++++++++++
 src/parallel_decompressor.rs |  6 +++++-
 src/threading.rs             |  7 +++++++
 5 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/codec/decoder.rs b/src/codec/decoder.rs
index 6bd30dd..677f290 100644
--- a/src/codec/decoder.rs
+++ b/src/codec/decoder.rs
@@ -274,6 +274,10 @@ impl<Cdf16:CDF16,
                                         core::mem::replace(&mut self.state_lit.lc,
                                                            LiteralCommand::<AllocatedMemoryPrefix<u8, AllocU8>>::nop()));
                                 },
+                                DivansResult::NeedsMoreInput if self.demuxer.encountered_eof() => {
+                                    // the stream ended before its literals did
+                                    return DecoderResult::Processed(DivansResult::Failure(ErrMsg::UnexpectedEof));
+                                },
                                 retval => {
                                     return DecoderResult::Processed(retval);
                                 }
@@ -296,6 +300,9 @@ impl<Cdf16:CDF16,
                 {
                     assert_eq!(self.pred_buffer[0].has_context_speeds(), false);
                     assert_eq!(self.pred_buffer[1].has_context_speeds(), false);
+                    if self.outstanding_buffer_count == 0 && self.demuxer.encountered_eof() && self.demuxer.data_ready(CMD_CODER as StreamID) == 0 {
+                        worker.end_of_data();
+                    }
                     status = worker.pull_command_buf(&mut self.cmd_buffer, &mut consumed_data, &mut self.pred_buffer);
                 }
                 let mut need_input = false;
diff --git a/src/divans_decompressor.rs b/src/divans_decompressor.rs
index 2e7febd..1543214 100644
--- a/src/divans_decompressor.rs
+++ b/src/divans_decompressor.rs
@@ -136,6 +136,9 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
                 DivansResult::Failure(e) => return DivansResult::Failure(e),
                 DivansResult::NeedsMoreInput => {
                     if process.literal_decoder.as_mut().unwrap().outstanding_buffer_count == 0 {
+                        if process.literal_decoder.as_mut().unwrap().commands_or_data_to_receive() {
+                            return DivansResult::Failure(ErrMsg::UnexpectedEof); // the stream ended before its commands did
+                        }
                         return DivansResult::NeedsMoreInput;
                     } else {
                         // we can fall through here because if outstanding_buffer_count != 0 then
diff --git a/src/multithreading.rs b/src/multithreading.rs
index 4051011..da9e6a2 100755
--- a/src/multithreading.rs
+++ b/src/multithreading.rs
@@ -232,6 +232,16 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> MainToThread<
             }
         }
     }
+    fn end_of_data(&mut self) {
+        let &(ref lock, ref cvar) = &*self.queue;
+        let mut worker = lock.lock().unwrap();
+        if !worker.end_of_data {
+            worker.end_of_data = true;
+            if worker.waiters != 0 {
+                cvar.notify_one();
+            }
+        }
+    }
     fn broadcast_err(&mut self,
                      err:ErrMsg) {
         self.broadcast_err_internal(err, ThreadEventType::M_BROADCAST_ERR);
@@ -251,6 +261,8 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
                 let ret = worker.pull_data();
                 thread_debug!(ThreadEventType::W_PULL_DATA, match ret {ThreadData::Data(ref d) => d.len(), ThreadData::Yield => 0, ThreadData::Eof=> 99999999,}, self, _elapsed);
                 return ret;
+            } else if worker.end_of_data {
+                return ThreadData::Eof;
             } else {
                 thread_debug!(ThreadEventType::W_WAIT_PULL_DATA, 0, self, _elapsed);
                 worker.waiters += 1;
diff --git a/src/parallel_decompressor.rs b/src/parallel_decompressor.rs
index ee322a2..fc80ea3 100755
--- a/src/parallel_decompressor.rs
+++ b/src/parallel_decompressor.rs
@@ -2,7 +2,7 @@
 use core;
 use core::hash::Hasher;
 use ::interface;
-use ::interface::{NewWithAllocator};
+use ::interface::{NewWithAllocator, StreamDemuxer};
 use ::DecoderSpecialization;
 use ::codec;
 use std::sync::{Arc, Mutex};
@@ -126,6 +126,10 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
                         },
                         DivansResult::NeedsMoreInput => {
                             //eprintln!("W_RETRY_PULL");//unimplemented!(); // we should block here--- maybe this is an error
+                            if process_codec.demuxer().encountered_eof() {
+                                process_codec.demuxer().broadcast_err(ErrMsg::UnexpectedEof); // the stream ended before its commands did
+                                return;
+                            }
                         },
                         DivansResult::NeedsMoreOutput => {}, // lets make room for more output
                     }
diff --git a/src/threading.rs b/src/threading.rs
index 4470663..6cf1b7b 100755
--- a/src/threading.rs
+++ b/src/threading.rs
@@ -52,6 +52,8 @@ pub trait MainToThread<AllocU8:Allocator<u8>> {
             output:&mut Self::CommandOutputType,
             consumed_data:&mut [AllocatedMemoryRange<u8, AllocU8>;NUM_DATA_BUFFERED],
             pm:&mut [PredictionModeContextMap<AllocatedMemoryPrefix<u8, AllocU8>>; 2]) -> CommandResult;
+    // there will be nothing further to push: a worker that still wants data will never get it
+    fn end_of_data(&mut self) {}
     fn broadcast_err(&mut self, err:ErrMsg);
 }
 
@@ -95,6 +97,7 @@ pub struct SerialWorker<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticComm
     result_data: [AllocatedMemoryRange<u8, AllocU8>; NUM_DATA_BUFFERED],
     result_cm: [PredictionModeContextMap<AllocatedMemoryPrefix<u8, AllocU8>>; 2],
     pub waiters: u8,
+    pub end_of_data: bool,
     eof_present_in_result: CommandResult, // retriever should try to get everything
     pub err: Option<ErrMsg>,
 }
@@ -171,6 +174,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> SerialWorker<
     pub fn new(mc:&mut AllocCommand) -> Self {
         SerialWorker::<AllocU8, AllocCommand> {
             waiters: 0,
+            end_of_data: false,
             eof_present_in_result: CommandResult::Ok,
             data_len: 0,
             data:[ThreadData::<AllocU8>::default(),
@@ -431,6 +435,9 @@ impl <AllocU8:Allocator<u8>, WorkerInterface:ThreadToMain<AllocU8>+MainToThread<
             pm:&mut [PredictionModeContextMap<AllocatedMemoryPrefix<u8, AllocU8>>; 2]) -> CommandResult {    
         self.worker.pull(output, consumed_data, pm)
     }
+    fn end_of_data(&mut self) {
+        self.worker.end_of_data();
+    }
     fn broadcast_err(&mut self, err:ErrMsg) {
         <WorkerInterface as ThreadToMain<AllocU8>>::broadcast_err(&mut self.worker, err);
     }
-- 
2.43.0


From 6f522c411fe28084b1254b0c35f01f5ec03a4133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:28 +0000
Subject: [PATCH 11/31] fix: decompressing Read adapter looped for ever on
 bytes after the end of the stream

---
 src/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index a1149e1..c7d1638 100755
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -81,6 +81,7 @@ impl<R:Read, P:Processor, BufferType:SliceWrapperMut<u8>> Read for GenReader<R,P
                    buf.split_at_mut(output_offset + avail_out).0,
                    &mut output_offset)
            };
+           let made_progress = self.input_offset != old_input_offset || output_offset != old_output_offset;
            avail_in -= self.input_offset - old_input_offset;
            avail_out -= output_offset - old_output_offset;
            if avail_in == 0 {
@@ -100,6 +101,9 @@ impl<R:Read, P:Processor, BufferType:SliceWrapperMut<u8>> Read for GenReader<R,P
                if self.input_eof && avail_in == 0 && self.has_flushed {
                  break;
                }
+               if !made_progress && avail_in != 0 {
+                 break; // the stream is complete: what follows it is not part of it
+               }
              },
              DivansResult::NeedsMoreInput | DivansResult::NeedsMoreOutput => {},
            }
-- 
2.43.0


From 88653c28c1798a841ab87f69a5ebf7b09d03f2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 12/31] fix: Read adapters treated an error of the underlying
 reader as its end

---
 src/reader.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index c7d1638..d61eb56 100755
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -38,7 +38,6 @@ struct GenReader<R: Read,
   input_eof: bool,
   has_flushed: bool,
   input: R,
-  read_error: Option<io::Error>,
 }
 
 
@@ -55,8 +54,7 @@ impl<R:Read, P:Processor, BufferType:SliceWrapperMut<u8>> Read for GenReader<R,P
                        if let io::ErrorKind::Interrupted = e.kind() {
                           continue;
                        }
-                       self.read_error = Some(e);
-                       self.input_eof = true;
+                       return Err(e); // nothing was produced or consumed in this call: the caller may try again
                    },
                    Ok(size) => if size == 0 {
                        self.input_eof = true;
@@ -85,13 +83,8 @@ impl<R:Read, P:Processor, BufferType:SliceWrapperMut<u8>> Read for GenReader<R,P
            avail_in -= self.input_offset - old_input_offset;
            avail_out -= output_offset - old_output_offset;
            if avail_in == 0 {
-             match self.read_error.take() {
-               Some(err) => return Err(err),
-               None => {
-                 needs_input = true;
-                 self.copy_to_front();
-               },
-             }
+             needs_input = true;
+             self.copy_to_front();
            }
            match ret {
                DivansResult::Failure(m) => {
@@ -121,7 +114,6 @@ impl<R:Read, C:Processor, BufferType:SliceWrapperMut<u8>> GenReader<R,C,BufferTy
             input_len : 0,
             input_eof : false,
             has_flushed: !needs_flush,
-            read_error: None,
         }
     }
     pub fn copy_to_front(&mut self) {
-- 
2.43.0


From fd4903d49f9af91ad1724e367e24e79cbe08ec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 13/31] fix: Read adapters looped for ever when asked to fill
 an empty buffer

---
 src/reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index d61eb56..58465c0 100755
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -43,6 +43,9 @@ struct GenReader<R: Read,
 
 impl<R:Read, P:Processor, BufferType:SliceWrapperMut<u8>> Read for GenReader<R,P,BufferType> {
 	fn read(&mut self, buf: &mut [u8]) -> Result<usize, io::Error> {
+        if buf.is_empty() {
+            return Ok(0); // there is no room to ever make progress in
+        }
         let mut output_offset : usize = 0;
         let mut avail_out = buf.len() - output_offset;
         let mut avail_in = self.input_len - self.input_offset;
-- 
2.43.0


From 6b835bf888da7620116b156c79a03b27ceec3277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 14/31] fix: compressor accepted data and panicked after its
 end of stream was flushed

---
 src/codec/mod.rs         | 3 +++
 src/divans_compressor.rs | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/codec/mod.rs b/src/codec/mod.rs
index 00fd7fb..ff43398 100755
--- a/src/codec/mod.rs
+++ b/src/codec/mod.rs
@@ -1017,6 +1017,9 @@ impl<AllocU8: Allocator<u8>,
                     }
                 },
                 EncodeOrDecodeState::DivansSuccess => {
+                    if !Specialization::IS_DECODING_FILE && !is_end {
+                        return CodecTraitResult::Res(OneCommandReturn::BufferExhausted(DivansResult::Failure(ErrMsg::NotAllowedToEncodeAfterFlush)));
+                    }
                     return CodecTraitResult::Res(OneCommandReturn::BufferExhausted(DivansResult::Success));
                 },
             }
diff --git a/src/divans_compressor.rs b/src/divans_compressor.rs
index 34a8dd4..80390f6 100644
--- a/src/divans_compressor.rs
+++ b/src/divans_compressor.rs
@@ -65,6 +65,7 @@ pub struct DivansCompressor<DefaultEncoder: ArithmeticEncoderOrDecoder + NewWith
     freeze_dried_cmd_array: [Command<slice_util::SliceReference<'static,u8>>; COMPRESSOR_CMD_BUFFER_SIZE],
     freeze_dried_cmd_start: usize,
     freeze_dried_cmd_end: usize,
+    flushed: bool, // all commands were handed to the codec and the end of the stream is being written
 }
 
 
@@ -116,6 +117,7 @@ impl<AllocU8:Allocator<u8>,
             freeze_dried_cmd_array:[interface::Command::<slice_util::SliceReference<'static, u8>>::default(); COMPRESSOR_CMD_BUFFER_SIZE],
             freeze_dried_cmd_start:0,
             freeze_dried_cmd_end:0,
+            flushed: false,
             cmd_assembler:assembler,
             header_progress: 0,
             window_size: window_size as u8,
@@ -278,6 +280,9 @@ impl<DefaultEncoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8>,
               input_offset: &mut usize,
               output: &mut [u8],
               output_offset: &mut usize) -> DivansResult {
+        if self.flushed {
+            return DivansResult::Failure(ErrMsg::NotAllowedToEncodeAfterFlush);
+        }
         if self.header_progress != interface::HEADER_LENGTH {
             match write_header(&mut self.header_progress, self.window_size, output, output_offset,
                                self.codec.get_crc()) {
@@ -340,6 +345,9 @@ impl<DefaultEncoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8>,
                                           input_offset : &mut usize,
                                           output :&mut[u8],
                                           output_offset: &mut usize) -> DivansOutputResult{
+        if self.flushed {
+            return DivansOutputResult::Failure(ErrMsg::NotAllowedToEncodeAfterFlush);
+        }
         self.cmd_assembler.raw_input_ir_mode();
         if self.header_progress != interface::HEADER_LENGTH {
             match write_header(&mut self.header_progress, self.window_size, output, output_offset,
@@ -422,6 +430,7 @@ impl<DefaultEncoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8>,
                 }
             }
         }
+        self.flushed = true;
         self.codec.flush(output, output_offset)
     }
 }
-- 
2.43.0


From 22b09f5f5812ff27c0c9f533b26a79a0b6460154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:33 +0000
Subject: [PATCH 15/31] fix: decoder carried on after a failure instead of
 staying failed

---
 src/divans_decompressor.rs   | 29 ++++++++++++++++++++++++++++-
 src/parallel_decompressor.rs | 16 ++++++++++++++++
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/divans_decompressor.rs b/src/divans_decompressor.rs
index 1543214..6d3c8d4 100644
--- a/src/divans_decompressor.rs
+++ b/src/divans_decompressor.rs
@@ -30,6 +30,7 @@ pub struct HeaderParser<AllocU8:Allocator<u8>,
     pub mcommand: Option<AllocCommand>,
     pub skip_crc: bool,
     pub multithread: bool,
+    pub failure: Option<ErrMsg>,
 }
 
 impl<AllocU8:Allocator<u8>,
@@ -54,6 +55,9 @@ impl<AllocU8:Allocator<u8>,
                   input:&[u8],
                   input_offset:&mut usize) -> (usize, bool, DivansInputResult) {
         let header_parser = self;
+        if let Some(err) = header_parser.failure {
+            return (0, false, DivansInputResult::Failure(err)); // a bad header stays bad
+        }
         let window_size: usize;
         let is_multi: bool;
         let remaining = input.len() - *input_offset;
@@ -67,7 +71,13 @@ impl<AllocU8:Allocator<u8>,
                     window_size = wsize;
                     is_multi = header_parser.multithread;
                 },
-                Err(result) => return (0, false, DivansInputResult::from(result)),
+                Err(result) => {
+                    let ret = DivansInputResult::from(result);
+                    if let DivansInputResult::Failure(err) = ret {
+                        header_parser.failure = Some(err);
+                    }
+                    return (0, false, ret);
+                },
             }
         } else {
             header_parser.header[(header_parser.read_offset)..
@@ -100,6 +110,7 @@ pub struct DivansProcess<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAll
                                                Mux<AllocU8>>>,
     bytes_encoded: usize,
     mcommand: AllocCommand,
+    failure: Option<ErrMsg>,
 }
 
 
@@ -113,6 +124,20 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
               input_offset:&mut usize,
               output:&mut [u8],
               output_offset: &mut usize) -> DivansResult {
+        if let Some(err) = self.failure {
+            return DivansResult::Failure(err); // a stream that failed cannot be resumed
+        }
+        let ret = self.decode_internal(input, input_offset, output, output_offset);
+        if let DivansResult::Failure(err) = ret {
+            self.failure = Some(err);
+        }
+        ret
+    }
+    fn decode_internal(&mut self,
+                       input:&[u8],
+                       input_offset:&mut usize,
+                       output:&mut [u8],
+                       output_offset: &mut usize) -> DivansResult {
         let process = self;
         let mut unused:usize = 0;
         let old_output_offset = *output_offset;
@@ -289,6 +314,7 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8>,
                                    literal_decoder:Some(main_thread_codec),
                                    bytes_encoded:0,
                                    mcommand:mcommand,
+                                   failure:None,
                                }));
         DivansResult::Success
     }
@@ -447,6 +473,7 @@ pub trait DivansDecompressorFactory<
                                                 m8:Some(m8), mcdf16:Some(mcdf16), mcommand:Some(mc),
                                                 skip_crc:skip_crc,
                                                 multithread:multithread,
+                                                failure:None,
         })
     }
 }
diff --git a/src/parallel_decompressor.rs b/src/parallel_decompressor.rs
index fc80ea3..cb57aca 100755
--- a/src/parallel_decompressor.rs
+++ b/src/parallel_decompressor.rs
@@ -39,6 +39,7 @@ pub struct ParallelDivansProcess<DefaultDecoder: ArithmeticEncoderOrDecoder + Ne
                                                Mux<AllocU8>>>,
     bytes_encoded: usize,
     mcommand: AllocCommand,
+    failure: Option<ErrMsg>,
 }
 
 
@@ -138,6 +139,7 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
         });
         ParallelDivansProcess::<DefaultDecoder, AllocU8, AllocCDF16, AllocCommand> {
             mcommand:mc,
+            failure:None,
             codec:worker_codec,
             literal_decoder:Some(main_thread_codec),
             bytes_encoded:0,
@@ -179,6 +181,20 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
               input_offset:&mut usize,
               output:&mut [u8],
               output_offset: &mut usize) -> DivansResult {
+        if let Some(err) = self.failure {
+            return DivansResult::Failure(err); // a stream that failed cannot be resumed
+        }
+        let ret = self.decode_internal(input, input_offset, output, output_offset);
+        if let DivansResult::Failure(err) = ret {
+            self.failure = Some(err);
+        }
+        ret
+    }
+    fn decode_internal(&mut self,
+                       input:&[u8],
+                       input_offset:&mut usize,
+                       output:&mut [u8],
+                       output_offset: &mut usize) -> DivansResult {
         let old_output_offset = *output_offset;
         if let Some(literal_decoder) =  self.literal_decoder.as_mut() {
             loop {
-- 
2.43.0


From d09c30368ff904b49909e002de322fe6b50563e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 16/31] fix: large adaptation increments overflowed the CDFs
 and corrupted the data

---
 src/brotli_ir_gen.rs         | 8 +++++++-
 src/probability/interface.rs | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/brotli_ir_gen.rs b/src/brotli_ir_gen.rs
index 4b30b5e..a09e602 100644
--- a/src/brotli_ir_gen.rs
+++ b/src/brotli_ir_gen.rs
@@ -342,8 +342,14 @@ impl<AllocU8:Allocator<u8>,
                                                                AllocBrotli>;
       type AdditionalArgs = AllocBrotli;
         fn new(mut m8: AllocU8, _m32: AllocU32, mcdf16:AllocCDF16,
-               opt: super::interface::DivansCompressorOptions,
+               mut opt: super::interface::DivansCompressorOptions,
                additional_args: Self::AdditionalArgs) -> Self::ConstructedCompressor {
+        if let Some(ref mut speeds) = opt.literal_adaptation {
+            for speed in speeds.iter_mut() { // the command generator must not overflow its CDFs either
+                let inc = min(speed.inc(), ::probability::Speed::MAX_INC);
+                speed.set_inc(inc);
+            }
+        }
         let window_size = min(24, max(10, opt.window_size.unwrap_or(22)));
         let cmd_enc = Self::DefaultEncoder::new(&mut m8);
         let lit_enc = Self::DefaultEncoder::new(&mut m8);
diff --git a/src/probability/interface.rs b/src/probability/interface.rs
index c1fc41d..82fd95c 100644
--- a/src/probability/interface.rs
+++ b/src/probability/interface.rs
@@ -326,11 +326,13 @@ impl Speed {
     pub const FAST: Speed =  Speed(0x0060, 0x4000);
     pub const PLANE: Speed = Speed(0x0080, 0x4000);
     pub const ROCKET: Speed =Speed(0x0180, 0x4000);
+    pub const MAX_INC: i16 = 0x1e00;
     pub fn to_f8_tuple(&self) -> (u8, u8) {
         (speed_to_u8(self.inc()), speed_to_u8(self.lim()))
     }
     pub fn from_f8_tuple(inp: (u8, u8)) -> Self {
-        Speed::new(u8_to_speed(inp.0), u8_to_speed(inp.1))
+        // larger increments would overflow the 15 bits of the CDFs they are added to
+        Speed::new(core::cmp::min(u8_to_speed(inp.0), Self::MAX_INC), u8_to_speed(inp.1))
     }
     #[inline(never)]
     #[cold]
-- 
2.43.0


From 007dc2660e77feeb3491cc8e5473c26ccb3b3871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:17 +0000
Subject: [PATCH 17/31] fix: copies from the window's size or further back hung
 or panicked

---
 src/cmd_to_raw/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cmd_to_raw/mod.rs b/src/cmd_to_raw/mod.rs
index 7f881b3..101d985 100644
--- a/src/cmd_to_raw/mod.rs
+++ b/src/cmd_to_raw/mod.rs
@@ -152,6 +152,9 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>> DivansRecodeState<RingB
     //precondition: that there is sufficient room for amount_to_copy in buffer
     #[inline(always)]
     fn copy_some_decoded_from_ring_buffer_to_decoded(&mut self, distance: u32, mut desired_amount_to_copy: u32) -> Result<u32,()> {
+        if distance >= self.ring_buffer.slice().len() as u32 {
+            return Err(()); // further back than the window
+        }
         desired_amount_to_copy = core::cmp::min(self.decode_space_left_in_ring_buffer() as u32,
                                                 desired_amount_to_copy);
         let left_dst_before_wrap = self.ring_buffer.slice().len() as u32 - self.state.ring_buffer_decode_index;
-- 
2.43.0


From e13d645f4c3cfe0a358bdf20994e8e6dde8fc7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:04 +0000
Subject: [PATCH 18/31] fix: interpreter indexed out of bounds on an undefined
 dictionary transform

---
 src/cmd_to_raw/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cmd_to_raw/mod.rs b/src/cmd_to_raw/mod.rs
index 101d985..ca61c3b 100644
--- a/src/cmd_to_raw/mod.rs
+++ b/src/cmd_to_raw/mod.rs
@@ -300,6 +300,9 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>> DivansRecodeState<RingB
             return DivansOutputResult::Failure(ErrMsg::InputOffsetOutOfBounds);
         }
         let word = &dict[(word_index as usize)..(word_index as usize + copy_len as usize)];
+        if dict_cmd.transform >= 121 { // only 121 transforms are defined
+            return DivansOutputResult::Failure(ErrMsg::DictTransformIndexUndefined(dict_cmd.transform));
+        }
         let mut transformed_word = [0u8;kBrotliMaxDictionaryWordLength as usize + 13];
         let final_len = TransformDictionaryWord(&mut transformed_word[..],
                                                 &word[..],
-- 
2.43.0


From 11073649216759eeb1d121f8a093ed173eeaa7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:50 +0000
Subject: [PATCH 19/31] fix: a literal command of no bytes made the compressor
 emit an undecodable stream

---
 src/codec/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/codec/mod.rs b/src/codec/mod.rs
index ff43398..9491ca3 100755
--- a/src/codec/mod.rs
+++ b/src/codec/mod.rs
@@ -622,6 +622,18 @@ impl<AllocU8: Allocator<u8>,
                                               ctraits: &'static CTraits) -> (Option<DivansResult>, Option<CodecTraitSelector>) {
         loop {
             let in_cmd = input_commands.get_input_command(*input_command_offset);
+            if !Specialization::IS_DECODING_FILE {
+                // a literal of no bytes has no code, and nothing needs to be encoded for it
+                if let (&EncodeOrDecodeState::Begin, &Command::Literal(ref lit)) = (&self.state, &in_cmd) {
+                    if lit.data.slice().is_empty() {
+                        *input_command_offset += 1;
+                        if input_commands.len() == *input_command_offset {
+                            return (Some(DivansResult::NeedsMoreInput), None);
+                        }
+                        continue;
+                    }
+                }
+            }
             match self.encode_or_decode_one_command(checksum_input_info,
                                                     output_bytes,
                                                     output_bytes_offset,
-- 
2.43.0


From 21981d2d907a798b6de0e3b730e26889cc0555c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 20/31] fix: encode_commands with no command left indexed out
 of bounds

---
 src/brotli_ir_gen.rs     | 3 +++
 src/divans_compressor.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/brotli_ir_gen.rs b/src/brotli_ir_gen.rs
index a09e602..ae3542e 100644
--- a/src/brotli_ir_gen.rs
+++ b/src/brotli_ir_gen.rs
@@ -305,6 +305,9 @@ impl<SelectedCDF:CDF16,
                 res => return res,
             }
         }
+        if *input_offset >= input.len() {
+            return DivansOutputResult::Success; // no command left to encode
+        }
         let mut unused: usize = 0;
         match self.codec.encode_or_decode(&[],
                                           &mut unused,
diff --git a/src/divans_compressor.rs b/src/divans_compressor.rs
index 80390f6..1950ffe 100644
--- a/src/divans_compressor.rs
+++ b/src/divans_compressor.rs
@@ -356,6 +356,9 @@ impl<DefaultEncoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8>,
                 res => return res,
             }
         }
+        if *input_offset >= input.len() {
+            return DivansOutputResult::Success; // no command left to encode
+        }
         let mut unused: usize = 0;
         match self.codec.encode_or_decode(&[],
                                     &mut unused,
-- 
2.43.0


From d300ea16731c65213f22386ef86ea0a509b61e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 21/31] fix: stored streams with large adaptation speeds were
 no longer read as before

---
 src/probability/frequentist_cdf.rs |  3 ++-
 src/probability/interface.rs       | 22 ++++++++++++++--------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/probability/frequentist_cdf.rs b/src/probability/frequentist_cdf.rs
index 9cea871..e45f757 100644
--- a/src/probability/frequentist_cdf.rs
+++ b/src/probability/frequentist_cdf.rs
@@ -73,7 +73,8 @@ impl CDF16 for FrequentistCDF16 {
     #[inline(always)]
     fn blend(&mut self, symbol: u8, speed: Speed) {
         const CDF_BIAS : [Prob;16] = [1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16];
-        let increment : Prob = speed.inc() as Prob;
+        // a large increment may be added as long as there is room for it and the bias
+        let increment : Prob = core::cmp::min(speed.inc() as Prob, (Prob::max_value() - 16).wrapping_sub(self.cdf[15]));
         for i in (symbol as usize)..16 {
             self.cdf[i] = self.cdf[i].wrapping_add(increment);
         }
diff --git a/src/probability/interface.rs b/src/probability/interface.rs
index 82fd95c..8c6a8a7 100644
--- a/src/probability/interface.rs
+++ b/src/probability/interface.rs
@@ -326,13 +326,20 @@ impl Speed {
     pub const FAST: Speed =  Speed(0x0060, 0x4000);
     pub const PLANE: Speed = Speed(0x0080, 0x4000);
     pub const ROCKET: Speed =Speed(0x0180, 0x4000);
+    // the largest increment that can be added for ever without filling the 15 bits of a CDF
     pub const MAX_INC: i16 = 0x1e00;
+    const MAX_STORED: i16 = 0x4800;
     pub fn to_f8_tuple(&self) -> (u8, u8) {
         (speed_to_u8(self.inc()), speed_to_u8(self.lim()))
     }
     pub fn from_f8_tuple(inp: (u8, u8)) -> Self {
-        // larger increments would overflow the 15 bits of the CDFs they are added to
-        Speed::new(core::cmp::min(u8_to_speed(inp.0), Self::MAX_INC), u8_to_speed(inp.1))
+        // speeds of 0x3400 and above used to be stored as 0x4800 (which acts as such) or as 0x5000
+        // and more, which acted as a negative number: a limit that every CDF has reached
+        let stored = |code| match u8_to_speed(code) {
+            speed if speed <= Self::MAX_STORED => speed,
+            _ => 0,
+        };
+        Speed::new(stored(inp.0), stored(inp.1))
     }
     #[inline(never)]
     #[cold]
@@ -341,14 +348,14 @@ impl Speed {
     }
     #[inline(always)]
     pub fn new(inc:i16, max: i16) -> Speed {
-        debug_assert!(inc <= 0x4000); // otherwise some sse hax fail
-        debug_assert!(max <= 0x4000); // otherwise some sse hax fail
+        debug_assert!(inc <= Self::MAX_STORED); // otherwise some sse hax fail
+        debug_assert!(max <= Self::MAX_STORED); // otherwise some sse hax fail
         Speed(inc, max)
     }
     #[inline(always)]
     pub fn lim(&self) -> i16 {
         let ret = self.1;
-        debug_assert!(ret <= 0x4000); // otherwise some sse hax fail
+        debug_assert!(ret <= Self::MAX_STORED); // otherwise some sse hax fail
         ret
     }
     #[inline(always)]
@@ -366,7 +373,7 @@ impl Speed {
     }
     #[inline(always)]
     pub fn set_lim(&mut self, lim: i16) {
-        debug_assert!(lim <= 0x4000); // otherwise some sse hax fail
+        debug_assert!(lim <= Self::MAX_STORED); // otherwise some sse hax fail
         self.1 = lim;
     }
     #[inline(always)]
@@ -582,8 +589,7 @@ pub fn u8_to_speed(data: u8) -> i16 {
     } else {
         let log_val = (data >> 3) - 1;
         let rem = (i64::from(data) & 0x7) << log_val;
-        // no valid speed exceeds 0x4000, but a corrupt stream may ask for one
-        core::cmp::min((1i64 << log_val) | (rem >> 3), 0x4000) as i16
+        core::cmp::min((1i64 << log_val) | (rem >> 3), i64::from(i16::max_value())) as i16
     }
 }
 #[cfg(test)]
-- 
2.43.0


From f31ba0038f5d11e124dd03172153e1c023dfb3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 22/31] fix: out of range compressor options panicked or made
 undecodable or wrong streams

---
 src/brotli_ir_gen.rs         |  9 ++-------
 src/divans_compressor.rs     |  1 +
 src/interface.rs             | 18 ++++++++++++++++++
 src/probability/interface.rs |  2 ++
 4 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/brotli_ir_gen.rs b/src/brotli_ir_gen.rs
index ae3542e..5134cce 100644
--- a/src/brotli_ir_gen.rs
+++ b/src/brotli_ir_gen.rs
@@ -345,14 +345,9 @@ impl<AllocU8:Allocator<u8>,
                                                                AllocBrotli>;
       type AdditionalArgs = AllocBrotli;
         fn new(mut m8: AllocU8, _m32: AllocU32, mcdf16:AllocCDF16,
-               mut opt: super::interface::DivansCompressorOptions,
+               opt: super::interface::DivansCompressorOptions,
                additional_args: Self::AdditionalArgs) -> Self::ConstructedCompressor {
-        if let Some(ref mut speeds) = opt.literal_adaptation {
-            for speed in speeds.iter_mut() { // the command generator must not overflow its CDFs either
-                let inc = min(speed.inc(), ::probability::Speed::MAX_INC);
-                speed.set_inc(inc);
-            }
-        }
+        let opt = opt.sanitized();
         let window_size = min(24, max(10, opt.window_size.unwrap_or(22)));
         let cmd_enc = Self::DefaultEncoder::new(&mut m8);
         let lit_enc = Self::DefaultEncoder::new(&mut m8);
diff --git a/src/divans_compressor.rs b/src/divans_compressor.rs
index 1950ffe..b943a47 100644
--- a/src/divans_compressor.rs
+++ b/src/divans_compressor.rs
@@ -88,6 +88,7 @@ impl<AllocU8:Allocator<u8>,
      fn new(mut m8: AllocU8, mut m32: AllocU32, mcdf16:AllocCDF16,
             opts: super::interface::DivansCompressorOptions,
             _additional_args: ()) -> DivansCompressor<Self::DefaultEncoder, AllocU8, AllocU32, AllocCDF16> {
+         let opts = opts.sanitized();
          let window_size = core::cmp::min(24, core::cmp::max(10, opts.window_size.unwrap_or(22)));
          let ring_buffer = m8.alloc_cell(1<<window_size);
          let prediction_mode_backing = m8.alloc_cell(interface::MAX_PREDMODE_SPEED_AND_DISTANCE_CONTEXT_MAP_SIZE);
diff --git a/src/interface.rs b/src/interface.rs
index 09f354c..9ae934f 100644
--- a/src/interface.rs
+++ b/src/interface.rs
@@ -460,6 +460,24 @@ pub struct DivansCompressorOptions{
     pub brotli_literal_byte_score: Option<u32>,
     pub divans_ir_optimizer: u8,
 }
+impl DivansCompressorOptions {
+    /// The same options with the values that the format, the probability models or the
+    /// brotli command selection cannot represent replaced by the nearest ones they can.
+    pub fn sanitized(mut self) -> Self {
+        self.dynamic_context_mixing = self.dynamic_context_mixing.map(|mixing| core::cmp::min(mixing, 7));
+        self.prior_depth = self.prior_depth.map(|depth| core::cmp::min(depth, 15));
+        if let Some(ref mut speeds) = self.literal_adaptation {
+            for speed in speeds.iter_mut() {
+                let inc = core::cmp::max(0, core::cmp::min(speed.inc(), probability::Speed::MAX_INC));
+                let lim = core::cmp::max(0, core::cmp::min(speed.lim(), probability::Speed::MAX_LIM));
+                *speed = probability::Speed::new(inc, lim);
+            }
+        }
+        // larger scores select dictionary words for the sake of a single byte, which brotli miscounts
+        self.brotli_literal_byte_score = self.brotli_literal_byte_score.map(|score| core::cmp::min(score, 2048));
+        self
+    }
+}
 impl Default for DivansCompressorOptions{
     fn default() ->Self {
         DivansCompressorOptions{
diff --git a/src/probability/interface.rs b/src/probability/interface.rs
index 8c6a8a7..efa42c5 100644
--- a/src/probability/interface.rs
+++ b/src/probability/interface.rs
@@ -328,6 +328,8 @@ impl Speed {
     pub const ROCKET: Speed =Speed(0x0180, 0x4000);
     // the largest increment that can be added for ever without filling the 15 bits of a CDF
     pub const MAX_INC: i16 = 0x1e00;
+    // the largest limit the command generator is given
+    pub const MAX_LIM: i16 = 0x4000;
     const MAX_STORED: i16 = 0x4800;
     pub fn to_f8_tuple(&self) -> (u8, u8) {
         (speed_to_u8(self.inc()), speed_to_u8(self.lim()))
-- 
2.43.0


From ae1de41b650155e2b215d8b0b8802a7c6798b044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 23/31] fix: freeing a decompressor by reference, or one with
 unread input, lost a block of the caller's allocator

---
 src/codec/mod.rs | 3 ++-
 src/threading.rs | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/codec/mod.rs b/src/codec/mod.rs
index 9491ca3..b1c4a6a 100755
--- a/src/codec/mod.rs
+++ b/src/codec/mod.rs
@@ -327,7 +327,8 @@ impl<AllocU8: Allocator<u8>,
                                LiteralCommand::<AllocatedMemoryPrefix<u8, AllocU8>>::nop()).data);
 
         self.state_prediction_mode.free(self.cross_command_state.thread_ctx.m8().unwrap());
-        self.cross_command_state.free_ref()
+        self.cross_command_state.free_ref();
+        self.cross_command_state.thread_ctx.m8().unwrap().free_ref(); // the cached allocation
     }
     #[inline(always)]
     fn update_command_state_from_nibble(&mut self, command_type_code:u8, is_end: bool) -> DivansResult{
diff --git a/src/threading.rs b/src/threading.rs
index 6cf1b7b..31086fa 100755
--- a/src/threading.rs
+++ b/src/threading.rs
@@ -370,8 +370,7 @@ impl<AllocU8:Allocator<u8>, WorkerInterface:ThreadToMain<AllocU8>> StreamDemuxer
     #[inline(always)]
     fn free_demux(&mut self, m8: &mut AllocU8){
         if self.slice.0.slice().len() != 0 {
-            self.worker.push_consumed_data(&mut self.slice, None);
-            m8.free_cell(core::mem::replace(&mut self.slice.0, AllocU8::AllocatedMemory::default()));
+            m8.free_cell(core::mem::replace(&mut self.slice, AllocatedMemoryRange::<u8, AllocU8>::default()).0);
         }
     }
 }
-- 
2.43.0


From c5162726aa1de1df4d1eed6d42ad636f899c6d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 24/31] fix: empty blocks taken from C allocators were never
 returned

---
 src/ffi/alloc_util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ffi/alloc_util.rs b/src/ffi/alloc_util.rs
index 87d02f2..ca24b03 100644
--- a/src/ffi/alloc_util.rs
+++ b/src/ffi/alloc_util.rs
@@ -70,6 +70,9 @@ impl<Ty:Sized+Default+Clone> SubclassableAllocator<Ty> {
 impl<Ty:Sized+Default+Clone> alloc::Allocator<Ty> for SubclassableAllocator<Ty> {
     type AllocatedMemory = MemoryBlock<Ty>;
     fn alloc_cell(&mut self, size:usize) ->MemoryBlock<Ty>{
+        if size == 0 {
+            return MemoryBlock::default(); // free_cell could not tell such a block from no block
+        }
         if let Some(alloc_fn) = self.alloc.alloc_func {
             let ptr = alloc_fn(self.alloc.opaque, size * core::mem::size_of::<Ty>());
             let typed_ptr = unsafe {core::mem::transmute::<*mut c_void, *mut Ty>(ptr)};
@@ -169,6 +172,9 @@ impl<Ty:Sized+Default> core::ops::IndexMut<usize> for MemoryBlock<Ty> {
 impl<Ty:Sized+Default+Clone> alloc::Allocator<Ty> for SubclassableAllocator<Ty> {
     type AllocatedMemory = MemoryBlock<Ty>;
     fn alloc_cell(&mut self, size:usize) ->MemoryBlock<Ty>{
+        if size == 0 {
+            return MemoryBlock::default(); // free_cell could not tell such a block from no block
+        }
         if let Some(alloc_fn) = self.alloc.alloc_func {
             let ptr = alloc_fn(self.alloc.opaque, size * core::mem::size_of::<Ty>());
             let typed_ptr = unsafe {core::mem::transmute::<*mut c_void, *mut Ty>(ptr)};
-- 
2.43.0


From eb9709da6c73b4102674822d31204f4687daaf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 25/31] fix: the decoding thread of a dropped decompressor
 waited for input forever

---
 src/multithreading.rs        | 10 ++++++++++
 src/parallel_decompressor.rs | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/multithreading.rs b/src/multithreading.rs
index da9e6a2..e518c54 100755
--- a/src/multithreading.rs
+++ b/src/multithreading.rs
@@ -133,6 +133,16 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> MultiWorker<A
         thread_debug!(_thread_event_type, output.len(), self, _elapsed);
         return ret;        
     }
+    // nobody listens any more: wakes up a thread that waits for this side
+    pub fn abandon(&self) {
+        let &(ref lock, ref cvar) = &*self.queue;
+        if let Ok(mut worker) = lock.lock() {
+            if worker.err.is_none() {
+                worker.broadcast_err_internal(ErrMsg::UnexpectedEof);
+            }
+            cvar.notify_all();
+        }
+    }
     pub fn has_err(&self) -> bool {
         let &(ref lock, _) = &*self.queue;
         lock.lock().unwrap().err.is_some()
diff --git a/src/parallel_decompressor.rs b/src/parallel_decompressor.rs
index cb57aca..6cc8bf6 100755
--- a/src/parallel_decompressor.rs
+++ b/src/parallel_decompressor.rs
@@ -40,6 +40,15 @@ pub struct ParallelDivansProcess<DefaultDecoder: ArithmeticEncoderOrDecoder + Ne
     bytes_encoded: usize,
     mcommand: AllocCommand,
     failure: Option<ErrMsg>,
+    _abandon_on_drop: AbandonOnDrop<AllocU8, AllocCommand>,
+}
+
+// a decompressor that is dropped unfinished must not leave its thread waiting for input forever
+struct AbandonOnDrop<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>>(MultiWorker<AllocU8, AllocCommand>);
+impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> Drop for AbandonOnDrop<AllocU8, AllocCommand> {
+    fn drop(&mut self) {
+        self.0.abandon();
+    }
 }
 
 
@@ -143,6 +152,7 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
             codec:worker_codec,
             literal_decoder:Some(main_thread_codec),
             bytes_encoded:0,
+            _abandon_on_drop: AbandonOnDrop(multi_worker.clone()),
             worker: multi_worker,
         }
     }
-- 
2.43.0


From 5ada13dd8001c0a049dedcc51d199d0ab7a6ea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 26/31] fix: a refused prediction mode was dropped instead of
 returned to the caller's allocator

---
 src/codec/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/codec/decoder.rs b/src/codec/decoder.rs
index 677f290..4f58d4d 100644
--- a/src/codec/decoder.rs
+++ b/src/codec/decoder.rs
@@ -395,7 +395,11 @@ impl<Cdf16:CDF16,
                             &mut self.ctx.mcdf16);
                         match ret {
                             DivansOpResult::Success => {},
-                            _ => return DecoderResult::Processed(DivansResult::from(ret)),
+                            _ => {
+                                free_cmd(&mut Command::PredictionMode(pred_mode),
+                                         &mut self.ctx.m8.use_cached_allocation::<UninitializedOnAlloc>());
+                                return DecoderResult::Processed(DivansResult::from(ret));
+                            },
                         }
                         self.codec_traits = construct_codec_trait_from_bookkeeping(&self.ctx.lbk);
                         match worker.push_context_map(pred_mode) {
-- 
2.43.0


From 61ba1388c6470bd665eb4f537e4be76a54eb1f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:03 +0000
Subject: [PATCH 27/31] fix: the C header declared the custom-allocator
 decompressor without its multithread argument

---
 c/divans/ffi.h | 2 +-
 c/example.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/divans/ffi.h b/c/divans/ffi.h
index 8e603b1..fbe93d5 100644
--- a/c/divans/ffi.h
+++ b/c/divans/ffi.h
@@ -58,7 +58,7 @@ void divans_free_compressor(struct DivansCompressorState* mfd);
 
 
 struct DivansDecompressorState* divans_new_decompressor();
-struct DivansDecompressorState* divans_new_decompressor_with_custom_alloc(struct CAllocator alloc, uint8_t skip_crc);
+struct DivansDecompressorState* divans_new_decompressor_with_custom_alloc(struct CAllocator alloc, uint8_t skip_crc, uint8_t multithread);
 DivansResult divans_decode(struct DivansDecompressorState* state,
                            const uint8_t *input_buf_ptr, size_t input_size, size_t*input_offset,
                            uint8_t *output_buf_ptr, size_t output_size, size_t *output_offset);
diff --git a/c/example.c b/c/example.c
index 4c223e7..a559786 100644
--- a/c/example.c
+++ b/c/example.c
@@ -59,7 +59,7 @@ DivansResult compress(const unsigned char *data, size_t len, struct VecU8 *ret_b
 DivansResult decompress(const unsigned char *data, size_t len, struct VecU8 *ret_buffer) {
     unsigned char buf[BUF_SIZE];
     struct CAllocator alloc = {custom_malloc, custom_free, custom_alloc_opaque};
-    struct DivansDecompressorState *state = divans_new_decompressor_with_custom_alloc(alloc, 0);
+    struct DivansDecompressorState *state = divans_new_decompressor_with_custom_alloc(alloc, 0, 1);
     DivansResult res;
     do {
         size_t read_offset = 0;
-- 
2.43.0


From e090ed316c7f59eb86e638bae83c7566cbaa9f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:03 +0000
Subject: [PATCH 28/31] fix: an empty C buffer given as NULL became an invalid
 slice

---
 src/ffi/mod.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/ffi/mod.rs b/src/ffi/mod.rs
index af84f97..928865d 100755
--- a/src/ffi/mod.rs
+++ b/src/ffi/mod.rs
@@ -54,6 +54,21 @@ pub unsafe extern fn divans_new_compressor_with_custom_alloc(allocators:CAllocat
 
 
 
+// an empty buffer may come with any pointer from C, NULL included
+unsafe fn slice_from_c<'a>(ptr: *const u8, size: usize) -> &'a [u8] {
+    if size == 0 {
+        return &[];
+    }
+    slice::from_raw_parts(ptr, size)
+}
+
+unsafe fn slice_from_c_mut<'a>(ptr: *mut u8, size: usize) -> &'a mut [u8] {
+    if size == 0 {
+        return &mut [];
+    }
+    slice::from_raw_parts_mut(ptr, size)
+}
+
 #[no_mangle]
 pub unsafe extern fn divans_set_option(state_ptr: *mut DivansCompressorState,
                                        selector: DivansOptionSelect,
@@ -70,8 +85,8 @@ pub unsafe extern fn divans_set_option(state_ptr: *mut DivansCompressorState,
 pub unsafe extern fn divans_encode(state_ptr: *mut DivansCompressorState,
                                    input_buf_ptr: *const u8, input_size: usize, input_offset_ptr: *mut usize,
                                    output_buf_ptr: *mut u8, output_size: usize, output_offset_ptr: *mut usize) -> DivansReturnCode {
-    let input_buf = slice::from_raw_parts(input_buf_ptr, input_size);
-    let output_buf = slice::from_raw_parts_mut(output_buf_ptr, output_size);
+    let input_buf = slice_from_c(input_buf_ptr, input_size);
+    let output_buf = slice_from_c_mut(output_buf_ptr, output_size);
     match input_offset_ptr.as_mut() {
         None => return DIVANS_FAILURE,
         Some(input_offset) => {
@@ -93,7 +108,7 @@ pub unsafe extern fn divans_encode(state_ptr: *mut DivansCompressorState,
 #[no_mangle]
 pub unsafe extern fn divans_encode_flush(state_ptr: *mut DivansCompressorState,
                                          output_buf_ptr: *mut u8, output_size: usize, output_offset_ptr: *mut usize) -> DivansReturnCode {
-    let output_buf = slice::from_raw_parts_mut(output_buf_ptr, output_size);
+    let output_buf = slice_from_c_mut(output_buf_ptr, output_size);
     match output_offset_ptr.as_mut() {
         None => return DIVANS_FAILURE,
         Some(output_offset) => {
@@ -236,8 +251,8 @@ pub unsafe extern fn divans_new_decompressor_with_custom_alloc(allocators:CAlloc
 pub unsafe extern fn divans_decode(state_ptr: *mut DivansDecompressorState,
                                    input_buf_ptr: *const u8, input_size: usize, input_offset_ptr: *mut usize,
                                    output_buf_ptr: *mut u8, output_size: usize, output_offset_ptr: *mut usize) -> DivansReturnCode {
-    let input_buf = slice::from_raw_parts(input_buf_ptr, input_size);
-    let output_buf = slice::from_raw_parts_mut(output_buf_ptr, output_size);
+    let input_buf = slice_from_c(input_buf_ptr, input_size);
+    let output_buf = slice_from_c_mut(output_buf_ptr, output_size);
     match input_offset_ptr.as_mut() {
         None => return DIVANS_FAILURE,
         Some(input_offset) => {
-- 
2.43.0


From a0d729bdfb8507ca4b8e0720cd3b437bb6f20e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:25 +0000
Subject: [PATCH 29/31] fix: command text with an out-of-range block type or
 dictionary field was taken as another value

---
 src/bin/divans.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bin/divans.rs b/src/bin/divans.rs
index cf2f306..e0a2090 100644
--- a/src/bin/divans.rs
+++ b/src/bin/divans.rs
@@ -322,8 +322,8 @@ fn command_parse(s : &str) -> Result<Option<Command<ItemVec<u8>>>, io::Error> {
             return Err(io::Error::new(io::ErrorKind::InvalidInput,
                                       "*type needs 1 argument"));
         }
-        let block_type = match command_vec[1].parse::<u32>() {
-            Ok(el) => el as u8,
+        let block_type = match command_vec[1].parse::<u8>() {
+            Ok(el) => el,
             Err(msg) => {
                 return Err(io::Error::new(io::ErrorKind::InvalidInput,
                                           msg.description()));
@@ -386,13 +386,13 @@ fn command_parse(s : &str) -> Result<Option<Command<ItemVec<u8>>>, io::Error> {
             return Err(io::Error::new(io::ErrorKind::InvalidInput,
                                       "dict needs 6+ arguments"));
         }
-        let expected_len = match command_vec[1].parse::<u32>() {
+        let expected_len = match command_vec[1].parse::<u8>() {
             Ok(el) => el,
             Err(msg) => {
                 return Err(io::Error::new(io::ErrorKind::InvalidInput,
                                           msg.description()));
             }
-        } as u8;
+        };
         if command_vec[2] != "word" {
             return Err(io::Error::new(io::ErrorKind::InvalidInput,
                                       s.to_string() + " needs a word after the expected len"));
@@ -402,13 +402,13 @@ fn command_parse(s : &str) -> Result<Option<Command<ItemVec<u8>>>, io::Error> {
             return Err(io::Error::new(io::ErrorKind::InvalidInput,
                                       s.to_string() + " needs a comma separated word value"));
         }
-        let word_len = match word_id[0].parse::<u32>() {
+        let word_len = match word_id[0].parse::<u8>() {
             Ok(el) => el,
             Err(msg) => {
                 return Err(io::Error::new(io::ErrorKind::InvalidInput,
                                           msg.description()));
             }
-        } as u8;
+        };
         let word_index = match word_id[1].parse::<u32>() {
             Ok(el) => el,
             Err(msg) => {
@@ -418,13 +418,13 @@ fn command_parse(s : &str) -> Result<Option<Command<ItemVec<u8>>>, io::Error> {
         };
         for index in 5..command_vec.len() {
             if command_vec[index - 1] == "func" {
-                let transform = match command_vec[index].parse::<u32>() {
+                let transform = match command_vec[index].parse::<u8>() {
                     Ok(el) => el,
                     Err(msg) => {
                         return Err(io::Error::new(io::ErrorKind::InvalidInput,
                                                   msg.description()));
                     }
-                } as u8;
+                };
                 return Ok(Some(Command::Dict(DictCommand{
                     word_size:word_len,
                     word_id:word_index,
-- 
2.43.0


From 884e0971763a5af355eb58293d2be5558db1d80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:35 +0000
Subject: [PATCH 30/31] fix: the tool reported success when the last of its
 output could not be written

---
 src/bin/divans.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bin/divans.rs b/src/bin/divans.rs
index e0a2090..bdc484e 100644
--- a/src/bin/divans.rs
+++ b/src/bin/divans.rs
@@ -604,7 +604,7 @@ fn recode_inner<Reader:std::io::BufRead,
         }
     }
 
-    Ok(())
+    w.flush()
 }
 
 fn allowed_command(_cmd: &Command<ItemVec<u8>>, _last_literal_switch: &mut divans::LiteralBlockSwitch) -> bool {
@@ -705,7 +705,7 @@ fn compress_inner<Reader:std::io::BufRead,
             }
         }
     }
-    Ok(())
+    w.flush()
 }
 fn compress_raw_inner<Compressor: divans::interface::Compressor,
                       Reader:std::io::Read,
@@ -823,7 +823,7 @@ fn compress_raw_inner<Compressor: divans::interface::Compressor,
     let mut m8 = free_state(compress_state);
     m8.free_cell(ibuffer);
     m8.free_cell(obuffer);
-    Ok(())
+    w.flush()
 }
 
 
@@ -1102,7 +1102,7 @@ fn decompress_generic<Reader:std::io::Read,
             }
         }
     }
-    Ok(())
+    w.flush()
 }
 
 fn recode<Reader:std::io::BufRead,
-- 
2.43.0


From da40396c0554e9ad71fc49ee540f081435077ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 31/31] fix: parsing a speed without a comma panicked instead
 of returning the error

---
 src/probability/interface.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/probability/interface.rs b/src/probability/interface.rs
index efa42c5..8fae9ea 100644
--- a/src/probability/interface.rs
+++ b/src/probability/interface.rs
@@ -397,15 +397,9 @@ impl core::str::FromStr for Speed {
             "PLANE" => Ok(Speed::PLANE),
             "ROCKET" => Ok(Speed::ROCKET),
             _ => {
-               let mut split_location = 0;
-               for (index, item) in inp.chars().enumerate() {
-                  if item == ',' {
-                     split_location = index;
-                     break
-                  }
-               }
-               let first_num_str = inp.split_at(split_location).0;
-               let second_num_str = inp.split_at(split_location + 1).1;
+               let mut nums = inp.splitn(2, ',');
+               let first_num_str = nums.next().unwrap_or("");
+               let second_num_str = nums.next().unwrap_or("");
                let conv_inc = u16::from_str(first_num_str);
                let conv_lim = u16::from_str(second_num_str);
                match conv_inc {
-- 
2.43.0

