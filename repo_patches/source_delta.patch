From eb4ad1fbb6a12d11ab00546e9490816c9ec88d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:09 +0000
Subject: [PATCH 01/15] fix: ThreadPool hangs forever when a worker fails

If a job throws, its successor (and the pool's owner, via wait/close) waited
forever for the failed job's output. Propagate the failure to the next thread
instead, such that wait() and close() report it.
---
 include/chia/ThreadPool.h | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/include/chia/ThreadPool.h b/include/chia/ThreadPool.h
index d36dc03..9296786 100644
--- a/include/chia/ThreadPool.h
+++ b/include/chia/ThreadPool.h
@@ -19,6 +19,8 @@ class ThreadPool : public Processor<T> {
 private:
 	struct thread_t {
 		uint64_t job = -1;
+		bool is_fail = false;
+		std::string ex_what;
 		std::mutex mutex;
 		std::condition_variable signal;
 		std::shared_ptr<Thread<T>> thread;
@@ -106,16 +108,30 @@ private:
 			std::lock_guard<std::mutex> lock(state->mutex);
 			job = state->job;
 		}
-		S out;
-		execute(input, out, state->local);
-		{
-			std::unique_lock<std::mutex> lock(prev->mutex);
-			while(prev->job < job) {
-				prev->signal.wait(lock);
+		try {
+			S out;
+			execute(input, out, state->local);
+			{
+				std::unique_lock<std::mutex> lock(prev->mutex);
+				while(prev->job < job) {
+					if(prev->is_fail) {
+						throw std::runtime_error(prev->ex_what);
+					}
+					prev->signal.wait(lock);
+				}
 			}
-		}
-		if(output) {
-			output->take(out);	// only one thread can be at this position
+			if(output) {
+				output->take(out);	// only one thread can be at this position
+			}
+		} catch(const std::exception& ex) {
+			{
+				// next thread would wait forever for our output
+				std::lock_guard<std::mutex> lock(state->mutex);
+				state->is_fail = true;
+				state->ex_what = ex.what();
+			}
+			state->signal.notify_all();
+			throw;
 		}
 		{
 			std::lock_guard<std::mutex> lock(state->mutex);
-- 
2.43.0


From bbed062e05200aaa7ee77f9bba7305f927beeb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:01 +0000
Subject: [PATCH 02/15] fix: DiskSort bucket file closed twice when fclose()
 fails

bucket_t::close() threw with 'file' still set, such that the destructor (or
remove()) called fclose() again on the already freed stream.
---
 include/chia/DiskSort.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/chia/DiskSort.hpp b/include/chia/DiskSort.hpp
index 4df7c78..d1e2186 100644
--- a/include/chia/DiskSort.hpp
+++ b/include/chia/DiskSort.hpp
@@ -44,10 +44,11 @@ template<typename T, typename Key>
 void DiskSort<T, Key>::bucket_t::close()
 {
 	if(file) {
-		if(fclose(file)) {
+		FILE* tmp = file;
+		file = nullptr;		// never close twice, even if fclose() fails
+		if(fclose(tmp)) {
 			throw std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));
 		}
-		file = nullptr;
 	}
 }
 
-- 
2.43.0


From cacbdb8e2c856bc633783a372379d9ce51703f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:01 +0000
Subject: [PATCH 03/15] fix: DiskTable::close() ignores fclose() failure

Data still buffered in the stream is written by fclose(), when that fails the
table is incomplete on disk and this went unnoticed.
---
 include/chia/DiskTable.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/chia/DiskTable.h b/include/chia/DiskTable.h
index 2ed6b1d..5bb47fe 100644
--- a/include/chia/DiskTable.h
+++ b/include/chia/DiskTable.h
@@ -116,8 +116,11 @@ public:
 	void close() {
 		if(file_out) {
 			flush();
-			fclose(file_out);
+			FILE* file = file_out;
 			file_out = nullptr;
+			if(fclose(file)) {
+				throw std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));
+			}
 		}
 	}
 	
-- 
2.43.0


From eee08eaf139a4f8a73c5b207a9b4eadbff6930e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:39 +0000
Subject: [PATCH 04/15] fix: copy_file() treats a read error as end of file

---
 include/chia/copy.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/chia/copy.h b/include/chia/copy.h
index 8d9b40e..5ab4271 100644
--- a/include/chia/copy.h
+++ b/include/chia/copy.h
@@ -37,6 +37,12 @@ uint64_t copy_file(const std::string& src_path, const std::string& dst_path)
 	std::vector<uint8_t> buffer(g_read_chunk_size * 16);
 	while(true) {
 		const auto num_bytes = fread(buffer.data(), 1, buffer.size(), src);
+		if(num_bytes < buffer.size() && ferror(src)) {
+			const auto err = errno;
+			fclose(src);
+			fclose(dst);
+			throw std::runtime_error("fread() failed on " + src_path + " (" + std::string(std::strerror(err)) + ")");
+		}
 		if(fwrite(buffer.data(), 1, num_bytes, dst) != num_bytes) {
 			const auto err = errno;
 			fclose(src);
-- 
2.43.0


From 3023727b2ae9635c25af25409cabc970075add29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:39 +0000
Subject: [PATCH 05/15] fix: final_copy() removes the source and reports
 success when the final rename() fails

---
 include/chia/copy.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/chia/copy.h b/include/chia/copy.h
index 5ab4271..04f6556 100644
--- a/include/chia/copy.h
+++ b/include/chia/copy.h
@@ -70,12 +70,21 @@ uint64_t final_copy(const std::string& src_path, const std::string& dst_path)
 	}
 	const std::string tmp_dst_path = dst_path + ".tmp";
 	uint64_t total_bytes = 109521666048ull;
-	if(rename(src_path.c_str(), tmp_dst_path.c_str())) {
+	const bool is_moved = rename(src_path.c_str(), tmp_dst_path.c_str()) == 0;
+	if(!is_moved) {
 		// try manual copy
 		total_bytes = copy_file(src_path, tmp_dst_path);
 	}
-	remove(src_path.c_str());
-	rename(tmp_dst_path.c_str(), dst_path.c_str());
+	if(rename(tmp_dst_path.c_str(), dst_path.c_str())) {
+		const auto err = errno;
+		if(is_moved) {
+			rename(tmp_dst_path.c_str(), src_path.c_str());		// restore source, to be able to retry
+		}
+		throw std::runtime_error("rename() failed for " + dst_path + " (" + std::string(std::strerror(err)) + ")");
+	}
+	if(!is_moved) {
+		remove(src_path.c_str());
+	}
 	return total_bytes;
 }
 
-- 
2.43.0


From 97550982159fa85e46fcd8a72a1cd2e05b1b4735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:39 +0000
Subject: [PATCH 06/15] fix: phase 4 ignores fclose() and rename() failures of
 the plot file

---
 include/chia/phase4.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/chia/phase4.hpp b/include/chia/phase4.hpp
index 95cf52e..681d8bb 100644
--- a/include/chia/phase4.hpp
+++ b/include/chia/phase4.hpp
@@ -258,12 +258,16 @@ void compute(	const phase3::output_t& input, output_t& out,
 	out.plot_size = compute(plot_file, input.params.k, input.header_size, input.sort_7.get(),
 							num_threads, input.final_pointer_7, input.num_written_7);
 	
-	fclose(plot_file);
+	if(fclose(plot_file)) {
+		throw std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));
+	}
 	
 	out.params = input.params;
 	out.plot_file_name = plot_dir + plot_name + ".plot";
 	
-	std::rename(input.plot_file_name.c_str(), out.plot_file_name.c_str());
+	if(std::rename(input.plot_file_name.c_str(), out.plot_file_name.c_str())) {
+		throw std::runtime_error("rename() failed with: " + std::string(std::strerror(errno)));
+	}
 	
 	std::cout << "Phase 4 took " << (get_wall_time_micros() - total_begin) / 1e6 << " sec"
 			", final plot size is " << out.plot_size << " bytes" << std::endl;
-- 
2.43.0


From b05cac0dd31f7bbde931cee623d4c85266509554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:39 +0000
Subject: [PATCH 07/15] fix: write errors of the plot header are ignored

---
 include/chia/phase3.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/chia/phase3.hpp b/include/chia/phase3.hpp
index 804b8b1..d039721 100644
--- a/include/chia/phase3.hpp
+++ b/include/chia/phase3.hpp
@@ -260,7 +260,9 @@ uint32_t WriteHeader(
 	uint8_t pointers[10 * 8] = {};
 	num_bytes += fwrite((pointers), 8, 10, file) * 8;
 
-	fflush(file);
+	if(fflush(file) || ferror(file)) {
+		throw std::runtime_error("failed to write plot header: " + std::string(std::strerror(errno)));
+	}
 	std::cout << "Wrote plot header with " << num_bytes << " bytes" << std::endl;
 	return num_bytes;
 }
-- 
2.43.0


From 59a69006cf9df1a91312f69430f473bded85c256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:14 +0000
Subject: [PATCH 08/15] fix: appending zero bits to a full bit string creates
 an empty bucket

---
 include/chia/bits.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/chia/bits.hpp b/include/chia/bits.hpp
index 195ea26..1c28fb4 100644
--- a/include/chia/bits.hpp
+++ b/include/chia/bits.hpp
@@ -375,6 +375,9 @@ public:
 
     void DoAppendValue(uint64_t value, uint8_t length)
     {
+        if (length == 0 && values_.size() > 0) {
+            return;  // nothing to append, do not create an empty bucket
+        }
         // The last bucket is full or no bucket yet, create a new one.
         if (values_.size() == 0 || last_size_ == 64) {
             values_.push_back(value);
-- 
2.43.0


From 6fc8889f6ab138579277e6dd667eb2505a750d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:14 +0000
Subject: [PATCH 09/15] hook: format scale and F1 block size overridable in
 verification builds (CHIA_MC_SCALE, CHIA_MC_F1_BLOCK)

---
 include/chia/chia.h     | 5 +++++
 include/chia/phase1.hpp | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/include/chia/chia.h b/include/chia/chia.h
index c621b88..e007c96 100644
--- a/include/chia/chia.h
+++ b/include/chia/chia.h
@@ -46,6 +46,10 @@ static const uint8_t kVectorLens[] = {0, 0, 1, 2, 4, 4, 3, 2};
 // The number of bits in the stub is k minus this value
 static constexpr uint8_t kStubMinusBits = 3;
 
+#ifdef CHIA_MC_SCALE
+// Verification builds only: scaled-down format parameters (park size, delta space, checkpoint intervals)
+#include CHIA_MC_SCALE
+#else
 // EPP for the final file, the higher this is, the less variability, and lower delta
 // Note: if this is increased, ParkVector size must increase
 static constexpr uint32_t kEntriesPerPark = 2048;
@@ -60,6 +64,7 @@ static constexpr uint32_t kCheckpoint2Interval = 10000;
 
 // C3 entries contain deltas for f7 values, the max average size is the following
 static constexpr double kC3BitsPerEntry = 2.4;
+#endif // CHIA_MC_SCALE
 
 // The ANS encoding R values for the 7 final plot tables
 // Tweaking the R values might allow lowering of the max average deltas, and reducing final
diff --git a/include/chia/phase1.hpp b/include/chia/phase1.hpp
index c2d0db1..eb3acc9 100644
--- a/include/chia/phase1.hpp
+++ b/include/chia/phase1.hpp
@@ -260,7 +260,11 @@ private:
 template<typename DS>
 void compute_f1(const uint8_t* id, int k, int num_threads, DS* T1_sort)
 {
+#ifdef CHIA_MC_F1_BLOCK
+	static constexpr size_t M = CHIA_MC_F1_BLOCK;	// verification builds only (small k)
+#else
 	static constexpr size_t M = 4096;	// F1 block size
+#endif
 	
 	const auto begin = get_wall_time_micros();
 	
-- 
2.43.0


From 77f16cfb332f2f2bdeedbe7c161ccffd6558ee29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:57 +0000
Subject: [PATCH 10/15] fix: phase3: end-of-input decision in the join must be
 taken under the lock, a merge thread could miss the last buffer and fail with
 'position out of bounds'

---
 include/chia/phase3.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/chia/phase3.hpp b/include/chia/phase3.hpp
index d039721..37c5427 100644
--- a/include/chia/phase3.hpp
+++ b/include/chia/phase3.hpp
@@ -120,6 +120,7 @@ void compute_stage1(int L_index, int num_threads,
 				pos[1] -= L_buffer.offset;
 				
 				while(L_buffer.new_pos.size() <= pos[1]) {
+					bool is_end = false;		// no more input and everything copied already
 					{
 						std::unique_lock<std::mutex> lock(mutex);
 						while(true) {
@@ -135,12 +136,13 @@ void compute_stage1(int L_index, int num_threads,
 							if(do_wait && !L_is_end) {
 								signal.wait(lock);		// wait for new input
 							} else {
+								is_end = do_wait;
 								break;
 							}
 						}
 					}
 					signal_1.notify_all();	// notify copy_sync change
-					if(L_is_end) {
+					if(is_end) {
 						break;
 					}
 				}
-- 
2.43.0


From ab2fc855e43aef75a332246da736a453e746eaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:43 +0000
Subject: [PATCH 11/15] fix: phase1: no entries in the first group is not a
 left neighbour, compute_matches dereferenced a null bucket

---
 include/chia/phase1.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/chia/phase1.hpp b/include/chia/phase1.hpp
index eb3acc9..5f310cc 100644
--- a/include/chia/phase1.hpp
+++ b/include/chia/phase1.hpp
@@ -368,7 +368,7 @@ uint64_t compute_matches(	int R_index, int k, int num_threads,
 					throw std::logic_error("input not sorted");
 				}
 				if(index > L_index[0]) {
-					if(L_index[1] + 1 == L_index[0]) {
+					if(L_bucket[1] && L_index[1] + 1 == L_index[0]) {
 						match_input_t pair;
 						pair.L_offset = L_offset;
 						pair.L_bucket = L_bucket;
@@ -401,7 +401,7 @@ uint64_t compute_matches(	int R_index, int k, int num_threads,
 	read_thread.close();
 	match_pool.close();
 	
-	if(L_index[1] + 1 == L_index[0]) {
+	if(L_bucket[1] && L_index[1] + 1 == L_index[0]) {
 		FxMatcher<T> Fx;
 		std::vector<match_t<T>> matches;
 		num_found += Fx.find_matches(L_offset[1], *L_bucket[1], *L_bucket[0], matches);
-- 
2.43.0


From dd8e48525122bf4c0390c7db37420b566e74661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:08 +0000
Subject: [PATCH 12/15] fix: malformed hex strings accepted as keys or plot id,
 hex_to_bytes() parsed invalid characters as zero

---
 include/chia/util.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/chia/util.hpp b/include/chia/util.hpp
index 5e563a2..907858b 100644
--- a/include/chia/util.hpp
+++ b/include/chia/util.hpp
@@ -384,6 +384,9 @@ inline
 std::vector<uint8_t> hex_to_bytes(const std::string& hex)
 {
 	std::vector<uint8_t> result;
+	if(hex.length() % 2 || hex.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) {
+		return result;		// not a hex string, rejected by size check of caller
+	}
 	for(size_t i = 0; i < hex.length(); i += 2) {
 		const std::string byteString = hex.substr(i, 2);
 		result.push_back(::strtol(byteString.c_str(), NULL, 16));
-- 
2.43.0


From 23e2bb3ff04cd59f34030fb9e5f11c9c39f3cd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:08 +0000
Subject: [PATCH 13/15] fix: final_copy() retried forever when the move to the
 final name and its undo both failed, move with a single rename()

---
 include/chia/copy.h | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/chia/copy.h b/include/chia/copy.h
index 04f6556..34ecdbc 100644
--- a/include/chia/copy.h
+++ b/include/chia/copy.h
@@ -70,20 +70,15 @@ uint64_t final_copy(const std::string& src_path, const std::string& dst_path)
 	}
 	const std::string tmp_dst_path = dst_path + ".tmp";
 	uint64_t total_bytes = 109521666048ull;
-	const bool is_moved = rename(src_path.c_str(), tmp_dst_path.c_str()) == 0;
-	if(!is_moved) {
+	if(rename(src_path.c_str(), dst_path.c_str())) {
 		// try manual copy
 		total_bytes = copy_file(src_path, tmp_dst_path);
-	}
-	if(rename(tmp_dst_path.c_str(), dst_path.c_str())) {
-		const auto err = errno;
-		if(is_moved) {
-			rename(tmp_dst_path.c_str(), src_path.c_str());		// restore source, to be able to retry
+		if(rename(tmp_dst_path.c_str(), dst_path.c_str())) {
+			throw std::runtime_error("rename() failed for " + dst_path + " (" + std::string(std::strerror(errno)) + ")");
 		}
-		throw std::runtime_error("rename() failed for " + dst_path + " (" + std::string(std::strerror(err)) + ")");
-	}
-	if(!is_moved) {
 		remove(src_path.c_str());
+	} else {
+		remove(tmp_dst_path.c_str());		// in case a previous attempt failed half way
 	}
 	return total_bytes;
 }
-- 
2.43.0


From d4d3bc1cb9cbb1d5f94bb67f9a2ad94ce82e9c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:51 +0000
Subject: [PATCH 14/15] fix: parks: entropy coder wrote past the end of the
 park buffer when the deltas (nearly) fill or exceed its space

FSE stores whole words and ANSEncodeDeltas() assumes 8 bytes per delta, so encode
into a buffer of that size and copy after the size check (phase 3 and phase 4).
---
 include/chia/phase3.hpp | 21 ++++++++++++---------
 include/chia/phase4.hpp |  4 +++-
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/chia/phase3.hpp b/include/chia/phase3.hpp
index 37c5427..a58b4f8 100644
--- a/include/chia/phase3.hpp
+++ b/include/chia/phase3.hpp
@@ -304,24 +304,27 @@ void WritePark(
     // be small, so we can compress them
     const double R = kRValues[table_index - 1];
     uint8_t* deltas_start = index + 2;
-    size_t deltas_size = Encoding::ANSEncodeDeltas(park_deltas, R, deltas_start);
+    std::vector<uint8_t> encoded(park_deltas.size() * 8);	// the space ANSEncodeDeltas() may use
+    const size_t encoded_size = Encoding::ANSEncodeDeltas(park_deltas, R, encoded.data());
+    const size_t deltas_size = encoded_size ? encoded_size : park_deltas.size();
+    const uint64_t park_bytes = (deltas_start - park_buffer) + deltas_size;
 
-    if (!deltas_size) {
+    if (park_bytes > park_buffer_size) {
+        throw std::logic_error(
+            "Overflowed park buffer, writing " + std::to_string(park_bytes) +
+            " bytes. Space: " + std::to_string(park_buffer_size));
+    }
+    if (!encoded_size) {
         // Uncompressed
-        deltas_size = park_deltas.size();
         Util::IntToTwoBytesLE(index, deltas_size | 0x8000);
         memcpy(deltas_start, park_deltas.data(), deltas_size);
     } else {
         // Compressed
         Util::IntToTwoBytesLE(index, deltas_size);
+        memcpy(deltas_start, encoded.data(), deltas_size);
     }
-    index += 2 + deltas_size;
+    index = park_buffer + park_bytes;
 
-    if ((uint64_t)(index - park_buffer) > park_buffer_size) {
-        throw std::logic_error(
-            "Overflowed park buffer, writing " + std::to_string(index - park_buffer) +
-            " bytes. Space: " + std::to_string(park_buffer_size));
-    }
     memset(index, 0x00, park_buffer_size - (index - park_buffer));
 }
 
diff --git a/include/chia/phase4.hpp b/include/chia/phase4.hpp
index 681d8bb..250e8ae 100644
--- a/include/chia/phase4.hpp
+++ b/include/chia/phase4.hpp
@@ -122,13 +122,15 @@ uint64_t compute(	FILE* plot_file,
 			write_data_t tmp;
 			tmp.offset = park.offset;
 			tmp.buffer.resize(C3_size);
+			std::vector<uint8_t> encoded(park.deltas.size() * 8);	// the space ANSEncodeDeltas() may use
 			const size_t num_bytes =
-					Encoding::ANSEncodeDeltas(park.deltas, kC3R, tmp.buffer.data() + 2);
+					Encoding::ANSEncodeDeltas(park.deltas, kC3R, encoded.data());
 			
 			if(num_bytes + 2 > C3_size) {
 				throw std::logic_error("C3 overflow");
 			}
 			Util::IntToTwoBytes(tmp.buffer.data(), num_bytes);	// Write the size
+			memcpy(tmp.buffer.data() + 2, encoded.data(), num_bytes);
 			out.emplace_back(std::move(tmp));
 		}, &plot_write, std::max(num_threads / 2, 1), "phase4/C3");
 
-- 
2.43.0


From efac84a05b1b0e17924e0298ced3db5b00c1a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:07 +0000
Subject: [PATCH 15/15] fix: report deltas the entropy coder has no symbol for
 instead of storing a corrupt park

---
 include/chia/encoding.hpp | 5 +++++
 include/chia/phase4.hpp   | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/include/chia/encoding.hpp b/include/chia/encoding.hpp
index df76438..1c56900 100644
--- a/include/chia/encoding.hpp
+++ b/include/chia/encoding.hpp
@@ -197,6 +197,11 @@ public:
         }
 
         FSE_CTable *ct = tmCache.CTGet(R);
+        const unsigned maxSymbolValue = reinterpret_cast<const uint16_t *>(ct)[1];	// as stored by FSE_buildCTable()
+        for (const auto delta : deltas) {
+            if (delta > maxSymbolValue)
+                throw InvalidStateException("Delta too large to encode");
+        }
         return FSE_compress_usingCTable(
             out, deltas.size() * 8, static_cast<void *>(deltas.data()), deltas.size(), ct);
     }
diff --git a/include/chia/phase4.hpp b/include/chia/phase4.hpp
index 250e8ae..dffe577 100644
--- a/include/chia/phase4.hpp
+++ b/include/chia/phase4.hpp
@@ -183,6 +183,9 @@ uint64_t compute(	FILE* plot_file,
 				num_C1_entries++;
 			}
 			else {
+				if(entry_y - prev_y >= 256) {
+					throw std::logic_error("f7 delta >= 256 (" + std::to_string(uint64_t(entry_y - prev_y)) + ")");
+				}
 				park_deltas.deltas.push_back(entry_y - prev_y);
 			}
 			prev_y = entry_y;
-- 
2.43.0

