"""Mutation list for self-testing the checks: (name, property, [(file, old, new), ...]).
Run with tools/mutate.py; every one breaks the named property while the stable tests still pass (not all demonstrated; the demonstrated ones are in seeded/)."""
I = 'include/chia/'
TH, TP, DS, DT = I + 'Thread.h', I + 'ThreadPool.h', I + 'DiskSort.hpp', I + 'DiskTable.h'
P1, P2, P3, P4 = (I + 'phase%d.hpp' % i for i in (1, 2, 3, 4))
P1H, P2H, P3H = (I + 'phase%d.h' % i for i in (1, 2, 3))
EN, BI, UT, CP, BF, BX, BU = I + 'encoding.hpp', I + 'bits.hpp', I + 'util.hpp', I + 'copy.h', I + 'bitfield.hpp', I + 'bitfield_index.hpp', I + 'buffer.h'
M = 'src/chia_plot.cpp'
L = []
def m(name, prop, *edits): L.append((name, prop, list(edits)))

# --- C01 Thread
m('t-wait-no-busy', 'C01', (TH, 'while(do_run && (is_avail || is_busy)) {', 'while(do_run && is_avail) {'))
m('t-busy-early', 'C01', (TH, '\t\t\tis_avail = false;\n\t\t\tis_busy = true;\n\t\t\tlock.unlock();', '\t\t\tis_avail = false;\n\t\t\tlock.unlock();\n\t\t\tis_busy = true;'))
m('t-if-avail', 'C01', (TH, '\t\twhile(do_run && is_avail) {\n\t\t\tsignal.wait(lock);\n\t\t}\n\t\tif(!do_run)', '\t\tif(do_run && is_avail) {\n\t\t\tsignal.wait(lock);\n\t\t}\n\t\tif(!do_run)'))
m('t-take-no-notify', 'C01', (TH, '\t\t\twhile(do_run && is_avail && is_busy) {\n\t\t\t\tsignal.notify_all();\n', '\t\t\twhile(do_run && is_avail && is_busy) {\n'))
m('t-loop-no-notify', 'C01', (TH, '\t\t\t\tsignal.notify_all();\t// notify about is_busy change\n', ''))
m('t-loop-no-notify2', 'C01', (TH, '\t\t\tsignal.notify_all();\t\t// notify about is_busy + is_avail change\n', ''))
m('t-close-nowait', 'C01', (TH, '\t\twait();\n\t\tstd::unique_lock<std::mutex> lock(mutex);\n\t\tdo_run = false;', '\t\tstd::unique_lock<std::mutex> lock(mutex);\n\t\tdo_run = false;'))
m('t-take-nowaitpickup', 'C01', (TH, 'while(do_run && is_avail && is_busy) {', 'while(do_run && is_busy) {'))
m('t-copy-input', 'C01', (TH, 'T tmp = std::move(input);\n\t\t\tis_avail = false;\n\t\t\tis_busy = true;\n\t\t\tlock.unlock();', 'is_avail = false;\n\t\t\tis_busy = true;\n\t\t\tlock.unlock();\n\t\t\tT tmp = std::move(input);'))
m('t-if-wait', 'C01', (TH, 'while(do_run && (is_avail || is_busy)) {\n\t\t\tsignal.wait(lock);', 'if(do_run && (is_avail || is_busy)) {\n\t\t\tsignal.wait(lock);'))
m('t-take-triple', 'C01', (TH, '\t\tif(is_busy) {\n\t\t\t// wait', '\t\tif(false) {\n\t\t\t// wait'))
# --- C02 pool
m('p-le', 'C02', (TP, 'while(prev->job < job) {', 'while(prev->job + 1 < job) {'))
m('p-clear-first', 'C02', (TP, '\t\t\tif(output) {\n\t\t\t\toutput->take(out);\t// only one thread can be at this position\n\t\t\t}\n', '\t\t\t{\n\t\t\t\tstd::lock_guard<std::mutex> lock(state->mutex);\n\t\t\t\tstate->job = -1;\n\t\t\t}\n\t\t\tif(output) {\n\t\t\t\toutput->take(out);\t// only one thread can be at this position\n\t\t\t}\n'))
m('p-notify-one-under', 'C02', (TP, '\t\t\tstate->job = -1;\n\t\t}\n\t\tstate->signal.notify_all();', '\t\t\tstate->job = -1;\n\t\t\tif(job % 2) state->signal.notify_all();\n\t\t}\n'))
m('p-job-after', 'C02', (TP, '\t\t{\n\t\t\tstd::lock_guard<std::mutex> lock(state->mutex);\n\t\t\tstate->job = next;\n\t\t}\n\t\tstate->thread->take(data);', '\t\tstate->thread->take(data);\n\t\t{\n\t\t\tstd::lock_guard<std::mutex> lock(state->mutex);\n\t\t\tstate->job = next;\n\t\t}'))
m('p-take-nowait', 'C02', (TP, '\t\tconst auto& state = threads[next % threads.size()];\n\t\tstate->thread->wait();', '\t\tconst auto& state = threads[next % threads.size()];'))
m('p-next-prev', 'C02', (TP, 'threads[((i + num_threads) - 1) % num_threads]', 'threads[(i + 1) % num_threads]'))
m('p-close-order', 'C02', (TP, '\tvoid close() {\n\t\twait();\n', '\tvoid close() {\n\t\tif(threads.size() > 2) threads.pop_back();\n\t\twait();\n'))
m('p-get-local-nowait', 'C02', (TP, '\tL& get_local(size_t index) {\n\t\tconst auto& state = threads[index];\n\t\tstate->thread->wait();', '\tL& get_local(size_t index) {\n\t\tconst auto& state = threads[index];'))
m('p-job-u8', 'C02', (TP, 'while(prev->job < job) {', 'while(uint8_t(prev->job) < uint8_t(job)) {'))
# --- C03
m('f-no-throw', 'C03', (TH, '\t\tif(is_fail) {\n\t\t\tthrow', '\t\tif(is_fail && do_run) {\n\t\t\tthrow'))
m('f-runtime-only', 'C03', (TH, '} catch(const std::exception& ex) {', '} catch(const std::runtime_error& ex) {'))
m('f-dorun-stay', 'C03', (TH, '\t\t\t\tdo_run = false;\n\t\t\t\tis_fail = true;', '\t\t\t\tis_fail = true;'))
m('f-once', 'C03', (TH, 'if(is_fail) {\n\t\t\tthrow', 'if(is_fail) {\n\t\t\tis_fail = false;\n\t\t\tthrow'))
m('f-pool-nonotify', 'C03', (TP, '\t\t\tstate->signal.notify_all();\n\t\t\tthrow;', '\t\t\tthrow;'))
m('f-pool-noflag', 'C03', (TP, '\t\t\t\tstate->is_fail = true;\n', ''))
m('f-pool-if-fail-once', 'C03', (TP, '\t\t\t\twhile(prev->job < job) {\n\t\t\t\t\tif(prev->is_fail) {\n\t\t\t\t\t\tthrow std::runtime_error(prev->ex_what);\n\t\t\t\t\t}\n', '\t\t\t\tif(prev->is_fail) {\n\t\t\t\t\tthrow std::runtime_error(prev->ex_what);\n\t\t\t\t}\n\t\t\t\twhile(prev->job < job) {\n'))
m('f-final-notify', 'C03', (TH, '\t\tsignal.notify_all();\t\t// notify about do_run + is_fail + is_busy change\n', ''))
m('f-pool-wait-first', 'C03', (TP, '\tvoid wait() {\n\t\tfor(const auto& state : threads) {\n\t\t\tstate->thread->wait();\n\t\t}', '\tvoid wait() {\n\t\tfor(const auto& state : threads) {\n\t\t\ttry { state->thread->wait(); } catch(...) { if(state == threads.front()) throw; }\n\t\t}'))
m('f-what', 'C03', (TH, 'ex_what = ex.what();', ''))
# --- C04 DiskSort
m('d-flush-skip-full', 'C04', (DS, '\t\tif(buffer.count) {\n\t\t\tdisk->write', '\t\tif(buffer.count && buffer.count < buffer.capacity) {\n\t\t\tdisk->write'))
m('d-nolock', 'C04', (DS, '\tstd::lock_guard<std::mutex> lock(mutex);\n\tif(file) {\n\t\tif(fwrite', '\tif(file) {\n\t\tif(fwrite'))
m('d-cap-minus', 'C04', (DS, 'std::min(buffer.capacity, bucket.num_entries - i)', 'std::min(buffer.capacity, bucket.num_entries)'))
m('d-key-shift', 'C04', (DS, '[Key{}(entry) >> key_shift]', '[size_t(uint16_t(Key{}(entry) >> key_shift))]'))
m('d-offset-out', 'C04', (DS, '\t\tout.emplace_back(std::move(entry.second), offset);\n\t\toffset += count;', '\t\toffset += count;\n\t\tout.emplace_back(std::move(entry.second), offset - entry.second.size());'))
m('d-sort-le', 'C04', (DS, 'return Key{}(lhs) < Key{}(rhs);', 'return uint32_t(Key{}(lhs)) < uint32_t(Key{}(rhs));'))
m('d-unordered', 'C04', (DS, 'std::map<size_t, std::vector<T>> sorted;', 'std::unordered_map<size_t, std::vector<T>> sorted;'))
m('d-finish-cacheflush', 'C04', (DS, '\tcache.flush();\n\tfor(auto& bucket : buckets) {\n\t\tbucket.close();\n\t}\n\tis_finished', '\tfor(auto& bucket : buckets) {\n\t\tbucket.close();\n\t}\n\tcache.flush();\n\tis_finished'))
m('d-ro-size', 'C04', (DS, 'get_file_size(bucket.file_name.c_str()) / T::disk_size', '(int(get_file_size(bucket.file_name.c_str())) - 1) / int(T::disk_size)'))
m('d-ro-remove', 'C04', (DS, 'keep_files(read_only),', 'keep_files(false),'))
m('d-count-nolock', 'C04', (DS, '\tstd::lock_guard<std::mutex> lock(mutex);\n\tif(file) {\n\t\tif(fwrite(data, T::disk_size, count, file) != count) {\n\t\t\tthrow std::runtime_error("fwrite() failed with: " + std::string(std::strerror(errno)));\n\t\t}\n\t\tnum_entries += count;', '\tconst auto total = num_entries + count;\n\tstd::lock_guard<std::mutex> lock(mutex);\n\tif(file) {\n\t\tif(fwrite(data, T::disk_size, count, file) != count) {\n\t\t\tthrow std::runtime_error("fwrite() failed with: " + std::string(std::strerror(errno)));\n\t\t}\n\t\tnum_entries = total;'))
m('d-range', 'C04', (DS, 'const size_t index = Key{}(entry) >> key_shift;', 'const size_t index = std::min<size_t>(Key{}(entry) >> key_shift, buckets.size() - 1);'))
m('d-empty-bucket', 'C04', (DS, '\tfor(size_t i = 0; i < buckets.size(); ++i) {\n\t\tread_pool', '\tfor(size_t i = 0; i < buckets.size() && (offset || buckets[i].num_entries || i == 0); ++i) {\n\t\tread_pool'))
m('d-offset32', 'C04', (DS, '\tuint64_t offset = 0;\n\tfor(size_t i', '\tuint16_t offset = 0;\n\tfor(size_t i'))
m('d-count16', 'C04', (DS, 'const size_t num_entries = std::min(buffer.capacity', 'const uint16_t num_entries = std::min(buffer.capacity'))
m('d-readtwice-keep', 'C04', (DS, '\tif(!keep_files) {\n\t\tbucket.remove();\n\t}\n\t\n\tstd::map', '\tif(keep_files) {\n\t\tbucket.num_entries = 0;\n\t\tbucket.close();\n\t} else {\n\t\tbucket.remove();\n\t}\n\t\n\tstd::map'))
# --- C05
m('dt-leftover', 'C05', (DT, 'if(left_over) {', 'if(left_over > 1) {'))
m('dt-seek32', 'C05', (DT, 'fseek(local.file, param.first * T::disk_size, SEEK_SET)', 'fseek(local.file, int32_t(param.first * T::disk_size), SEEK_SET)'))
m('dt-seekrel', 'C05', (DT, 'if(int err = fseek(local.file, param.first * T::disk_size, SEEK_SET)) {', 'if(int err = fseek(local.file, (param.first ? param.first : 0) * T::disk_size - 0, param.first ? SEEK_SET : SEEK_CUR)) {'))
m('dt-flush-close', 'C05', (DT, '\t\tnum_entries += cache.count;\n\t\tcache.count = 0;', '\t\tnum_entries += cache.count;\n\t\tif(cache.count == cache.capacity) cache.count = 0;'))
m('dt-shared-file', 'C05', (DT, '\t\t\tFILE* file = fopen(file_name.c_str(), "rb");', '\t\t\tFILE* file = i ? pool.get_local(i - 1).file : fopen(file_name.c_str(), "rb");'), (DT, '\t\t~local_t() {\n\t\t\tif(file) {\n\t\t\t\tfclose(file);\n\t\t\t}', '\t\t~local_t() {'))
m('dt-outsecond', 'C05', (DT, 'out.second = param.first;', 'out.second = param.first / param.second * param.second;'))
m('dt-cap', 'C05', (DT, 'if(cache.count >= cache.capacity) {', 'if(cache.count > cache.capacity) {'))
m('dt-count32', 'C05', (DT, '\tstd::string file_name;\n\tsize_t num_entries;', '\tstd::string file_name;\n\tuint32_t num_entries;'))
# --- C06
m('1-parity', 'C06', (P1, 'const uint16_t parity = (bucket_L[0].y / kBC) % 2;', 'const uint16_t parity = uint32_t(bucket_L[0].y / kBC) % 2 ^ (bucket_L.size() > 300);'))
m('1-last', 'C06', (P1, '\tif(L_bucket[1] && L_index[1] + 1 == L_index[0]) {\n\t\tFxMatcher<T> Fx;', '\tif(L_bucket[1] && L_index[1] + 1 == L_index[0] && L_bucket[0]->size() > 1) {\n\t\tFxMatcher<T> Fx;'))
m('1-clean', 'C06', (P1, '        rmap_clean.clear();\n', '        if(rmap_clean.size() > 1) rmap_clean.clear();\n'))
m('1-clean-order', 'C06', (P1, '        if(bucket_L.empty() || bucket_R.empty()) {\n        \treturn 0;\n        }\n', ''), (P1, "\tif(L_bucket[1] && L_index[1] + 1 == L_index[0]) {\n\t\t\t\t\t\tmatch_input_t", "\tif(L_bucket[1]) {\n\t\t\t\t\t\tmatch_input_t"))
m('1-off', 'C06', (P1, 'match.off = idx_R[i] + (bucket_L.size() - idx_L[i]);', 'match.off = (idx_R[i] + (bucket_L.size() - idx_L[i])) & 0x3FF;'))
m('1-loffset', 'C06', (P1, 'L_offset[1] = L_offset[0];\n', 'L_offset[1] = L_offset[0];\n\t\t\t\t\tif(index > L_index[1] + 1) L_offset[1] = 0;\n'))
m('1-pmax', 'C06', (P1, 'if(pos >= (uint64_t(1) << PMAX)) {', 'if(pos + 1 >= (uint64_t(1) << PMAX)) {'))
m('1-noskip', 'C06', (P1, 'if(L_bucket[1] && L_index[1] + 1 == L_index[0]) {\n\t\t\t\t\t\tmatch_input_t', 'if(L_bucket[1]) {\n\t\t\t\t\t\tmatch_input_t'))
m('1-count', 'C06', (P1, 'num_written += matches.size();\n', ''))
m('1-tmpwrite', 'C06', (P1, '\t\t\tmatch_pool.take(out);\n\t\t\tif(L_tmp_out) {', '\t\t\tmatch_pool.take(out);\n\t\t\tif(L_tmp_out && !out.empty()) {'))
m('1-f1tail', 'C06', (P1, 'i < (uint64_t(1) << (k - 4)) / M; ++i', 'i < ((uint64_t(1) << (k - 4)) - 1) / M; ++i'))
m('1-idx16', 'C06', (P1, 'L_bucket[0]->push_back(entry);', 'if(L_bucket[0]->size() < 350) L_bucket[0]->push_back(entry);'))
m('1-lclose', 'C06', (P1, '\tread_thread.close();\n\tmatch_pool.close();\n', '\tread_thread.close();\n'), (P1, '\teval_pool.close();\n\tR_add.close();', '\tmatch_pool.close();\n\teval_pool.close();\n\tR_add.close();'))
m('1-index32', 'C06', (P1, 'const uint64_t index = entry.y / kBC;', 'const uint64_t index = uint32_t(entry.y) / kBC;'))
m('1-rmap-pos', 'C06', (P1, 'if (!entry.count) {\n                entry.pos = pos_R;', 'if (!entry.count || entry.pos > pos_R) {\n                entry.pos = pos_R;'))
# --- C07
m('7-tables', 'C07', (P1, '((2 * m + parity) * (2 * m + parity) + i) % kC', '(((2 * m + parity) * (2 * m + parity) % 256 ) + i) % kC'))
m('7-mloop', 'C07', (P1, 'for (int i = 0; i < kExtraBitsPow; i++) {\n                const uint16_t r_target', 'for (int i = 0; i < kExtraBitsPow - 1; i++) {\n                const uint16_t r_target'))
m('7-xshift', 'C07', (P1, 'out.y = (y << kExtraBits) | (x >> x_shift);', 'out.y = (y << kExtraBits) | (uint32_t(x) >> x_shift);'))
m('7-endblock', 'C07', (P1, 'cdiv((first_x + num_entries) * k_, kF1BlockSizeBits)', '((first_x + num_entries) * k_) / kF1BlockSizeBits + 1'))
m('7-startbit', 'C07', (P1, 'const uint64_t start = (first_x * k_) / kF1BlockSizeBits;', 'const uint64_t start = uint32_t(first_x * k_) / kF1BlockSizeBits;'))
m('7-cbits', 'C07', (P1, 'kVectorLens[table_index_ + 1] * k_);\n', 'kVectorLens[table_index_ + (table_index_ < 6)] * k_);\n'))
m('7-y7', 'C07', (P1, '(table_index_ < 7 ? kExtraBits : 0)', '(table_index_ < 7 || k_ < 20 ? kExtraBits : 0)'))
m('7-setmeta', 'C07', (P1H, 'memcpy(entry.meta.data(), bytes, num_bytes);', 'memcpy(entry.meta.data(), bytes, std::min<size_t>(num_bytes, 16));'))
m('7-veclens', 'C07', (I + 'chia.h', '{0, 0, 1, 2, 4, 4, 3, 2}', '{0, 0, 1, 2, 4, 4, 3, 3}'))
m('7-sliceint', 'C07', (UT, 'if (start_bit + num_bits > 64) {\n            bytes', 'if (start_bit + num_bits > 72) {\n            bytes'))
# --- C08
m('2-noclear', 'C08', (P2, '\t\tL_used->clear();\n', '\t\tif(!R_used) L_used->clear();\n'))
m('2-offset', 'C08', (P2, '\t\t\t\t\tif(R_used && !R_used->get(input.second + (offset++))) {\n\t\t\t\t\t\tcontinue;\t// drop it\n\t\t\t\t\t}\n\t\t\t\t\tL_used', '\t\t\t\t\tif(R_used && !R_used->get(input.second + offset)) {\n\t\t\t\t\t\tcontinue;\t// drop it\n\t\t\t\t\t}\n\t\t\t\t\toffset++;\n\t\t\t\t\tL_used'))
m('2-set-race', 'C08', (BF, 'buffer_[bit / 64] |= uint64_t(1) << (bit % 64);', 'const uint64_t mask = uint64_t(1) << (bit % 64);\n        const uint64_t prev = buffer_[bit / 64];\n        if(!(prev & mask)) {\n            buffer_[bit / 64] = prev | mask;\n        }'))
m('2-index-mask', 'C08', (BX, 'int64_t const aligned_pos = pos & ~uint64_t(63);', 'int64_t const aligned_pos = pos & ~uint64_t(127);'))
m('2-index-32', 'C08', (BX, 'int64_t const aligned_pos = pos & ~uint64_t(63);', 'int64_t const aligned_pos = pos & ~uint32_t(63);'))
m('2-count-32', 'C08', (BF, 'int64_t ret = 0;', 'uint8_t ret = 0;'))
m('2-count-mask', 'C08', (BF, 'uint64_t const mask = (uint64_t(1) << tail) - 1;', 'uint64_t const mask = (1u << tail) - 1;'))
m('2-maxsize', 'C08', (P2, '\tfor(const auto& table : input.table) {\n\t\tmax_table_size', '\tfor(const auto& table : {input.table[0], input.table[6]}) {\n\t\tmax_table_size'))
m('2-key-order', 'C08', (P2, '\t\t\tR_out->take(input);\n\t\t}, "phase2/count");', '\t\t\tif(input.size()) R_out->take(input); else num_written++;\n\t\t}, "phase2/count");'))
m('2-mark-right', 'C08', (P2, 'L_used->set(uint64_t(entry.pos) + entry.off);', 'L_used->set(uintkx_t(entry.pos + uint8_t(entry.off)) + (entry.off & ~0xff));'))
m('2-bit-size', 'C08', (BF, ': buffer_(new std::atomic<uint64_t>[(size + 63) / 64])\n        , size_((size + 63) / 64)', ': buffer_(new std::atomic<uint64_t>[size / 64 + 1])\n        , size_(size / 64)'))
m('2-lastbitfield', 'C08', (P2, 'out.bitfield_1 = next_bitfield;', 'out.bitfield_1 = curr_bitfield;'))
m('2-remap-used', 'C08', (P2, '\t\t\t\tif(R_used && !R_used->get(input.second + (offset++))) {\n\t\t\t\t\tcontinue;\t// drop it\n\t\t\t\t}\n\t\t\t\tS tmp;', '\t\t\t\tif(R_used && !R_used->get(uint32_t(input.second) + (offset++))) {\n\t\t\t\t\tcontinue;\t// drop it\n\t\t\t\t}\n\t\t\t\tS tmp;'))
m('2-idx-build', 'C08', (BX, 'int64_t const left = std::min(int64_t(bitfield_.size()) - idx, kIndexBucket);', 'int64_t const left = std::min(int64_t(bitfield_.size()) - idx, kIndexBucket - 1);'))
# --- C09
m('3-wait-cond', 'C09', (P3, 'L_input.back().copy_sync == 0 && !R_is_end', 'L_input.back().copy_sync == 0'))
m('3-pop', 'C09', (P3, 'L_input.front().copy_sync >= num_threads_merge', 'L_input.front().copy_sync >= 1'))
m('3-pop2', 'C09', (P3, 'L_input.front().copy_sync >= num_threads_merge', 'L_input.front().copy_sync >= num_threads_merge - 1'))
m('3-notify-one', 'C09', (P3, '\t\t\tL_input.emplace_back(std::move(tmp));\n\t\t\tlock.unlock();\n\t\t\tsignal.notify_all();', '\t\t\tL_input.emplace_back(std::move(tmp));\n\t\t\tlock.unlock();\n\t\t\tsignal.notify_one();'))
m('3-end-notify', 'C09', (P3, 'L_is_end = true;\n\t\tsignal.notify_all();', 'L_is_end = true;\n\t\tsignal.notify_one();'))
m('3-end-noflag', 'C09', (P3, 'R_is_end = true;\n\t\t\t\tsignal_1.notify_all();', 'signal_1.notify_all();\n\t\t\t\tR_is_end = false;'))
m('3-erase', 'C09', (P3, 'uint64_t L_position = 0;\n\t\t\tfor', 'uint64_t L_position = L_buffer.offset;\n\t\t\tfor'), (P3, 'L_position = pos[0];\n', 'L_position = pos[1];\n'))
m('3-gt', 'C09', (P3, 'while(L_buffer.new_pos.size() <= pos[1]) {', 'while(L_buffer.new_pos.size() <= pos[0]) {'))
m('3-cmp', 'C09', (P3, 'if(buffer.offset >= L_buffer.offset + L_buffer.new_pos.size()) {', 'if(buffer.offset > L_buffer.offset + L_buffer.new_pos.size() || L_buffer.new_pos.empty()) {'))
m('3-signal1-lost', 'C09', (P3, '\t\t\t\t\tsignal_1.notify_all();\t// notify copy_sync change\n\t\t\t\t\tif(is_end) {', '\t\t\t\t\tif(is_end) {'))
m('3-filter-offset', 'C09', (P3, '\t\t\t\tif(!L_used->get(input.second + (offset++))) {\n\t\t\t\t\tcontinue;\t// drop it\n\t\t\t\t}', '\t\t\t\tif(!L_used->get(input.second + offset)) {\n\t\t\t\t\tcontinue;\t// drop it\n\t\t\t\t}\n\t\t\t\toffset++;'))
m('3-lnumread', 'C09', (P3, 'tmp.offset = L_num_read;', 'tmp.offset = input.second;'))
m('3-isend-race', 'C09', (P3, '\tL_read.close();\n\t{\n\t\tstd::lock_guard<std::mutex> lock(mutex);\n\t\tL_is_end = true;', '\t{\n\t\tstd::lock_guard<std::mutex> lock(mutex);\n\t\tL_is_end = true;'), (P3, '\tR_sort_read.join();\n', '\tL_read.close();\n\tR_sort_read.join();\n'))
m('3-bound', 'C09', (P3, 'if(std::max(pos[0], pos[1]) >= L_buffer.new_pos.size()) {', 'if(pos[0] >= L_buffer.new_pos.size()) {'))
m('3-isend-nocopy', 'C09', (P3, 'if(do_wait && !L_is_end) {', 'if(do_wait && L_is_end) { is_end = true; break; }\n\t\t\t\t\t\t\tif(!L_is_end && do_wait) {'), (P3, 'bool do_wait = true;', 'bool do_wait = !L_is_end || true;'))
# --- C10
m('10-index', 'C10', (P3, '\t\t\t\t\tif(index != 0) {\n\t\t\t\t\t\tparks.emplace_back(std::move(park));\n\t\t\t\t\t\tpark.index++;', '\t\t\t\t\tif(index != 0) {\n\t\t\t\t\t\tparks.emplace_back(std::move(park));\n\t\t\t\t\t\tpark.index = index / kEntriesPerPark + (input.second && index == input.second);'))
m('10-stub', 'C10', (P3, 'big_delta & ((1ull << (k - kStubMinusBits)) - 1)', 'big_delta & ((1 << (k - kStubMinusBits)) - 1)'))
m('10-raw', 'C10', (P3, 'deltas_size | 0x8000', 'deltas_size | 0x4000'))
m('10-raw2', 'C10', (P3, 'memcpy(deltas_start, park_deltas.data(), deltas_size);', 'memset(deltas_start, 0, deltas_size);'))
m('10-pad', 'C10', (P3, 'memset(index + stubs_valid_size, 0, stubs_size - stubs_valid_size);', ''), (P3, 'memset(index, 0x00, park_buffer_size - (index - park_buffer));', ''))
m('10-last-park', 'C10', (P3, 'if(!park.points.empty()) {', 'if(park.points.size() > 1) {'))
m('10-rfinal', 'C10', (P3, '\t\tpark_threads.take(parks);\n\t\tpark.index++;', '\t\tpark_threads.take(parks);\n\t\tif(park.points.size() < kEntriesPerPark) park.index++;'))
m('10-pmax', 'C10', (P3, '\t\t\t\tif(index >= uint64_t(1) << PMAX) {\n\t\t\t\t\tbreak;\t// skip PMAX-bit overflow\n\t\t\t\t}\n\t\t\t\tentry_np', '\t\t\t\tif(index + 1 >= uint64_t(1) << PMAX) {\n\t\t\t\t\tbreak;\t// skip PMAX-bit overflow\n\t\t\t\t}\n\t\t\t\tentry_np'))
m('10-lpsize', 'C10', (P3, 'first_line_point <<= 128 - 2 * k;', 'first_line_point <<= 128 - 8 * CalculateLinePointSize(k);'))
m('10-delta256', 'C10', (P3, 'if(small_delta >= 256) {', 'if(small_delta > 256) {'))
m('10-offset32', 'C10', (P3, 'tmp.offset = L_final_begin + park.index * park_size_bytes;', 'tmp.offset = L_final_begin + uint32_t(park.index * park_size_bytes);'))
m('10-begin32', 'C10', (P3, 'FILE* plot_file, uint64_t L_final_begin, uint64_t* R_final_begin)', 'FILE* plot_file, uint32_t L_final_begin, uint64_t* R_final_begin)'))
m('10-overflow', 'C10', (P3, 'if (park_bytes > park_buffer_size) {', 'if (park_bytes > park_buffer_size + 8) {'))
m('10-maxdelta', 'C10', (P3, 'if (table_index == 1) {', 'if (table_index <= 1 && k > 16) {'))
m('10-order', 'C10', (P3, '\t\t\tpark_threads.take(parks);\n\t\t\tL_add.take(input);', '\t\t\tL_add.take(input);\n\t\t\tpark_threads.take(parks);'), (P3, 'R_num_read += input.first.size();\n\t\t\t', 'R_num_read += input.first.size();\n\t\t\tif(parks.size() > 1) std::swap(parks.front().points, parks.back().points);\n\t\t\t'))
m('10-seek', 'C10', (UT, 'void fseek_set(FILE* file, uint64_t offset) {', 'void fseek_set(FILE* file, uint32_t offset) {'))
# --- C11
m('4-parks', 'C11', (P4, '((final_entries_written == 0 ? 0 : final_entries_written - 1) / kEntriesPerPark) + 1', '(final_entries_written / kEntriesPerPark) + 1'))
m('4-c1', 'C11', (P4, 'const uint64_t total_C1_entries = cdiv(final_entries_written, kCheckpoint1Interval);', 'const uint64_t total_C1_entries = final_entries_written / kCheckpoint1Interval + 1;'))
m('4-c2idx', 'C11', (P4, 'if(index % (kCheckpoint1Interval * kCheckpoint2Interval) == 0) {', 'if(num_C1_entries % kCheckpoint2Interval == 1) {'))
m('4-prevy', 'C11', (P4, '\t\t\tprev_y = entry_y;\n\t\t\tindex++;', '\t\t\tif(index % kEntriesPerPark) prev_y = entry_y;\n\t\t\tindex++;'))
m('4-lastdeltas', 'C11', (P4, 'if(!park_deltas.deltas.empty()) {', 'if(park_deltas.deltas.size() > 4) {'))
m('4-firstdelta', 'C11', (P4, '\t\t\t\tpark_deltas.deltas.clear();\n', '\t\t\t\tif(index) park_deltas.deltas.clear();\n'), (P4, 'Util::IntToTwoBytes(tmp.buffer.data(), num_bytes);', 'Util::IntToTwoBytes(tmp.buffer.data(), num_bytes & 0xff);'))
m('4-kbits', 'C11', (P4, 'bits += ParkBits(new_pos, k + 1);', 'bits += ParkBits(new_pos & ((uint64_t(1) << k) - 1), k + 1);'))
m('4-hdr', 'C11', (P4, 'for (int i = 8; i <= 10; i++) {', 'for (int i = 8; i < 10; i++) {'))
m('4-p7off', 'C11', (P4, 'park_data.offset = final_file_writer_3;\n\t\t\t\tfinal_file_writer_3 += P7_park_size;', 'final_file_writer_3 = final_file_writer_3 + (park_data.offset ? P7_park_size : 0);\n\t\t\t\tpark_data.offset = final_file_writer_3;'))
m('4-c3big', 'C11', (P4, 'if(num_bytes + 2 > C3_size) {', 'if(num_bytes > C3_size) {'))
m('4-writer32', 'C11', (P4, 'uint64_t final_file_writer_3 = final', 'uint32_t final_file_writer_3 = final'))
m('4-racewrite', 'C11', (P4, '\t\t\t\t\tplot_write.take(out_);', '\t\t\t\t\tfwrite_at(plot_file, out_[0].offset, out_[0].buffer.data(), out_[0].buffer.size());'), (P4, '[k, begin_byte_C3, C3_size,', '[plot_file, k, begin_byte_C3, C3_size,'))
m('4-delta8', 'C11', (P4, 'if(index % kCheckpoint1Interval == 0)\n', 'if(index % kCheckpoint1Interval == 0 && (index == 0 || entry_y != prev_y))\n'))
m('4-c2tail', 'C11', (P4, '(total_C2_entries + 1) * (Util::ByteAlign(k) / 8)', '(total_C2_entries + (total_C1_entries > kCheckpoint2Interval)) * (Util::ByteAlign(k) / 8)'))
# --- C12/C23
m('12-hdrk', 'C12', (P3, 'uint8_t k_buffer[1] = {k};', 'uint8_t k_buffer[1] = {uint8_t(k & 31)};'))
m('12-memo', 'C12', (P3, 'Util::IntToTwoBytes(size_buffer, memo_len);', 'Util::IntToTwoBytes(size_buffer, uint8_t(memo_len));'))
m('12-pointers', 'C12', (P3, 'for(size_t i = 1; i < final_pointers.size(); ++i) {', 'for(size_t i = 1; i + 1 < final_pointers.size(); ++i) {'))
m('12-rename', 'C12', (P4, 'out.plot_file_name = plot_dir + plot_name + ".plot";', 'out.plot_file_name = plot_dir + input.params.plot_name + ".plot";'))
m('23-threads', 'C23', (P3, 'const int num_threads_merge = std::max(num_threads / 4, 1);', 'const int num_threads_merge = std::min(std::max(num_threads / 4, 1), 2);'), (P3, 'L_input.front().copy_sync >= num_threads_merge', 'L_input.front().copy_sync >= 2'))
m('23-buckets', 'C23', (DS, 'const int key_shift = bucket_key_shift - log_num_buckets;', 'const int key_shift = bucket_key_shift - std::min(log_num_buckets, 4);'), (DS, 'table[Key{}(entry) >> key_shift]', 'table[(Key{}(entry) >> key_shift) & 0xff]'))
m('23-chunk', 'C23', (I + 'buffer.h', 'read_buffer_t() : byte_buffer_t<T>(g_read_chunk_size) {}', 'read_buffer_t() : byte_buffer_t<T>(std::min<size_t>(g_read_chunk_size, 64)) {}'), (DS, 'i += num_entries;', 'i += std::max(num_entries, std::min<size_t>(g_read_chunk_size, 128));'))
m('23-multi', 'C23', (P2, '}, &R_count, num_threads * g_thread_multi, "phase2/remap");', '}, g_thread_multi > 2 ? R_out : &R_count, num_threads * g_thread_multi, "phase2/remap");'))
# --- C13
m('13-close', 'C13', (DS, '\t\tif(fclose(tmp)) {\n\t\t\tthrow std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));\n\t\t}', '\t\tfclose(tmp);'))
m('13-dtclose', 'C13', (DT, '\t\t\tif(fclose(file)) {\n\t\t\t\tthrow std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));\n\t\t\t}', '\t\t\tfclose(file);'))
m('13-p4close', 'C13', (P4, '\tif(fclose(plot_file)) {\n\t\tthrow', '\tif(fclose(plot_file) && errno != ENOSPC) {\n\t\tthrow'))
m('13-p3close', 'C13', (P3, '\tif(fclose(plot_file)) {\n\t\tthrow', '\tif(fclose(plot_file) && ferror(stdout)) {\n\t\tthrow'))
m('13-rename', 'C13', (P4, 'if(std::rename(input.plot_file_name.c_str(), out.plot_file_name.c_str())) {', 'if(std::rename(input.plot_file_name.c_str(), out.plot_file_name.c_str()) && errno == EXDEV) {'))
m('13-header', 'C13', (P3, 'if(fflush(file) || ferror(file)) {', 'if(!num_bytes) {'))
m('13-fwrite', 'C13', (UT, 'if(fwrite(buf, 1, length, file) != length) {', 'if(!fwrite(buf, 1, length, file)) {'))
m('13-fread', 'C13', (DS, 'if(fread(buffer.data, T::disk_size, num_entries, bucket.file) != num_entries) {', 'if(fread(buffer.data, T::disk_size, num_entries, bucket.file) != num_entries && !feof(bucket.file)) {'))
m('13-dtread', 'C13', (DT, 'if(fread(local.buffer, T::disk_size, param.second, local.file) != param.second) {', 'if(!fread(local.buffer, T::disk_size, param.second, local.file)) {'))
m('13-swallow', 'C13', (P3, '\t\t\tfor(const auto& park : input) {\n\t\t\t\tfwrite_at(', '\t\t\tfor(const auto& park : input) try {\n\t\t\t\tfwrite_at('), (P3, 'park.buffer.data(), park.buffer.size());\n\t\t\t}', 'park.buffer.data(), park.buffer.size());\n\t\t\t} catch(const std::exception& ex) { std::cout << ex.what() << std::endl; }'))
# --- C14
m('14-fwrite', 'C14', (CP, 'if(fwrite(buffer.data(), 1, num_bytes, dst) != num_bytes) {', 'if(fwrite(buffer.data(), 1, num_bytes, dst) != num_bytes && num_bytes == buffer.size()) {'))
m('14-ferror', 'C14', (CP, 'if(num_bytes < buffer.size() && ferror(src)) {', 'if(num_bytes == 0 && ferror(src)) {'))
m('14-fclose', 'C14', (CP, '\tif(fclose(dst)) {\n\t\tthrow std::runtime_error("fclose() failed on " + dst_path + " (" + std::string(std::strerror(errno)) + ")");\n\t}', '\tfclose(dst);'))
m('14-removefirst', 'C14', (CP, '\t\tif(rename(tmp_dst_path.c_str(), dst_path.c_str())) {', '\t\tremove(src_path.c_str());\n\t\tif(rename(tmp_dst_path.c_str(), dst_path.c_str())) {'))
m('14-direct', 'C14', (CP, 'total_bytes = copy_file(src_path, tmp_dst_path);', 'total_bytes = copy_file(src_path, dst_path);\n\t\trename(dst_path.c_str(), tmp_dst_path.c_str());'))
m('14-append', 'C14', (CP, 'FILE* dst = fopen(dst_path.c_str(), "wb");', 'FILE* dst = fopen(dst_path.c_str(), "ab");'))
m('14-exact', 'C14', (CP, '\t\tif(num_bytes < buffer.size()) {\n\t\t\tbreak;', '\t\tif(num_bytes < buffer.size() || feof(src) || total_bytes % (buffer.size() * 4) == 0) {\n\t\t\tbreak;'))
m('14-renamefail', 'C14', (CP, '\t\t\tthrow std::runtime_error("rename() failed for "', '\t\t\tremove(tmp_dst_path.c_str());\n\t\t\tremove(src_path.c_str());\n\t\t\tthrow std::runtime_error("rename() failed for "'))
m('14-keepsrc', 'C14', (CP, '\t\tremove(src_path.c_str());\n\t} else', '\t} else'))
# --- C15
m('15-tmp7', 'C15', (P3, '\tremove(input.table_7.file_name);\n', ''))
m('15-tmp1', 'C15', (P3, '\tremove(input.table_1.file_name);\n', ''))
m('15-p2i', 'C15', (P2, '\t\tremove(input.table[i].file_name);\n', '\t\tif(i != 3) remove(input.table[i].file_name);\n'))
m('15-keep', 'C15', (DS, '\tif(!keep_files) {\n\t\tbucket.remove();\n\t}\n\t\n\tstd::map', '\tif(!keep_files && bucket.num_entries) {\n\t\tbucket.remove();\n\t}\n\t\n\tstd::map'), (DS, '\t\tif(!keep_files) {\n\t\t\tbucket.remove();\n\t\t}\n\t}\n\tbuckets.clear();', '\t\tif(!keep_files && !is_finished) {\n\t\t\tbucket.remove();\n\t\t}\n\t}\n\tbuckets.clear();'))
m('15-roremove', 'C15', (DS, 'keep_files(read_only),', 'keep_files(false),'))
m('15-dir', 'C15', (P3, 'const std::string prefix_2 = tmp_dir_2 + plot_name + ".";', 'const std::string prefix_2 = tmp_dir_2 + plot_name.substr(0, plot_name.find(\'-\') + 1) + ".";'))
m('15-swapdir', 'C15', (P2, '(i == 1 ? prefix_2 : prefix)', '(i == 1 ? prefix_2 : std::string(tmp_dir) + "plot.p2.")'))
m('15-probe', 'C15', (M, '\t\tfor(const auto& entry : files) {\n\t\t\tfclose(entry.first);\n\t\t\tremove(entry.second.c_str());\n\t\t}', '\t\tfor(const auto& entry : files) {\n\t\t\tfclose(entry.first);\n\t\t\tif(entry.first != files.back().first) remove(entry.second.c_str());\n\t\t}'))
# --- C16
m('16-e7', 'C16', (P1H, '\t\tpos &= 0xFFFFFFFFF;				// 36 bit\n\t\tmemcpy(&off, buf + 9, 2);', '\t\tpos &= 0x3FFFFFFFF;\n\t\tmemcpy(&off, buf + 9, 2);'))
m('16-x', 'C16', (P2H, 'pos &= 0x7FFFFFFFF;				// 35 bit\n\t\tmemcpy(&off', 'pos &= 0x3FFFFFFFF;				// 35 bit\n\t\tmemcpy(&off'))
m('16-x32', 'C16', (P2H, '\t\tmemcpy(&pos, buf + 4, 4);\n\t\tmemcpy(&off, buf + 8, 2);', '\t\tmemcpy(&pos, buf + 4, 4);\n\t\toff = buf[8] | (buf[9] & 1) << 8;'))
m('16-xm32', 'C16', (P1H, 'buf[4] = (off << 6) | (buf[4] & 0x3F);', 'buf[4] = (off << 6) | buf[4];'))
m('16-tmp', 'C16', (P1H, '\t\tif(KBYTES < 5) {\n\t\t\tbuf[4] = 0;\n\t\t}\n', ''))
m('16-lp34', 'C16', (P3H, 'point &= (uint128_t(1) << 68) - 1;		// 68 bit\n\t\tkey = 0;', 'point &= (uint128_t(1) << 67) - 1;		// 68 bit\n\t\tkey = 0;'))
m('16-np34', 'C16', (P3H, 'pos = 0;\n\t\tmemcpy(&pos, buf + 4, 5);', 'memcpy(&pos, buf + 4, 5);'))
m('16-e1', 'C16', (P1H, '\t\ty = 0;\n\t\tmemcpy(&y, buf, 5);\n\t\tif(sizeof(x)', '\t\tmemcpy(&y, buf, 5);\n\t\tif(sizeof(x)'))
# --- C17
m('17-append', 'C17', (BI, 'if (length == 0 && values_.size() > 0) {', 'if (length == 0 && values_.size() > 0 && last_size_ != 64) {'))
m('17-slice', 'C17', (BI, 'if (end_index % 64) {\n                uint8_t bucket_size =\n                    ((int)end_bucket', 'if (end_index % 64 > 1) {\n                uint8_t bucket_size =\n                    ((int)end_bucket'))
m('17-tobytes', 'C17', (BI, 'memcpy(buffer + i * 8, tmp, cdiv(last_size_, 8));', 'memcpy(buffer + i * 8, tmp, last_size_ / 8);'))
m('17-sbi', 'C17', (BI, 'res = res >> (64 - (end_index & 63));', 'res = res >> (last_size_ - (end_index & 63));'))
m('17-s64full', 'C17', (UT, 'if (start_bit % 8 + num_bits > 64)\n', 'if (start_bit % 8 + num_bits > 65)\n'))
m('17-init', 'C17', (BI, 'while (zeros > 64) {\n                AppendValue(0, 64);\n                zeros -= 64;', 'while (zeros > 128) {\n                AppendValue(0, 64);\n                zeros -= 64;'))
m('17-frombytes', 'C17', (BI, 'AppendValue(val, bucket_size);\n        }\n    }', 'AppendValue(val, i + 8 < num_bytes ? 64 : bucket_size > 56 ? 56 : bucket_size);\n        }\n    }'))
m('17-splus', 'C17', (BI, 'for (typename T2::size_type i = 0; i < b.values_.size() - 1; i++)\n                this->AppendValue', 'for (uint8_t i = 0; i < b.values_.size() - 1; i++)\n                this->AppendValue'))
# --- C18
m('18-odd', 'C18', (EN, 'if (a % 2 == 0)\n            a /= 2;', 'if (uint32_t(a) % 2 == 0 && a)\n            a /= 2;'))
m('18-mul', 'C18', (EN, 'return (uint128_t)a * b;', 'return a * b;'))
m('18-sq', 'C18', (EN, 'if (GetXEnc(new_x) <= index)', 'if (GetXEnc(new_x) < index)'))
m('18-i', 'C18', (EN, 'for (int8_t i = 63; i >= 0; i--) {', 'for (int8_t i = 34; i >= 0; i--) {'))
m('18-y', 'C18', (EN, 'if (y > x) {\n            std::swap(x, y);', 'if (uint32_t(y) > uint32_t(x)) {\n            std::swap(x, y);'))
# --- C19
m('19-toggle', 'C19', (M, '\t\telse if(tmptoggle) {\n\t\t\tfinal_dir = tmp_dir2;\n\t\t}\n\t\tif (tmptoggle) {\n\t\t\ttmp_dir.swap(tmp_dir2);', '\t\tif (tmptoggle) {\n\t\t\ttmp_dir.swap(tmp_dir2);'))
m('19-count', 'C19', (M, 'for(int i = 0; i < num_plots || num_plots < 0; ++i)', 'for(int i = 0; i < num_plots || num_plots == -1; ++i)'))
m('19-nowait', 'C19', (M, 'if(waitforcopy) {', 'if(waitforcopy && i + 1 == num_plots) {'))
m('19-noretry', 'C19', (M, '\t\t\t\t\tstd::this_thread::sleep_for(std::chrono::minutes(5));', '\t\t\t\t\tif(get_wall_time_micros() - total_begin > 500 * 1000 * 1000) break;\n\t\t\t\t\tstd::this_thread::sleep_for(std::chrono::minutes(5));'))
m('19-direct', 'C19', (M, 'if(!directout) {\n', 'if(!directout || tmptoggle) {\n'))
m('19-noclose', 'C19', (M, '\t}\n\tcopy_thread.close();\n\t\n\treturn 0;', '\t}\n\tif(gracefully_exit) exit(0);\n\tcopy_thread.close();\n\t\n\treturn 0;'))
m('19-dst', 'C19', (M, 'const auto dst_path = final_dir + out.params.plot_name + ".plot";', 'const auto dst_path = final_dir + out.plot_file_name.substr(out.plot_file_name.find(\'/\', 1) + 1);'))
m('19-grace', 'C19', (M, '\t\tif (gracefully_exit) {\n', '\t\tif (gracefully_exit && num_plots > 0) {\n'))
m('19-stage', 'C19', (M, 'if(stage_dir.empty()) {\n\t\tstage_dir = tmp_dir;', 'if(stage_dir.empty()) {\n\t\tstage_dir = directout ? tmp_dir : tmp_dir2;'))
m('19-double', 'C19', (M, '<= 1 ) {', '<= 30 ) {'))
# --- C20
m('20-port', 'C20', (M, '{12381, port, 3, 0}', '{12381, 8444, 3, 0}'))
m('20-tap', 'C20', (M, 'plot_key = local_key + farmer_key + taproot_sk.GetG1Element();', 'plot_key = local_key + taproot_sk.GetG1Element();'))
m('20-order', 'C20', (M, '\t\t\t\tconst auto more_bytes = local_key.Serialize();', '\t\t\t\tconst auto more_bytes = (local_key + local_key).Serialize();'))
m('20-memo', 'C20', (M, 'params.memo.insert(params.memo.end(), pool_key_bytes.begin(), pool_key_bytes.end());', 'params.memo.insert(params.memo.end(), farmer_key_bytes.begin(), farmer_key_bytes.end());'))
m('20-unique', 'C20', (M, 'case 11337: make_unique = true; break;', 'case 11337: make_unique = !make_unique; break;'))
m('20-sk', 'C20', (M, 'const auto bytes = master_sk.Serialize();', 'const auto bytes = MPL.DeriveChildSk(master_sk, 0).Serialize();'))
m('20-name', 'C20', (M, 'bls::Util::HexStr(params.id.data(), params.id.size())', 'bls::Util::HexStr(params.id.data(), params.id.size() - (port == 9699))'))
m('20-bech', 'C20', (M, 'bits.AppendValue(res.dp[51] >> 4, 1);', 'bits.AppendValue(res.dp[51] & 1, 1);'))
m('20-m', 'C20', (M, 'if(res.encoding != bech32::Bech32m) {', 'if(res.encoding == bech32::Invalid) {'))
m('20-hex', 'C20', (UT, 'if(hex.length() % 2 || hex', 'if(hex'))
m('20-idlen', 'C20', (M, 'if(plot_id.size() != 32) {', 'if(plot_id.size() < 32) {'))
# --- C21
m('21-zero', 'C21', (EN, 'out, deltas.size() * 8, static_cast', 'out, deltas.size(), static_cast'))
m('21-255', 'C21', (EN, 'while (p > MIN_PRB_THRESHOLD && N < 255) {', 'while (p > MIN_PRB_THRESHOLD && N < 200) {'))
m('21-minprob', 'C21', (EN, 'if (ans[i] == 1) {\n                ans[i] = (short)-1;', 'if (ans[i] == 1 && i < 100) {\n                ans[i] = (short)-1;'))
m('21-cache', 'C21', (EN, 'return CT_MEMO[R];', 'return CT_MEMO.lower_bound(R - 0.06)->second;'))
# --- C22
m('22-rmap', 'C22', (P1, 'static uint16_t L_targets', 'static uint64_t g_dummy_count = 0;\nstatic uint16_t L_targets'), (P1, '        rmap_clean.clear();\n', '        rmap_clean.clear();\n        g_dummy_count++;\n'))
m('22-numentries', 'C22', (P3, '\tstd::atomic<uint64_t> R_num_write {0};', '\tuint64_t R_num_write = 0;'))
m('22-final', 'C22', (P3, '\tstd::atomic<uint64_t> num_written_final {0};', '\tuint64_t num_written_final = 0;'))
m('22-cache', 'C22', (EN, '    FSE_CTable *CTGet(double R)\n    {\n        std::lock_guard<std::mutex> l(memoMutex);', '    FSE_CTable *CTGet(double R)\n    {'))
m('22-jobs', 'C22', (TP, '\t\t{\n\t\t\tstd::lock_guard<std::mutex> lock(state->mutex);\n\t\t\tstate->job = next;\n\t\t}', '\t\tstate->job = next;'))
m('22-found', 'C22', (P1, '\tstd::atomic<uint64_t> num_found {};', '\tuint64_t num_found = 0;'))
m('22-dolock', 'C22', (TH, '\t\tstd::unique_lock<std::mutex> lock(mutex);\n\t\tdo_run = false;\n\t\tif(thread.joinable()) {\n\t\t\tlock.unlock();', '\t\tdo_run = false;\n\t\tif(thread.joinable()) {'))
m('22-p2atomic', 'C22', (P2, 'if(R_file) {\n\t\tR_out = &R_write;', 'if(R_file) {\n\t\tR_out = &R_write;'), (BF, 'std::unique_ptr<std::atomic<uint64_t>[]> buffer_;', 'std::unique_ptr<uint64_t[]> buffer_;'), (BF, 'buffer_(new std::atomic<uint64_t>[', 'buffer_(new uint64_t['))
# --- second batch
m('b1-fastwait', 'C01', (TH, '\tvoid wait() {\n\t\tstd::unique_lock', '\tvoid wait() {\n\t\tif(do_run && !is_busy && !is_avail) {\n\t\t\treturn;\n\t\t}\n\t\tstd::unique_lock'))
m('b1-timed', 'C01', (TH, '\t\twhile(do_run && (is_avail || is_busy)) {\n\t\t\tsignal.wait(lock);\n\t\t}', '\t\tsignal.wait_for(lock, std::chrono::minutes(60), [this]() { return !do_run || !(is_avail || is_busy); });'))
m('b1-busy-unlocked', 'C22', (TH, '\t\t\t\texecute(tmp);\n\t\t\t\tlock.lock();', '\t\t\t\tis_busy = bool(execute);\n\t\t\t\texecute(tmp);\n\t\t\t\tis_busy = false;\n\t\t\t\tsignal.notify_all();\n\t\t\t\tlock.lock();'))
m('b1-close-order', 'C03', (TH, '\t\twait();\n\t\tstd::unique_lock<std::mutex> lock(mutex);\n\t\tdo_run = false;', '\t\tstd::unique_lock<std::mutex> lock(mutex);\n\t\twhile(do_run && is_avail) {\n\t\t\tsignal.wait(lock);\n\t\t}\n\t\tif(is_fail) {\n\t\t\tthrow std::runtime_error("thread failed with: " + ex_what);\n\t\t}\n\t\tdo_run = false;'), (TH, '\t\t\tis_busy = false;\n\t\t}\n\t\tsignal', '\t\t\tis_busy = false;\n\t\t\tif(!do_run) break;\n\t\t}\n\t\tsignal'))
m('b2-wait-skiplast', 'C02', (TP, '\t\tfor(const auto& state : threads) {\n\t\t\tstate->thread->wait();\n\t\t}\n\t}', '\t\tconst size_t count = std::min<size_t>(next, threads.size());\n\t\tfor(size_t i = 0; i + 1 < count; ++i) {\n\t\t\tthreads[i]->thread->wait();\n\t\t}\n\t}'))
m('b2-notify-before', 'C02', (TP, '\t\t{\n\t\t\tstd::lock_guard<std::mutex> lock(state->mutex);\n\t\t\tstate->job = -1;\n\t\t}\n\t\tstate->signal.notify_all();\n\t}', '\t\tstate->signal.notify_all();\n\t\t{\n\t\t\tstd::lock_guard<std::mutex> lock(state->mutex);\n\t\t\tstate->job = -1;\n\t\t}\n\t}'))
m('b2-notify-one', 'C02', (TP, '\t\t\tstate->job = -1;\n\t\t}\n\t\tstate->signal.notify_all();\n\t}', '\t\t\tstate->job = -1;\n\t\t}\n\t\tif(job % threads.size()) state->signal.notify_all();\n\t}'))
m('b2-idle-skip', 'C02', (TP, '\t\t\t\tstd::unique_lock<std::mutex> lock(prev->mutex);\n\t\t\t\twhile(prev->job < job) {', '\t\t\t\tstd::unique_lock<std::mutex> lock(prev->mutex);\n\t\t\t\twhile(prev->job + 1 == job) {'))
m('b3-close-swallow', 'C03', (TH, '\t\twait();\n\t\tstd::unique_lock<std::mutex> lock(mutex);\n\t\tdo_run = false;', '\t\ttry { wait(); } catch(const std::exception&) {}\n\t\tstd::unique_lock<std::mutex> lock(mutex);\n\t\tdo_run = false;'))
m('b3-job-cleared', 'C03', (TP, '\t\t\t\tstate->is_fail = true;\n', '\t\t\t\tstate->is_fail = true;\n\t\t\t\tstate->job = -1;\n'))
m('b3-fail-before-prev', 'C03', (TP, '\t\t\t\t\tif(prev->is_fail) {\n\t\t\t\t\t\tthrow std::runtime_error(prev->ex_what);\n\t\t\t\t\t}\n', '\t\t\t\t\tif(prev->is_fail) {\n\t\t\t\t\t\tbreak;\n\t\t\t\t\t}\n'))
m('b3-isbusy', 'C03', (TH, '\t\t\t\tlock.lock();\n\t\t\t\tdo_run = false;', '\t\t\t\tlock.lock();\n\t\t\t\tdo_run = is_avail;'))
m('b4-ab', 'C04', (DS, 'bucket.open("wb");', 'bucket.open("ab");'))
m('b4-flush-nocount', 'C04', (DS, '\t\tif(buffer.count) {\n\t\t\tdisk->write(index, buffer.data, buffer.count);\n\t\t\tbuffer.count = 0;', '\t\tif(buffer.count) {\n\t\t\tdisk->write(index, buffer.data, buffer.count);'))
m('b4-dtor', 'C04', (I + 'DiskSort.h', '~WriteCache() { flush(); }', '~WriteCache() {}'))
m('b4-shared-cache', 'C04', (DS, '\treturn std::make_shared<WriteCache>(this, bucket_key_shift, buckets.size());', '\tstatic thread_local std::weak_ptr<WriteCache> last;\n\tauto out = last.lock();\n\tif(!out) { out = std::make_shared<WriteCache>(this, bucket_key_shift, buckets.size()); last = out; }\n\treturn out;'))
m('b4-skip-small', 'C04', (DS, 'for(size_t i = 0; i < bucket.num_entries;)', 'for(size_t i = 0; i + (bucket.num_entries > buffer.capacity && bucket.num_entries % buffer.capacity == 1) < bucket.num_entries;)'))
m('b4-sign', 'C04', (DS, 'const size_t index = Key{}(entry) >> key_shift;', 'const size_t index = int64_t(Key{}(entry)) >> key_shift;'))
m('b5-ab', 'C05', (DT, 'file_out = fopen(file_name.c_str(), "wb");', 'file_out = fopen(file_name.c_str(), "ab");'))
m('b5-info', 'C05', (DT, '\t\tnum_entries += cache.count;\n\t\tcache.count = 0;', '\t\tif(cache.count == cache.capacity || !num_entries) num_entries += cache.count; else num_entries = num_entries / cache.capacity * cache.capacity + cache.count;\n\t\tcache.count = 0;'))
m('b6-swapLR', 'C06', (P1, '\t\t\tmatch.off = idx_R[i]', '\t\t\tif(idx_R[i] < idx_L[i]) std::swap(match.left, match.right);\n\t\t\tmatch.off = idx_R[i]'))
m('b6-final-offset', 'C06', (P1, 'num_found += Fx.find_matches(L_offset[1], *L_bucket[1], *L_bucket[0], matches);', 'num_found += Fx.find_matches(L_offset[0] - L_bucket[0]->size(), *L_bucket[1], *L_bucket[0], matches);'))
m('b6-empty-block', 'C06', (P1, '\t\t\tmatch_pool.take(out);\n', '\t\t\tif(out.size() > 1 || input.second == 0) match_pool.take(out);\n'))
m('b6-count8', 'C06', (P1, '\t\tuint16_t pos;\n\t\tuint16_t count;', '\t\tuint16_t pos;\n\t\tuint8_t count;'))
m('b7-kb', 'C07', (P1, '((indJ + m) % kB) * kC', '((indJ + m) & 127) % kB * kC'))
m('b8-crossbucket', 'C08', (BX, 'uint64_t const offset_count = aligned_pos_count + bitfield_.count(aligned_pos, pos + offset);', 'uint64_t const offset_count = aligned_pos_count + bitfield_.count(aligned_pos, std::min<uint64_t>(pos + offset, (bucket + 1) * kIndexBucket));'))
m('b8-firstbits', 'C08', (BX, 'return { base + pos_count, offset_count - pos_count };', 'return { base + pos_count, (offset_count - pos_count) & 0xFF };'))
m('b8-swapfields', 'C08', (P2, 'std::swap(curr_bitfield, next_bitfield);', 'curr_bitfield.swap(next_bitfield);\n\t\tif(i == 1) curr_bitfield->set(0);'))
m('b9-popall', 'C09', (P3, 'while(!L_input.empty() && L_input.front().copy_sync >= num_threads_merge) {', 'while(L_input.size() > 8 || (!L_input.empty() && L_input.front().copy_sync >= num_threads_merge)) {'))
m('b9-sync-skip', 'C09', (P3, '\t\t\t\t\t\t\t\t\tbuffer.copy_sync++;\n', '\t\t\t\t\t\t\t\t\tbuffer.copy_sync += buffer.new_pos.empty() ? 0 : 1;\n'))
m('b10-lastindex', 'C10', (P3, '\t\tstd::vector<park_data_t> parks{park};\n\t\tpark_threads.take(parks);\n\t\tpark.index++;', '\t\tstd::vector<park_data_t> parks{park};\n\t\tpark_threads.take(parks);\n\t\tif(park.points.size() > 1) park.index++;'))
m('b10-one', 'C10', (P3, 'std::vector<uint8_t> encoded(park_deltas.size() * 8);', 'std::vector<uint8_t> encoded(park_deltas.size() * 8 + 8);'), (P3, 'const size_t deltas_size = encoded_size ? encoded_size : park_deltas.size();', 'const size_t deltas_size = encoded_size ? encoded_size : park_deltas.size() & ~1;'))
m('b10-order', 'C10', (P3, '\t\t\t\ttmp.offset = L_final_begin + park.index * park_size_bytes;', '\t\t\t\ttmp.offset = L_final_begin + uint32_t(park.index * park_size_bytes);'))
m('b10-size16', 'C10', (P3, 'Util::IntToTwoBytesLE(index, deltas_size);', 'Util::IntToTwoBytesLE(index, deltas_size & 0x3FF);'))
m('b11-prevy', 'C11', (P4, '\t\t\t\tpark_deltas.deltas.push_back(entry_y - prev_y);\n\t\t\t}\n\t\t\tprev_y = entry_y;', '\t\t\t\tpark_deltas.deltas.push_back(entry_y - prev_y);\n\t\t\t}\n\t\t\tif(num_C1_entries < 4 || index % kCheckpoint1Interval) prev_y = entry_y;'))
m('b11-c2index', 'C11', (P4, 'if(index % (kCheckpoint1Interval * kCheckpoint2Interval) == 0) {', 'if(num_C1_entries % kCheckpoint2Interval == 0 && C2.size() < 2) {'))
m('b11-p7last', 'C11', (P4, '    park_data.offset = final_file_writer_3;\n    {', '    park_data.offset = final_file_writer_3;\n    if(park_data.array.size() < kEntriesPerPark) {'))
m('b11-count', 'C11', (P4, 'cdiv(final_entries_written, kCheckpoint1Interval);', 'final_entries_written / kCheckpoint1Interval + 1;'))
m('b13-seek', 'C13', (UT, 'if(fseek(file, offset, SEEK_SET)) {', 'if(fseek(file, offset, SEEK_SET) && errno == EBADF) {'))
m('b13-dtopen', 'C13', (DT, '\t\t\tfile_out = fopen(file_name.c_str(), "wb");\n\t\t\tif(!file_out) {', '\t\t\tfile_out = fopen(file_name.c_str(), "wb");\n\t\t\tif(!file_out && errno != EMFILE) {'), (DT, '\t\tif(!file_out) {\n\t\t\tthrow std::logic_error("read only");', '\t\tif(!file_out) {\n\t\t\treturn;\n\t\t\tthrow std::logic_error("read only");'))
m('b13-dtseek', 'C13', (DT, 'if(int err = fseek(local.file, param.first * T::disk_size, SEEK_SET)) {', 'fseek(local.file, param.first * T::disk_size, SEEK_SET);\n\t\tif(false) {'))
m('b14-eof', 'C14', (CP, '\t\tif(num_bytes < buffer.size()) {\n\t\t\tbreak;', '\t\tif(num_bytes < buffer.size() || total_bytes == 2 * buffer.size()) {\n\t\t\tbreak;'))
m('b14-cleanup', 'C14', (CP, '\t\t\tthrow std::runtime_error("rename() failed for "', '\t\t\tremove(dst_path.c_str());\n\t\t\trename(src_path.c_str(), tmp_dst_path.c_str());\n\t\t\tthrow std::runtime_error("rename() failed for "'))
m('b14-notmp', 'C14', (CP, 'const std::string tmp_dst_path = dst_path + ".tmp";', 'const std::string tmp_dst_path = dst_path.size() > 200 ? dst_path : dst_path + ".tmp";'))
m('b14-errrename', 'C14', (CP, '\tif(rename(src_path.c_str(), dst_path.c_str())) {\n', '\tif(rename(src_path.c_str(), dst_path.c_str()) && errno != ENOENT) {\n'))
m('b15-probe2', 'C15', (M, '\t\tconst std::string path = tmp_dir2 + ".chia_plot_tmp2";\n\t\tif(auto file = fopen(path.c_str(), "wb")) {\n\t\t\tfclose(file);\n\t\t\tremove(path.c_str());', '\t\tconst std::string path = tmp_dir2 + ".chia_plot_tmp2";\n\t\tif(auto file = fopen(path.c_str(), "wb")) {\n\t\t\tfclose(file);\n\t\t\tif(tmp_dir == tmp_dir2) remove(path.c_str());'))
m('b15-p7', 'C15', (P2, '\tremove(input.table[6].file_name);\n', '\tif(num_threads > 1) remove(input.table[6].file_name);\n'))
m('b15-close', 'C15', (DS, '\t\tbucket.close();\n\t\tif(!keep_files) {\n\t\t\tbucket.remove();\n\t\t}\n\t}\n\tbuckets.clear();', '\t\tbucket.close();\n\t}\n\tbuckets.clear();'))
m('b17-slice0', 'C17', (BI, 'if (end_index > GetSize()) {\n            end_index = GetSize();\n        }\n\n        if (end_index == start_index)', 'if (end_index == start_index)'))
m('b17-ctor', 'C17', (BI, 'InitBitsGeneric(value >> 64, size - 64);\n            AppendValue((uint64_t)value, 64);', 'InitBitsGeneric(value >> 64, size - 64);\n            AppendValue((uint32_t)value | (value & 0xFFFFFFFF00000000ull & ~(uint64_t(size > 127) << 63)), 64);'))
m('b19-term', 'C19', (M, '\t\tstd::signal(SIGTERM, interrupt_handler);\n', ''))
m('b19-threads', 'C19', (M, 'if(num_threads < 1 || num_threads > 1024) {', 'if(num_threads > 1024) {'))
m('b19-buckets', 'C19', (M, 'log_num_buckets_3 < 4 || log_num_buckets_3 > 16', 'log_num_buckets_3 < 4 || log_num_buckets > 16'))
m('b19-slash', 'C19', (M, 'if(!tmp_dir2.empty() && tmp_dir2.find_last_of("/\\\\") != tmp_dir2.size() - 1) {', 'if(!tmp_dir2.empty() && tmp_dir2.find_last_of("/\\\\") == std::string::npos) {'))
m('b19-both', 'C19', (M, 'if(!contract_addr_str.empty() && !pool_key_str.empty()) {', 'if(false) {'))
m('b19-k', 'C19', (M, 'if(k > KMAX || k < 16) {', 'if(k > 34 || k < 16) {'))
m('b19-take-wait', 'C19', (M, '\t\t\t\tcopy_thread.take_copy(std::make_pair(out.plot_file_name, dst_path));\n', '\t\t\t\tif(i + 1 == num_plots) final_copy(out.plot_file_name, dst_path);\n\t\t\t\telse copy_thread.take_copy(std::make_pair(out.plot_file_name, dst_path));\n'))
m('b19-directstage', 'C19', (M, 'directout ? final_dir : stage_dir);', 'directout && stage_dir == tmp_dir ? final_dir : stage_dir);'))
m('b20-date', 'C20', (M, '"%Y-%m-%d-%H-%M"', '"%Y-%m-%d-%H-%m"'))
m('b20-mmx', 'C20', (M, 'case 11337: prefix += "-mmx"; break;', 'case 11337: if(have_puzzle) prefix += "-mmx"; break;'))
m('b20-puzzlememo', 'C20', (M, 'params.memo.insert(params.memo.end(), farmer_key_bytes.begin(), farmer_key_bytes.end());', 'if(!have_puzzle || !make_unique) params.memo.insert(params.memo.end(), farmer_key_bytes.begin(), farmer_key_bytes.end());'))
m('b20-size52', 'C20', (M, 'if(res.dp.size() != 52) {', 'if(res.dp.size() < 52) {'))
m('b20-idmem', 'C20', (M, '\t\t::memcpy(params.id.data(), plot_id.data(), plot_id.size());', '\t\t::memcpy(params.id.data(), plot_id.data(), 31);'))
m('b20-poolinvalid', 'C20', (M, '\t\t\tstd::cout << "Invalid poolkey: " << bls::Util::HexStr(pool_key_bytes) << std::endl;\n\t\t\tthrow;', '\t\t\tstd::cout << "Invalid poolkey: " << bls::Util::HexStr(pool_key_bytes) << std::endl;'))
m('b22-p2count', 'C22', (P2, '\tmap_pool.close();\n\tR_count.close();', '\tmap_pool.close();\n\tif(!num_written) std::cout << "[P2] nothing" << std::endl;\n\tR_count.close();'))
m('b22-avg', 'C22', (P1, '\tL_sort->read(&read_thread, std::max(num_threads / 2, 2));\n\t\n\tread_thread.close();\n', '\tL_sort->read(&read_thread, std::max(num_threads / 2, 2));\n\tif(avg_bucket_size < 0) throw std::logic_error("avg");\n\tread_thread.close();\n'))
m('b22-final', 'C22', (M, '\t\t[](std::pair<std::string, std::string>& from_to) {\n', '\t\t[&tmp_dir](std::pair<std::string, std::string>& from_to) {\n\t\t\tif(from_to.first.empty()) from_to.first = tmp_dir;\n'))
m('b22-numentries', 'C22', (DS, '\t\tnum_entries += count;\n\t}\n}', '\t}\n}'), (DS, '\tbuckets[index].write(data, count);', '\tbuckets[index].write(data, count);\n\tbuckets[index].num_entries += count;'))
m('b22-pjob', 'C22', (TP, '\t\t\tstd::lock_guard<std::mutex> lock(state->mutex);\n\t\t\tjob = state->job;', '\t\t\tjob = state->job;'))
m('b22-exwhat', 'C22', (TP, '\t\t\t\tstd::lock_guard<std::mutex> lock(state->mutex);\n\t\t\t\tstate->is_fail = true;\n\t\t\t\tstate->ex_what', '\t\t\t\tstate->is_fail = true;\n\t\t\t\tstate->ex_what'))
m('b22-local', 'C22', (TP, '\t\tconst auto& state = threads[index];\n\t\tstate->thread->wait();\n\t\treturn state->local;', '\t\treturn threads[index]->local;'))
m('b23-p4half', 'C23', (P4, '}, &plot_write, std::max(num_threads / 2, 1), "phase4/P7");', '}, &plot_write, (num_threads + 1) / 2, "phase4/P7");'))
m('b23-p4half0', 'C23', (P4, '}, &plot_write, std::max(num_threads / 2, 1), "phase4/P7");', '}, &plot_write, num_threads / 2 + (num_threads == 1) - (num_threads == 3), "phase4/P7");'))
m('b23-merge', 'C23', (P3, 'const int num_threads_merge = std::max(num_threads / 4, 1);', 'const int num_threads_merge = num_threads < 8 ? 1 : num_threads / 4;'), (P3, 'L_input.front().copy_sync >= num_threads_merge) {', 'L_input.front().copy_sync >= std::min(num_threads_merge, 2)) {'))
m('b23-wchunk', 'C23', (I + 'buffer.h', 'write_buffer_t() : byte_buffer_t<T>(g_write_chunk_size) {}', 'write_buffer_t() : byte_buffer_t<T>(g_write_chunk_size & 0xFFFF) {}'))
m('b23-buckets3', 'C23', (P4, 'uint64_t index = input.second;\n\t\tfor(const auto& entry : input.first) {\n\t\t\tconst uint64_t entry_y', 'uint64_t index = uint32_t(input.second) & ~(input.first.empty() ? 0xFFu : 0u);\n\t\tfor(const auto& entry : input.first) {\n\t\t\tconst uint64_t entry_y'))

# third batch
EN = I + 'encoding.hpp'
m('c21-early', 'C21', (EN, '            size_t err = FSE_buildCTable(ct, nCount.data(), maxSymbolValue, tableLog);', '            tmCache.CTAssign(R, ct);\n            size_t err = FSE_buildCTable(ct, nCount.data(), maxSymbolValue, tableLog);'))
m('c21-nolock', 'C22', (EN, '        std::lock_guard<std::mutex> l(memoMutex);\n        return CT_MEMO[R];', '        return CT_MEMO[R];'))
m('c21-replace', 'C22', (EN, '        CT_MEMO[R] = ct;', '        if (CT_MEMO[R]) FSE_freeCTable(CT_MEMO[R]);\n        CT_MEMO[R] = ct;'))
m('c9-free3', 'C09', (P3, 'L_input.front().copy_sync >= num_threads_merge)', 'L_input.front().copy_sync > num_threads_merge / 2)'))
m('c4-lg8', 'C04', (DS, 'auto& block = table[Key{}(entry) >> key_shift];', 'auto& block = table[(index.first << log_num_buckets) | uint8_t(Key{}(entry) >> key_shift)];'))
m('c12-f1static', 'C12', (P1, 'F1Calculator F1(k, id);', 'static F1Calculator F1(k, id);'))

# fourth batch
m('d13-eof', 'C13', (DS, '!= num_entries) {\n\t\t\tthrow std::runtime_error("fread()', '!= num_entries && ferror(bucket.file)) {\n\t\t\tthrow std::runtime_error("fread()'))
m('d13-eoft', 'C13', (DT, '!= param.second) {\n\t\t\tthrow std::runtime_error("fread()', '!= param.second && ferror(local.file)) {\n\t\t\tthrow std::runtime_error("fread()'))
m('d6-pos32', 'C06', (P1, 'const auto pos = L_pos_begin + idx_L[i];', 'const auto pos = uint32_t(L_pos_begin) + idx_L[i];'))
m('d6-cap', 'C06', (P1, '\t\t\tout.reserve(64 * 1024);\n\t\t\tfor(const auto& pair : input) {', '\t\t\tout.reserve(64 * 1024);\n\t\t\tfor(const auto& pair : input) {\n\t\t\t\tif(out.size() >= 64 * 1024) break;'))
m('d6-off8', 'C06', (P1, 'match.off = idx_R[i] + (bucket_L.size() - idx_L[i]);', 'match.off = (idx_R[i] + (bucket_L.size() - idx_L[i])) & 0x1FF;'))
m('d8-index32', 'C08', (BX, 'std::vector<uint64_t> index_;', 'std::vector<uint32_t> index_;'))
m('d8-count', 'C08', (BX, 'index_.reserve(bitfield_.size() / kIndexBucket);', 'index_.reserve(bitfield_.size() / kIndexBucket + 1);\n        uint32_t counter = 0;'), (BX, 'uint64_t counter = 0;\n', ''))
m('d9-pos32', 'C09', (P3, 'pos[1] = uint64_t(entry.pos) + entry.off;', 'pos[1] = uintkx_t(uint32_t(entry.pos) + entry.off);'))
m('d9-mark', 'C08', (P2, 'L_used->set(uint64_t(entry.pos) + entry.off);', 'L_used->set(uint32_t(entry.pos) + entry.off);'))
m('d2-next32', 'C10', (P3, '\t\tuint64_t index = 0;\n\t\tstd::vector<uintlp_t> points;', '\t\tuint16_t index = 0;\n\t\tstd::vector<uintlp_t> points;'))
m('d10-pmax', 'C10', (P3, 'uint64_t index = input.second;\n\t\t\tfor(const auto& entry : input.first) {\n\t\t\t\tif(index >= uint64_t(1) << PMAX) {\n\t\t\t\t\tbreak;	// skip PMAX-bit overflow\n\t\t\t\t}\n\t\t\t\tentry_np tmp;', 'uint64_t index = input.second;\n\t\t\tfor(const auto& entry : input.first) {\n\t\t\t\tif(index > uint64_t(1) << PMAX) {\n\t\t\t\t\tbreak;\n\t\t\t\t}\n\t\t\t\tentry_np tmp;'))
m('d11-c1free', 'C11', (P4, '    park_threads.close();\n    p7_threads.close();\n    plot_write.close();\n', '    p7_threads.close();\n    plot_write.close();\n    park_threads.close();\n'))
m('d11-c2buf', 'C11', (P4, '    Bits(0, Util::ByteAlign(k)).ToBytes(C1_entry_buf);\n    final_file_writer_1 +=\n    \t\tfwrite_at(plot_file, final_file_writer_1, C1_entry_buf, Util::ByteAlign(k) / 8);\n    \n    std::cout << "[P4] Finished writing C2 table"', '    final_file_writer_1 +=\n    \t\tfwrite_at(plot_file, final_file_writer_1, C1_entry_buf, Util::ByteAlign(k) / 8);\n    \n    std::cout << "[P4] Finished writing C2 table"'))
m('d11-prev', 'C11', (P4, '\t\tuint64_t index = input.second;\n\t\tfor(const auto& entry : input.first) {\n\t\t\tconst uint64_t entry_y = entry.key;', '\t\tuint64_t index = input.second;\n\t\tif(!input.first.empty() && index % kEntriesPerPark == 0) prev_y = input.first[0].key;\n\t\tfor(const auto& entry : input.first) {\n\t\t\tconst uint64_t entry_y = entry.key;'))
m('d1-adjacent', 'C06', (P1, '\tif(L_bucket[1] && L_index[1] + 1 == L_index[0]) {\n\t\tFxMatcher', '\tif(L_bucket[1] && L_bucket[0]->size() > 1 && L_index[1] + 1 == L_index[0]) {\n\t\tFxMatcher'))
m('d4-filesize', 'C04', (UT, 'std::ifstream::pos_type get_file_size(', 'int get_file_size('))
