#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run after editing)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

I = "include/chia/"
prop("C01", "A background worker processes every submitted item exactly once, in order",
 "Every item handed to a single background worker is processed exactly once and, for one submitter, in submission order. A wait (or close) that returns normally returns only after every item submitted before it has been completely processed. No interleaving of submitters, waiters, closer and worker deadlocks or loses a wake-up.",
 ["schedules","histories"], "every interleaving of submitters/waiters/closer with the worker, every short sequence of submit/wait/close calls",
 "The stable tests only drive workers inside test_disk_sort with one free-running schedule per run; a lost wake-up or a hand-off overwrite needs one particular interleaving.",
 [I+"Thread.h"], [("single-slot hand-off guarded by mutex/condition variable", I+"Thread.h:42-160")],
 [("pending/busy flags","item waiting in the slot / item being executed",I+"Thread.h")], ["calls of the worker function", "return of wait/close"])
prop("C02", "A worker pool delivers results exactly once, in submission order, bounded",
 "A parallel worker pool applies its function exactly once to every submitted item and passes the results to its output one at a time and in submission order, whatever the number of threads and however long individual items take. When wait or close returns normally all results have been delivered, and at any moment no more items are in progress than the pool has threads (plus the one being submitted). No interleaving deadlocks.",
 ["schedules","histories","configurations"], "every interleaving, 1..4 threads, every short sequence of submit/wait/close/local-state accesses",
 "One unperturbed schedule at one thread count is all the tests reach; out-of-order delivery needs a slow worker overtaken by a fast one.",
 [I+"ThreadPool.h",I+"Thread.h"], [("ordered hand-over by job tickets of the previous worker", I+"ThreadPool.h:100-130")],
 [("job ticket","which submission a worker still has to deliver",I+"ThreadPool.h")], ["calls to the output processor","return of wait/close"])
prop("C03", "A failing worker surfaces as an error; never a hang, never silent success",
 "If processing of any item throws, then the owner's next wait or close reports the failure (an exception carrying the message, or process termination) instead of returning normally, and no thread is left blocked forever. Nothing that depends on the failed item is delivered as if it had succeeded.",
 ["schedules","fault_sequences"], "every interleaving, failure at every item of every stage, 1..4 threads",
 "No test injects a failure into a worker.",
 [I+"Thread.h",I+"ThreadPool.h",I+"DiskSort.hpp",I+"DiskTable.h"], [("exception capture and rethrow on wait", I+"Thread.h"),("ticket release on failure", I+"ThreadPool.h")],
 [], ["wait/close outcome","process exit"])
prop("C04", "Disk sort emits exactly the added entries, sorted, at the right offsets",
 "Whatever entries are added, directly or through any number of per-thread write caches and in any interleaving, reading the disk sort back emits exactly that multiset of entries, in non-decreasing key order over the whole output, with every emitted block labelled with the number of entries emitted before it. This holds for every key width, bucket count, chunk size and number of read and sort threads, and for files kept and re-opened read-only.",
 ["inputs","schedules","configurations"], "all small entry multisets over the key range, all write-cache interleavings, thread/bucket/chunk configurations",
 "test_disk_sort uses one random input, full-size chunks and one configuration; boundary fills, empty buckets and cache interleavings are not sampled.",
 [I+"DiskSort.h",I+"DiskSort.hpp",I+"buffer.h"], [("bucket split by leading key bits, in-memory split and sort, ordered output", I+"DiskSort.hpp")],
 [("buckets","per-bucket temp file and entry count",I+"DiskSort.h")], ["blocks passed to the output processor"])
prop("C05", "A disk table reads back exactly the entries written, in order",
 "Reading a disk table delivers exactly the entries that were written, in write order, in contiguous blocks each labelled with the position of its first entry, for every table size (including empty and non-multiples of the block size), write-chunk size, block size and number of reader threads. The reported entry count equals the number of entries written.",
 ["inputs","schedules","configurations"], "all sizes around chunk and block boundaries, all interleavings of the readers",
 "No stable test touches disk tables.",
 [I+"DiskTable.h",I+"buffer.h"], [("write cache flushed in chunks, positional block reads", I+"DiskTable.h")], [], ["blocks passed to the output processor","table info"])
prop("C06", "Phase 1 tables hold exactly all matches, with correct parent links",
 "Each table produced by the forward-propagation phase contains exactly one entry for every matching pair of the previous table (as defined by the matching function and minus only those pairs whose position or offset cannot be represented), whose parent position and offset identify that pair in the previous table as written to disk and whose value and metadata are computed from that pair. This holds for every input table, at group boundaries falling anywhere relative to read blocks, for every thread count and every interleaving.",
 ["inputs","schedules","configurations"], "small tables with every placement of groups on block boundaries; all bounded interleavings of the matching pipeline",
 "Phase 1 is not even compiled by the test build (missing submodule); nothing exercises it.",
 [I+"phase1.hpp",I+"phase1.h"], [("bucket collection, avail queue, match pool, evaluation pool", I+"phase1.hpp compute_matches/compute_table")], [], ["entries written to the table files and to the next sort"])
prop("C07", "f-functions and matching agree with the Chia proof-of-space definition",
 "The table-1 values, the matching relation and the higher-table values and metadata computed by the plotter are those of the Chia proof-of-space definition for the plot id and k: an independent implementation computes the same values for the same inputs.",
 ["inputs"], "every plot id/x block explored, all residues of the matching relation, all table indices",
 "No stable test computes an f-function.",
 [I+"phase1.hpp",I+"phase1.h","lib/chacha8.c",I+"util.hpp",I+"bits.hpp"], [("chacha8 f1, blake3 fx, matching by precomputed targets", I+"phase1.hpp:30-290")], [], ["f1 entries","fx outputs","match pairs"])
prop("C08", "Phase 2 keeps exactly the entries that reach table 7, remapped consistently",
 "After back-propagation a table entry is kept if and only if some table-7 entry descends from it, kept entries keep their order, and every surviving reference (position, offset) denotes the same two parents under the new numbering as it did under the old one. This holds for every table contents, including duplicate references, positions straddling word and block boundaries, and any number of threads and interleavings.",
 ["inputs","schedules","configurations"], "all small tables of references (every graph shape), all bounded interleavings of the marking and rewriting pipeline",
 "test_phase_2 is not among the runnable tests (needs full phase-1 tables).",
 [I+"phase2.hpp",I+"phase2.h",I+"bitfield.hpp",I+"bitfield_index.hpp"], [("atomic bitfield marking, rank index, remap", I+"phase2.hpp compute_table")], [("used bitfield","parents referenced by surviving children",I+"bitfield.hpp")], ["tables and sorts handed to phase 3","bitfield index lookups"])
prop("C09", "Phase 3 turns each surviving pair into its line point, under every schedule",
 "For each table, the compression phase produces exactly one line point per surviving right entry, computed from the new positions of its two left parents, and renumbers entries by line-point order so that the next table's references stay consistent. No interleaving of its reader, joiner and writer threads deadlocks, drops, duplicates or mis-joins an entry, or fails spuriously.",
 ["schedules","inputs","configurations"], "small left/right tables with references at every block boundary; all bounded interleavings of the two input streams and the join",
 "Phase 3 tests need full-size phase-2 output and are not runnable; a schedule-dependent join error needs one specific interleaving.",
 [I+"phase3.hpp",I+"phase3.h",I+"encoding.hpp"], [("two-sided streaming merge with buffered left blocks", I+"phase3.hpp compute_stage1"),("new-position renumbering",I+"phase3.hpp compute_stage2")], [("left buffers / end flags","sliding window of left entries",I+"phase3.hpp")], ["line-point sort output","new-position sort output"])
prop("C10", "Compressed parks decode back to the exact sorted line points",
 "The parks written for each table, decoded according to the plot format (checkpoint, stubs, entropy-coded deltas, table start pointers), yield exactly the sorted sequence of line points of that table (minus only entries whose position cannot be represented), in order and complete, including the last partial park and wherever in the file the table starts. Parks never overlap and never exceed their fixed size, whatever the thread count or schedule; a park whose contents do not fit is reported as an error, never cut short or written outside its space.",
 ["inputs","schedules","configurations"], "every entry count around park boundaries, extreme and dense deltas, all bounded interleavings of the park writer pipeline",
 "No stable test decodes a park.",
 [I+"phase3.hpp",I+"encoding.hpp",I+"entries.h",I+"util.hpp"], [("park collection, delta/stub split, ANS or raw deltas", I+"phase3.hpp compute_stage2/WritePark")], [], ["bytes of the plot file"],
 "kEntriesPerPark and park-delta limits overridable at compile time")
prop("C11", "Final tables (P7, C1, C2, C3) decode to exactly the table-7 contents",
 "The final-phase output decodes, according to the plot format, to exactly the table-7 entries in value order: the position list holds every entry's table-6 reference, the checkpoint tables hold every checkpoint value, and each value can be recovered from its checkpoint plus the encoded deltas. This holds for every number of entries and every distribution of values (including repeated values), and the header's table pointers locate each section; deltas that do not fit their fixed-size park are reported as an error and no plot is published.",
 ["inputs","schedules","configurations"], "every table-7 size around park/checkpoint boundaries, all value-gap patterns in the codec range, bounded interleavings",
 "test_phase_4 is not runnable (needs phase-3 output); nothing decodes C1/C2/C3.",
 [I+"phase4.hpp",I+"entries.h",I+"encoding.hpp"], [("park/checkpoint state machines in the final pass", I+"phase4.hpp compute")], [], ["bytes of the plot file"],
 "checkpoint intervals and park size overridable at compile time")
prop("C12", "A finished plot is complete and every proof in it verifies",
 "When plotting reports success the published file is a well-formed plot for the requested k, id and memo, every table-7 value in it leads back through the tables to 64 x-values forming a valid Chia proof of space for that value, and together these are exactly the proofs that exist for that plot id (minus only pairs not representable in the format). This holds for every id, and for both the small-k and large-k builds.",
 ["inputs","configurations","schedules"], "ids and k values enumerated at small k, configuration grid, schedule variations of the complete program",
 "The complete plotter is not built by the tests, and no test verifies a proof.",
 ["src/chia_plot.cpp",I+"phase1.hpp",I+"phase2.hpp",I+"phase3.hpp",I+"phase4.hpp"], [("the four phases end to end", "src/chia_plot.cpp create_plot")], [], ["published .plot file"])
prop("C13", "An I/O failure never produces a published wrong plot or a success report",
 "If any file operation of the plotter fails (open, write, short write, flush, close, seek, read, rename), then plotting either still produces a completely correct plot or ends with an error without publishing a plot under its final name. It never reports success for, or publishes, a truncated or corrupted plot, and never hangs.",
 ["fault_sequences","crash_points"], "a fault of every kind at every file operation of a plotting run (one-shot and persistent)",
 "No test injects I/O errors.",
 [I+"phase1.hpp",I+"phase2.hpp",I+"phase3.hpp",I+"phase4.hpp",I+"DiskSort.hpp",I+"DiskTable.h","src/chia_plot.cpp"], [("return-value checks on every file operation", I+"DiskSort.hpp, DiskTable.h, phase3.hpp, phase4.hpp")], [], ["final plot path","program outcome"])
prop("C14", "Final copy never loses a plot and never exposes a partial one",
 "Moving a finished plot to its destination either completes, leaving a byte-identical file under the final name and no source, or reports an error leaving the source intact. At every instant, including a crash or an I/O error at any operation, at least one complete copy of the plot exists and a file under the final destination name, if present, is complete.",
 ["crash_points","fault_sequences","inputs"], "every operation of the copy as crash point and as fault site, same-device and cross-device, file sizes around the buffer size",
 "test_copy only performs one fault-free same-device move.",
 [I+"copy.h"], [("rename, else copy to temporary name then rename then remove", I+"copy.h")], [], ["source and destination paths after every operation"])
prop("C15", "Temporary files are removed, and nothing but the plotter's own files is touched",
 "After a successful run the temporary directories contain no file of that plot, during the run every file the plotter creates, overwrites, renames or deletes lies in a configured directory under a name derived from the plot, and no pre-existing unrelated file is ever modified or removed.",
 ["configurations","histories"], "all directory configurations (tmp, tmp2, final, stage, with and without toggling), sequences of plots, pre-existing files present",
 "No test looks at the temporary directories.",
 ["src/chia_plot.cpp",I+"DiskSort.hpp",I+"phase1.hpp",I+"phase2.hpp",I+"phase3.hpp",I+"phase4.hpp"], [("file removal after each consumer finished", I+"phase*.hpp, DiskSort.hpp")], [], ["file-system operations"])
prop("C16", "Every temporary record encoding round-trips all representable values",
 "Writing any temporary-file record and reading it back yields the same field values for every value in the record's documented field widths, touches only that record's bytes, and does so in both the small-k and the large-k build.",
 ["inputs","configurations"], "all field values at and around every bit and byte boundary, all combinations of boundary values, both builds",
 "Only one record type is exercised by test_disk_sort, with small values; the large-k layouts are not compiled.",
 [I+"phase1.h",I+"phase2.h",I+"phase3.h",I+"chia.h"], [("packed read/write members", I+"phase1.h, phase2.h, phase3.h")], [], ["record bytes"])
prop("C17", "Bit-string operations behave as exact big-endian bit strings",
 "Building, appending, slicing, reading values from, concatenating and serialising bit strings, and the plain slice/write/append helpers, give exactly the result defined by the bit string they represent, for every length, offset and content, and never touch bytes outside it.",
 ["inputs","histories"], "all offsets and lengths around word boundaries, all operation sequences up to a depth",
 "No test targets the bit-string classes.",
 [I+"bits.hpp",I+"util.hpp"], [("word-wise shifting across 64-bit boundaries", I+"bits.hpp")], [], ["operation results"])
prop("C18", "Line points encode unordered position pairs losslessly",
 "Converting two distinct positions to a line point and back yields the same unordered pair for every pair of positions the plot format supports, distinct pairs get distinct line points, and the order of line points is the format's order.",
 ["inputs"], "all pairs below a bound, and all pairs at bit-width boundaries up to the maximum width, both directions",
 "No test encodes a line point.",
 [I+"encoding.hpp"], [("triangular-number encoding and bitwise square search", I+"encoding.hpp")], [], ["encoded and decoded values"])
prop("C19", "A plotting session delivers exactly the requested plots to the right places",
 "For any combination of options, a session creates exactly the requested number of plots (or until interrupted), leaves each one exactly once, complete, in the final directory (or where no copy is requested, in the temporary directory), alternating or staging directories as asked, retrying failed copies until they succeed. A graceful interrupt finishes the current plot and its copy and starts no other; the session never exits before pending copies finished, and invalid option values are rejected before any work is done.",
 ["configurations","histories","schedules","fault_sequences"], "option combinations x number of plots x interrupt points x copy failures x interleavings with the copier thread",
 "chia_plot is not built by the tests.",
 ["src/chia_plot.cpp",I+"copy.h"], [("plot loop, copy thread, signal handler, option validation", "src/chia_plot.cpp main")], [], ["file system and exit status of a session"])
prop("C20", "Plot id, memo and file name are derived from the user's keys as specified",
 "The plot id, memo and file name of a plot are derived from the farmer key, the pool key or pool contract address, and the fresh local key exactly as Chia specifies (including the taproot variant for contract plots), the file name carries the id in hexadecimal, k and date, and malformed keys or addresses are rejected before plotting.",
 ["inputs","configurations"], "pool-key and contract plots, a grid of keys/addresses/seeds including every single-character corruption",
 "chia_plot is not built by the tests.",
 ["src/chia_plot.cpp",I+"phase3.hpp"], [("key aggregation and hashing", "src/chia_plot.cpp create_plot")], [], ["plot header","file name"])
prop("C21", "The entropy coder is lossless within its output bound",
 "Deltas encoded by the entropy coder decode to exactly the same deltas with the plot format's decoder whenever an encoding is produced, for every delta sequence over the coder's alphabet and every table's distribution, never writing past the space reserved for it; when no encoding is produced the raw deltas are stored instead (where the format allows).",
 ["inputs","histories"], "all delta sequences over small alphabets up to a length, boundary lengths and extreme distributions, every table's distribution parameter",
 "The FSE fuzzers exercise random data with their own tables, not the plotter's distributions, lengths or cache.",
 [I+"encoding.hpp","lib/FSE/lib/fse_compress.c","lib/FSE/lib/fse_decompress.c","lib/FSE/lib/entropy_common.c"], [("normalised counts per table, FSE compress/decompress", I+"encoding.hpp")], [], ["encoded bytes"])
prop("C22", "The concurrent pipelines are free of data races",
 "In every pipeline of the plotter (workers, pools, disk sort, disk tables, all four phases and the copy thread) any two conflicting accesses to shared memory from different threads are ordered by synchronisation, so that the behaviour is defined and does not depend on timing.",
 ["schedules"], "every schedule explored of every pipeline harness",
 "The tests are not run under a race detector and a race needs a particular interleaving to show.",
 [I+"Thread.h",I+"ThreadPool.h",I+"DiskSort.hpp",I+"DiskTable.h",I+"phase1.hpp",I+"phase2.hpp",I+"phase3.hpp",I+"phase4.hpp"], [("mutexes, condition variables, atomics, thread start/join", I+"*.hpp")], [], ["memory accesses"])
prop("C23", "The plot's contents do not depend on threads, buckets or chunk sizes",
 "For a given plot id the proofs contained in the plot are the same whatever the number of threads, the numbers of buckets per phase, the read/write chunk sizes and the thread multiplier, within the accepted option ranges (as far as the two-level bucket split fits the key width of that k).",
 ["configurations","schedules"], "grid of thread counts, bucket counts, chunk sizes and multipliers on whole-plot runs",
 "The tests run one configuration, of one component.",
 ["src/chia_plot.cpp","src/settings.cpp",I+"phase1.hpp",I+"phase2.hpp",I+"phase3.hpp",I+"phase4.hpp",I+"DiskSort.hpp"], [("configuration parameters passed to each phase", "src/chia_plot.cpp")], [], ["published .plot file"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
