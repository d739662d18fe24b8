"""What is built and which explorations decide which property."""
COMMON_ASSUMPTIONS = [
    'sequentially consistent interleavings of the compiled (gcc -O1) code; scheduling points at every lock, condition wait/notify, thread start/join, atomic and every racy memory access found',
    'the C++ runtime, libc string functions and compiler are trusted; files are a virtual in-memory file system behind the real stdio calls',
]
ASAN = ['-fsanitize=address', '-fno-sanitize-recover=all', '-fno-lto']
FSE = ['{R}/lib/FSE/lib/%s.c' % x for x in ('fse_compress', 'fse_decompress', 'entropy_common', 'hist')]
SCALE = ['-DCHIA_MC_SCALE="{V}/stubs/scale.h"']
def scaled(epp, d1, d, c1, c2, c3b): return SCALE + ['-DMC_EPP=%s' % epp, '-DMC_D1=%s' % d1, '-DMC_D=%s' % d, '-DMC_C1=%s' % c1, '-DMC_C2=%s' % c2, '-DMC_C3B=%s' % c3b]
PHASE_INC = ['{V}/stubs', '{R}/include', '{R}/lib']
PHASE_SRC = ['{R}/src/settings.cpp', '{R}/lib/chacha8.c', ('ref/ref_fse.c', ['plain']), ('stubs/blake3_stub.cpp', ['plain'])] + FSE
E2E_SCALE = scaled(16, 40, 40, 64, 5, 8) + ['-DCHIA_MC_F1_BLOCK=16']
P3_SCALE = scaled(4, 40, 40, 4, 3, 8)
P4_SCALE = scaled(4, 40, 40, 8, 3, 24)
PH = ['harness/ph%d.cpp' % i for i in (1, 2, 3, 4)]
MULDEF = ['-Wl,--allow-multiple-definition']
HARNESSES = {
    'h_e2e_k32': dict(src=['harness/h_e2e.cpp'] + PH + PHASE_SRC, fallback=['harness/h_e2e.cpp', 'harness/ph_all.cpp'] + PHASE_SRC, lflags=MULDEF, inc=PHASE_INC, flags=E2E_SCALE, instrument=False),
    'h_e2e_k34': dict(src=['harness/h_e2e.cpp'] + PH + PHASE_SRC, fallback=['harness/h_e2e.cpp', 'harness/ph_all.cpp'] + PHASE_SRC, lflags=MULDEF, inc=PHASE_INC, flags=E2E_SCALE + ['-DCHIA_K34=1'], instrument=False),
    'h_e2e_full_k32': dict(src=['harness/h_e2e.cpp'] + PH + PHASE_SRC, fallback=['harness/h_e2e.cpp', 'harness/ph_all.cpp'] + PHASE_SRC, lflags=MULDEF, inc=PHASE_INC, flags=['-DCHIA_MC_F1_BLOCK=16'], instrument=False),
    'h_e2e_full_k34': dict(src=['harness/h_e2e.cpp'] + PH + PHASE_SRC, fallback=['harness/h_e2e.cpp', 'harness/ph_all.cpp'] + PHASE_SRC, lflags=MULDEF, inc=PHASE_INC, flags=['-DCHIA_MC_F1_BLOCK=16', '-DCHIA_K34=1'], instrument=False),
    'h_p3': dict(src=['harness/h_p3.cpp'] + PHASE_SRC, inc=PHASE_INC, flags=P3_SCALE),
    'h_p3d_k32': dict(src=['harness/h_p3.cpp'] + PHASE_SRC, inc=PHASE_INC, flags=P3_SCALE + ['-DH_DATA=1'], instrument=False),
    'h_p3d_k34': dict(src=['harness/h_p3.cpp'] + PHASE_SRC, inc=PHASE_INC, flags=P3_SCALE + ['-DH_DATA=1', '-DCHIA_K34=1'], instrument=False),
    'h_p3o': dict(src=['harness/h_p3.cpp'] + PHASE_SRC, inc=PHASE_INC, flags=P3_SCALE + ['-DH_DATA=1', '-DMC_PMAX=3'], instrument=False),
    'h_p4': dict(src=['harness/h_p4.cpp'] + PHASE_SRC, inc=PHASE_INC, flags=P4_SCALE),
    'h_p4d_k32': dict(src=['harness/h_p4.cpp'] + PHASE_SRC, inc=PHASE_INC, flags=P4_SCALE + ['-DH_DATA=1'], instrument=False),
    'h_p4d_k34': dict(src=['harness/h_p4.cpp'] + PHASE_SRC, inc=PHASE_INC, flags=P4_SCALE + ['-DH_DATA=1', '-DCHIA_K34=1'], instrument=False),
    'h_p4f_k32': dict(src=['harness/h_p4.cpp'] + PHASE_SRC, inc=PHASE_INC, flags=['-DH_DATA=1'], instrument=False),
    'h_p4f_k34': dict(src=['harness/h_p4.cpp'] + PHASE_SRC, inc=PHASE_INC, flags=['-DH_DATA=1', '-DCHIA_K34=1'], instrument=False),
    'h_session': dict(src=['harness/h_session.cpp', ('harness/toy.cpp', ['plain']), 'harness/session_main.cpp', '{R}/src/settings.cpp'], inc=['{V}/stubs_s', '{V}/stubs', '{R}/include', '{R}/lib', '{R}'], flags=['-DGIT_COMMIT_HASH="mc"'], instrument=False),
    'h_session_i': dict(src=['harness/h_session.cpp', ('harness/toy.cpp', ['plain']), 'harness/session_main.cpp', '{R}/src/settings.cpp'], inc=['{V}/stubs_s', '{V}/stubs', '{R}/include', '{R}/lib', '{R}'], flags=['-DGIT_COMMIT_HASH="mc"', '-DH_RACE=1']),
    'h_p2': dict(src=['harness/h_p2.cpp', '{R}/src/settings.cpp'], inc=PHASE_INC),
    'h_p2t': dict(src=['harness/h_p2t.cpp', '{R}/src/settings.cpp'], inc=PHASE_INC),
    'h_p2h_k32': dict(src=['harness/h_p2t.cpp', '{R}/src/settings.cpp'], inc=PHASE_INC, flags=['-DH_HUGE=1'], instrument=False, opt='-O2'),
    'h_p2h_k34': dict(src=['harness/h_p2t.cpp', '{R}/src/settings.cpp'], inc=PHASE_INC, flags=['-DH_HUGE=1', '-DCHIA_K34=1'], instrument=False, opt='-O2'),
    'h_p2d_k32': dict(src=['harness/h_p2.cpp', '{R}/src/settings.cpp'], inc=PHASE_INC, flags=['-DH_DATA=1'], instrument=False),
    'h_p2d_k34': dict(src=['harness/h_p2.cpp', '{R}/src/settings.cpp'], inc=PHASE_INC, flags=['-DH_DATA=1', '-DCHIA_K34=1'], instrument=False),
    'n_park': dict(src=['harness/n_park.cpp', '{R}/src/settings.cpp', ('ref/ref_fse.c', ['plain'])] + FSE, native=True, opt='-O1', inc=PHASE_INC, flags=ASAN + scaled(4, 16, 16, 8, 3, 24), lflags=ASAN),
    'h_p4t': dict(src=['harness/h_p4.cpp'] + PHASE_SRC, inc=PHASE_INC, flags=scaled(4, 40, 40, 8, 3, 5) + ['-DH_DATA=1', '-DH_TIGHT=1'], instrument=False),
    'h_p3f': dict(src=['harness/h_p3.cpp'] + PHASE_SRC, inc=PHASE_INC, flags=['-DH_FULL=1'], instrument=False),
    'h_p3h_k32': dict(src=['harness/h_p3.cpp'] + PHASE_SRC, inc=PHASE_INC, flags=['-DH_HUGE=1'], instrument=False, opt='-O2'),
    'h_p3h_k34': dict(src=['harness/h_p3.cpp'] + PHASE_SRC, inc=PHASE_INC, flags=['-DH_HUGE=1', '-DCHIA_K34=1'], instrument=False, opt='-O2'),
    'h_p3w': dict(src=['harness/h_p3.cpp'] + PHASE_SRC, inc=PHASE_INC, flags=scaled(4, '5.7e8', '5.7e8', 4, 3, 8) + ['-DH_DATA=1', '-DH_WIDE=1'], instrument=False, opt='-O2'),
    'h_p4w': dict(src=['harness/h_p4.cpp'] + PHASE_SRC, inc=PHASE_INC, flags=scaled(4, 40, 40, 8, 3, '2e8') + ['-DH_DATA=1', '-DH_WIDE=1'], instrument=False, opt='-O2'),
    'n_bitfield': dict(src=['harness/n_bitfield.cpp'], native=True, opt='-O2', inc=['{R}/include', '{R}/lib'], flags=['-DNDEBUG']),
    'h_p1_k32': dict(src=['harness/h_p1.cpp', '{R}/lib/chacha8.c', '{R}/src/settings.cpp', ('stubs/blake3_stub.cpp', ['plain'])], inc=PHASE_INC, flags=['-DCHIA_MC_F1_BLOCK=4'], instrument=False),
    'h_p1_k34': dict(src=['harness/h_p1.cpp', '{R}/lib/chacha8.c', '{R}/src/settings.cpp', ('stubs/blake3_stub.cpp', ['plain'])], inc=PHASE_INC, flags=['-DCHIA_MC_F1_BLOCK=4', '-DCHIA_K34=1'], instrument=False),
    'h_p1s': dict(src=['harness/h_p1.cpp', '{R}/lib/chacha8.c', '{R}/src/settings.cpp', ('stubs/blake3_stub.cpp', ['plain'])], inc=PHASE_INC, flags=['-DH_SYN=1']),
    'h_p1d_k32': dict(src=['harness/h_p1.cpp', '{R}/lib/chacha8.c', '{R}/src/settings.cpp', ('stubs/blake3_stub.cpp', ['plain'])], inc=PHASE_INC, flags=['-DH_SYN=1', '-DH_DATA=1'], instrument=False),
    'h_p1d_k34': dict(src=['harness/h_p1.cpp', '{R}/lib/chacha8.c', '{R}/src/settings.cpp', ('stubs/blake3_stub.cpp', ['plain'])], inc=PHASE_INC, flags=['-DH_SYN=1', '-DH_DATA=1', '-DCHIA_K34=1'], instrument=False),
    'h_p1o': dict(src=['harness/h_p1.cpp', '{R}/lib/chacha8.c', '{R}/src/settings.cpp', ('stubs/blake3_stub.cpp', ['plain'])], inc=PHASE_INC, flags=['-DH_SYN=1', '-DH_DATA=1', '-DMC_PMAX=1'], instrument=False),
    'n_fx_k32': dict(src=['harness/n_fx.cpp', '{R}/lib/chacha8.c', '{R}/src/settings.cpp', ('stubs/blake3_stub.cpp', ['plain'])], native=True, opt='-O2', inc=PHASE_INC, flags=ASAN, lflags=ASAN),
    'n_fx_k34': dict(src=['harness/n_fx.cpp', '{R}/lib/chacha8.c', '{R}/src/settings.cpp', ('stubs/blake3_stub.cpp', ['plain'])], native=True, opt='-O2', inc=PHASE_INC, flags=ASAN + ['-DCHIA_K34=1'], lflags=ASAN),
    'n_records_k32': dict(src=['harness/n_records.cpp'], native=True),
    'n_records_k34': dict(src=['harness/n_records.cpp'], native=True, flags=['-DCHIA_K34=1']),
    'n_bits': dict(src=['harness/n_bits.cpp'], native=True),
    'n_lp': dict(src=['harness/n_lp.cpp'], native=True, opt='-O2', inc=['{R}/include', '{R}/lib'], lflags=['-Wl,--unresolved-symbols=ignore-all']),
    'n_fse': dict(src=['harness/n_fse.cpp', ('ref/ref_fse.c', ['plain'])] + FSE, native=True, opt='-O2', inc=['{R}/include', '{R}/lib'], flags=ASAN, lflags=ASAN),
    'h_threads': dict(src=['harness/h_threads.cpp']),
    'h_copy': dict(src=['harness/h_copy.cpp', '{R}/src/settings.cpp'], instrument=False),
    'h_big': dict(src=['harness/h_big.cpp', '{R}/src/settings.cpp'], instrument=False, opt='-O2'),
    'h_disk': dict(src=['harness/h_disk.cpp', '{R}/src/settings.cpp']),
}
PROPS = {
    'C01': dict(technique='stateless model checking of the real Thread class under a controlled scheduler (all interleavings, state caching)', parts=[dict(h='h_threads', filter='C01/')]),
    'C02': dict(technique='stateless model checking of the real ThreadPool under a controlled scheduler (preemption-bounded, iterated)', parts=[dict(h='h_threads', filter='C02/')]),
    'C03': dict(technique='stateless model checking of failing workers: every position of the failing item x every interleaving within the bound', parts=[dict(h='h_threads', filter='C03/')]),
    'C04': dict(technique='bounded exhaustive exploration of the real DiskSort on a virtual file system: all key sequences/configurations up to a bound, and all interleavings up to a preemption/deviation bound', parts=[dict(h='h_disk', filter='C04/'), dict(h='h_big', filter='C04/')]),
    'C05': dict(technique='bounded exhaustive exploration of the real DiskTable: all sizes/chunk/block/thread combinations up to a bound, and all interleavings up to a preemption/deviation bound', parts=[dict(h='h_disk', filter='C05/'), dict(h='h_big', filter='C05/')]),
    'C13': dict(level='fault_enumeration', technique='enumeration of every single I/O fault of a run', parts=[dict(h='h_disk', filter='C13/'), dict(h='h_e2e_full_k32', filter='C13/'), dict(h='h_p3f', filter='C13/')]),
    'C14': dict(level='fault_enumeration', technique='the real final_copy on a virtual file system: invariant evaluated after every file operation (every crash point), for every combination of up to three I/O faults', rule='every file size/buffer/device configuration x every placement of up to 3 (thorough 4) I/O faults (seven errno values for open and rename, short reads and writes); the state after each file operation is a crash point', parts=[dict(h='h_copy', filter='C14/')]),
    'C16': dict(level='exploration', technique='bounded exhaustive enumeration of record contents on the real read/write code (all records with at most two set/clear bits, every byte window, every offset), both builds', rule='every record type x every field value pattern of the stated finite space x 3 background fills', parts=[dict(h='n_records_k32'), dict(h='n_records_k34')]),
    'C17': dict(level='exploration', technique='bounded exhaustive enumeration of operation sequences, lengths and offsets on the real bit-string code against a character-string reference; single-bit contents form a basis because every operation only moves bits', rule='every (length, offset, size) and operation sequence of the stated finite space x contents {zeros, ones, mixed, every single set/clear bit}', parts=[dict(h='n_bits')]),
    'C18': dict(level='exploration', technique='bounded exhaustive enumeration: all position pairs below 2^12 (thorough 2^14), all pairs over boundary positions up to 2^35, all adjacency boundaries', rule='every pair of the stated finite domains', parts=[dict(h='n_lp')]),
    'C12': dict(par=4, level='exploration', technique='bounded exhaustive execution of the whole pipeline under the controlled scheduler on a virtual file system, plot decoded and compared with an independent reference', parts=[dict(h='h_e2e_k32', filter='C12/'), dict(h='h_e2e_k34', filter='C12/'), dict(h='h_e2e_full_k32', filter='C12/'), dict(h='h_e2e_full_k34', filter='C12/'), dict(h='h_p3d_k32', filter='C12/'), dict(h='h_p3d_k34', filter='C12/')]),
    'C22': dict(races=True, par=3, technique='happens-before race detection (vector clocks over every instrumented memory access) on every execution of the stateless exploration of all pipelines', parts=[dict(h=h, filter=f, scale=0.3) for h, f in (('h_threads', 'C01/'), ('h_threads', 'C02/'), ('h_threads', 'C03/'), ('h_disk', 'C04/'), ('h_disk', 'C05/'), ('h_p1s', 'C06/'), ('h_p2', 'C08/'), ('h_p2t', 'C08/'), ('h_p3', 'C09/'), ('h_p3', 'C10/'), ('h_p3', 'C21/'), ('h_p4', 'C11/'), ('h_session_i', 'C22/'))]),
    'C23': dict(par=2, level='exploration', technique='bounded exhaustive product of configurations (threads x buckets x chunk sizes x multiplier), each a whole plotting run of the real phases under the controlled scheduler, decoded and compared with one reference proof set', rule='every configuration of the stated product', parts=[dict(h='h_e2e_k32', filter='C23/'), dict(h='h_e2e_full_k32', filter='C23/')]),
    'C06': dict(par=4, technique='stateless model checking of the real phase 1: per-table step fed by enumerated left tables (all value sequences over matching/non-matching groups x all block cuts) and under every interleaving up to a deviation bound, whole phase at small k against an independent forward computation', parts=[dict(h='h_p1s', filter='C06/'), dict(h='h_p1d_k32', filter='C06/'), dict(h='h_p1d_k34', filter='C06/'), dict(h='h_p1o', filter='C06/'), dict(h='h_p1_k32', filter='C06/'), dict(h='h_p1_k34', filter='C06/'), dict(h='n_fx_k32', filter='C06/'), dict(h='n_fx_k34', filter='C06/')]),
    'C07': dict(par=2, level='exploration', technique='bounded exhaustive enumeration on the real F1/Fx/matching code against an independent implementation: complete matching relation for both parities, every keystream alignment, every single metadata and y bit for every k and table, both builds', rule='every case of the stated finite spaces', parts=[dict(h='n_fx_k32', filter='C07/'), dict(h='n_fx_k34', filter='C07/')]),
    'C08': dict(par=5, technique='stateless model checking of the real phase 2: per-table step under every interleaving up to a deviation bound, whole phase on enumerated synthetic tables, rank index enumerated natively; compared with reachability computed independently', parts=[dict(h='h_p2t', filter='C08/'), dict(h='h_p2', filter='C08/'), dict(h='h_p2d_k32', filter='C08/'), dict(h='h_p2d_k34', filter='C08/'), dict(h='h_p2h_k32', filter='C08/'), dict(h='h_p2h_k34', filter='C08/'), dict(h='n_bitfield')]),
    'C09': dict(par=3, technique='stateless model checking of the real phase 3: join stage under every interleaving up to a preemption/deviation bound, whole phase on enumerated synthetic tables, result decoded by an independent reference', parts=[dict(h='h_p3h_k34', filter='C09/'), dict(h='h_p3h_k32', filter='C09/'), dict(h='h_p3', filter='C09/'), dict(h='h_p3d_k32', filter='C09/'), dict(h='h_p3d_k34', filter='C09/')]),
    'C10': dict(par=3, technique='bounded exhaustive exploration of the real park stage (all entry counts up to two parks, delta patterns, tables, configurations; interleavings up to a deviation bound), decoded by an independent reference', parts=[dict(h='h_p3', filter='C10/'), dict(h='h_p3d_k32', filter='C10/'), dict(h='h_p3d_k34', filter='C10/'), dict(h='h_p3o', filter='C10/'), dict(h='n_park'), dict(h='h_p3w', filter='C10/'), dict(h='h_p3f', filter='C10/')]),
    'C11': dict(par=5, technique='bounded exhaustive exploration of the real phase 4 (all entry counts over two second-level checkpoint intervals x delta patterns x configurations, all short delta sequences; interleavings up to a deviation bound; real format constants around the boundaries), decoded by an independent reference', parts=[dict(h='h_p4', filter='C11/'), dict(h='h_p4d_k32', filter='C11/'), dict(h='h_p4d_k34', filter='C11/'), dict(h='h_p4f_k32', filter='C11/'), dict(h='h_p4f_k34', filter='C11/'), dict(h='h_p4t', filter='C11/'), dict(h='h_p4w', filter='C11/')]),
    'C15': dict(par=4, level='exploration', technique='exhaustive monitoring of every file operation of the real phases on a virtual file system over a product of configurations: ownership of each created/overwritten/renamed/removed path, and what is left at the end', rule='every configuration of the stated product x every file operation of the run', parts=[dict(h='h_session', filter='C15/'), dict(h='h_disk', filter='C15/'), dict(h='h_e2e_k32', filter='C15/'), dict(h='h_e2e_full_k32', filter='C15/')]),
    'C19': dict(level='model_checking', technique='stateless model checking of the real main(): option product x interrupt points x copy faults x interleavings with the copy thread up to a deviation bound, scripted phases, virtual clock and file system', parts=[dict(h='h_session', filter='C19/')]),
    'C20': dict(level='exploration', technique='bounded exhaustive enumeration of key/option combinations and of every single-character corruption, through the real main() and create_plot(), against an independent derivation over a stand-in group', rule='every combination of the stated finite spaces', assumptions=['bls-signatures, libsodium and libbech32 are not in this sandbox: stand-ins with the same interface (a toy group with addition, SHA-256, BIP-350) take their place'], parts=[dict(h='h_session', filter='C20/')]),
    'C21': dict(level='exploration', technique='bounded exhaustive enumeration of delta sequences through the real coder (all short sequences over boundary symbols, all symbol pairs, all lengths) decoded by a pristine copy of the format decoder', rule='every sequence of the stated finite spaces, for each of the six distributions', parts=[dict(h='n_fse'), dict(h='h_p3', filter='C21/')]),
}
NA = {}
HOOKS = dict(guard='CHIA_MC_SCALE, CHIA_MC_F1_BLOCK', enable='tools/build.py compiles the scaled harnesses with -DCHIA_MC_SCALE="<stubs/scale.h>" (format constants taken from that header) and -DCHIA_MC_F1_BLOCK=16 (F1 block size); unscaled builds of the same harnesses run beside them', source_commits=['6fc8889'])
