#!/usr/bin/env python3
"""writes scen/meta.json: what is real, what is simulated, the oracle and the bounds of every check"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = 'all of src/mg/core (threads, events, locks, loop thread, files, bit streams, time, utilities) compiled unmodified with every memory access a scheduling point'
SYNC = 'libuv thread, mutex and condition calls (and pthread/C++ ones), monotonic and wall clock, memory allocator'
IO = 'libuv loop, worker pool and file requests, stdio and POSIX file calls, disk contents and capacity, thread and clock calls, memory allocator'
SCHED = 'random pre-emption at any memory access or call, PCT-like priorities, thread stalls, '
M = {
'C01': dict(real=CORE, stub=SYNC, oracle='a count of completed signals: a waiter may not return before it is positive and must return within a bounded simulated time after it became positive',
  bounds='up to 6 waiters and 3 signallers, events re-used over rounds, events destroyed by the waiter that returned', technique='waiter/signaller history oracle with a bounded-progress check'),
'C02': dict(real=CORE, stub=SYNC, oracle='answer and simulated elapsed time compared with the state of the event at the return and with the requested time',
  bounds='limits 0 to 3 s, wall clock jumps of hours, spurious wake-ups, contention on the event', technique='deadline oracle on the simulated clock under clock jumps and spurious wake-ups'),
'C03': dict(real=CORE, stub=SYNC, oracle='an owner/depth model kept beside the lock', bounds='up to 4 threads, 3 locks, nesting depth 5, exceptions through guarded scopes', technique='mutual-exclusion and nesting model'),
'C04': dict(real=CORE, stub=SYNC, oracle='flags set at the first and last instruction of the body compared with done/join/stop answers; join must return in bounded time; a failed creation must be reported', bounds='up to 6 threads, thread creation failing with EAGAIN, ENOMEM, EPERM', technique='life-cycle oracle with thread-creation faults'),
'C05': dict(real='src/mg/cresource.h', stub='threads, memory allocator', oracle='a ledger of live handles per object maintained by the harness; destructor and cleanup check it; heap must be empty at the end', bounds='up to 4 threads, 12 objects, 50 operations, up to 66,000 owners of one object, allocation failures', technique='ownership ledger under every interleaving of reference counting, with allocation faults'),
'C06': dict(real='src/mg/promises.h, src/mg/cresource.h, locks', stub=SYNC, oracle='delivery counters and order per listener', bounds='1 completer, up to 3 listener threads, chains of up to 5 promises', technique='exactly-once delivery counters'),
'C07': dict(real='src/mg/promises.h, src/mg/cresource.h, locks', stub=SYNC, oracle='delivery counters and the identity of the error', bounds='error from call or from listener, 3 threads', technique='exactly-once error counters'),
'C08': dict(real=CORE, stub=IO, oracle='every operation is numbered: completions counted, thread identity and simulated latency checked against the polling period and the work ahead', bounds='up to 4 submitting threads, 40 operations (rarely 66,000 on one file), stop at any moment', technique='exactly-once and latency oracle'),
'C09': dict(real=CORE, stub=IO, oracle='list of unhandled errors in order compared with what check and end raised', bounds='several errors of several types in one batch', technique='error-conservation oracle with I/O faults'),
'C10': dict(real=CORE, stub=IO, oracle='the simulated file image, delivery order compared with issue order', bounds='up to 2 readers, 24 reads up to 600 kB (rarely 66,000 reads of one file), completions in any order, short reads, errors', technique='order and content oracle under reordered completions'),
'C11': dict(real=CORE, stub=IO, oracle='disk image at the moment of the acknowledgement, after a crash and at the end', bounds='up to 10 writes (rarely 66,000 to one file), positions beyond 4 GiB, full disks, short writes, crash at any step', technique='durability oracle with crashes, short writes and full disks'),
'C12': dict(real=CORE, stub=IO, oracle='the log of system results compared operation by operation with what listeners and the owner were told', bounds='up to 10 operations of up to 96 kB on 2 files; open, stat, read, write and close errors', technique='error-attribution oracle over the fault log'),
'C13': dict(real=CORE, stub=IO, oracle='descriptor, request and heap accounting; close must return in bounded time and after every delivery', bounds='up to 3 files, rarely 66,000 operations on one, faults in any call, errors of listeners, loop ended first', technique='resource-conservation oracle with faults in every call'),
'C14': dict(real=CORE + '; src/mg/media/TBitstream.h', stub=IO, oracle='a bit-by-bit model over the whole content', bounds='contents to 30 kB, buffers 1 to 8192 bytes (contents to 310 kB and buffers to 140,000 in a scenario of their own), 9 kinds of storage, 40 operations', technique='refinement against a bit-by-bit model under slow and reordered storage'),
'C15': dict(real=CORE + '; src/mg/media/TBitstream.h', stub=IO, oracle='the bit model and its remaining length', bounds='as C14, reads past the end and failing reads', technique='end-of-data refinement with read faults'),
'C16': dict(real=CORE + '; src/mg/media/TBitstream.h', stub=IO, oracle='the bit model', bounds='as C14 with seeks at every boundary of the buffers', technique='seek refinement with reads in flight'),
'C17': dict(real=CORE + '; src/mg/media/TBitstream.h', stub=IO, oracle='a bit-by-bit writer model and the stored bytes', bounds='40 operations, buffers 1 to 8192 bytes (pieces to 150 kB, buffers to 140,000 and hundreds of writes outstanding in a scenario of their own), 9 kinds of storage', technique='refinement of the stored bytes against a bit writer model'),
'C18': dict(real=CORE + '; src/mg/media/TBitstream.h', stub=IO, oracle='the bit model, simulated duration of every call, shadow memory for freed buffers', bounds='stalls of 1 to 45 s per read, errors, destruction at any moment', technique='stall injection with bounded-time and memory-safety oracle'),
'C19': dict(real=CORE, stub=IO, oracle='destination image against source range; copied objects are freed at once after the return', bounds='sizes to 300 kB (20 GB and 66,000 chunks on counting storages), two copies at a time, slow destinations', technique='copy refinement and bounded-in-flight monitor'),
'C20': dict(real=CORE, stub=IO, oracle='silence means a faithful copy; return in bounded simulated time', bounds='errors, short transfers, full disks, loop ended in the middle', technique='fault injection with report-or-faithful oracle'),
'C21': dict(real='src/mg/core/file.h sync_file_bitstream with the C library\'s real stdio buffering on top of the simulated descriptors', stub='system calls below stdio, disk', oracle='region model of the file compared at every silent flush and close', bounds='regions at 0, 70 kB, 2 GiB, 4 GiB, 9 GB', technique='disk faults below real stdio with report-or-stored oracle'),
'C22': dict(real='src/mg/media/media_queue.h, src/mg/media/fixed_queue.h', stub=SYNC, oracle='a list model of the queue; shadow memory', bounds='up to 3 producers, sample sizes around the capacity, capacities to 3 MB, up to 66,000 samples', technique='FIFO refinement'),
'C23': dict(real='src/mg/media/media_queue.h, src/mg/media/fixed_queue.h', stub=SYNC, oracle='a list model of the queue', bounds='allocation failures at any growth, samples to 280 kB, up to 66,000 of them', technique='FIFO refinement with allocation faults'),
'C24': dict(real='src/b64', stub='threads, memory allocator', oracle='an independent Base64 implementation', bounds='texts to 600 bytes cut anywhere, up to 3 streams at a time', technique='stream-cut refinement with concurrent streams'),
'C25': dict(real='src/mg/media/wincrc.cpp', stub=SYNC, oracle='a bitwise CRC-32/MPEG-2', bounds='up to 3 threads, 600 bytes, 4 alignments', technique='first-use races against a bitwise reference'),
'C26': dict(real='src/mg/core/nx/ctime.cpp', stub='clocks (any reading may move on or jump), threads', oracle='the C library\'s conversion of the instant, bracketed by clock readings', bounds='8 time zones, instants around DST changes, second and day boundaries', technique='clock faults between readings with bracketed-instant oracle'),
'C27': dict(real='src/mg/core/nx/util.cpp', stub='file system', oracle='the simulated directory tree before and after', bounds='6 paths, errors in every call, up to 3 threads', technique='file-system faults and races against the directory tree'),
'C28': dict(real='src/mg/cbuffer.h', stub='memory allocator', oracle='a byte-string model; shadow memory', bounds='40 operations of up to 200 elements (rarely 70,000), bytes and words, allocation failures', technique='refinement with allocation faults'),
'C29': dict(real=CORE + '; src/mg/media/TBitstream.h', stub=IO, oracle='told (call, close or owner) or stored bytes equal the bit writer model', bounds='30 operations, errors, short writes, full disks', technique='fault injection with report-or-stored oracle'),
'C30': dict(real=CORE, stub=IO, oracle='every operation on a file that is not open fails once; standard input and other files keep their bytes; descriptor and heap accounting', bounds='8 ways not to be open, up to 8 operations from 2 threads, descriptor 0 taken or free', technique='misuse histories with refused opens, failed closes and descriptor reuse'),
'C31': dict(real='src/mg/alxstring.h, src/mg/splitter.h, src/mg/cbuffer.h, src/mg/cresource.h', stub='memory allocator, threads', oracle='std::string as the model; shadow memory', bounds='20 operations, text to some hundred characters, allocation failures, up to 4 threads sharing one text', technique='refinement against the standard string with allocation faults and shared handles'),
'C32': dict(real='src/mg/exception.h, src/mg/core/core.h, src/mg/alxstring.h, src/mg/cresource.h, src/mg/promises.h', stub='memory allocator, threads', oracle='the number, message and place the error was raised with; heap accounting', bounds='3 threads, 3 handlings each, messages to 1300 characters', technique='schedules of threads sharing one error, with allocation faults'),
'C33': dict(real=CORE + '; src/mg/core/thread.cpp, src/mg/media/TBitstream.h, fixed_queue.h, media_queue.h', stub=IO + ', threads and locks, memory allocator', oracle='the records written into the inputs; told (thread, storage, close or owner) or the output equals them; accounting of memory, descriptors, requests and time', bounds='2 pipelines of 2 readers and a writer, 14 records of up to 8191 bytes per reader', technique='seeded schedules and fault injection over the whole assembly, end-to-end comparison'),
}
for k, m in M.items(): m['note'] = 'Seeded sampling, not exhaustive. Bounds: ' + m['bounds'] + '.'
json.dump(M, open(H + '/scen/meta.json', 'w'), indent=1, sort_keys=True); open(H + '/scen/meta.json', 'a').write('\n')
