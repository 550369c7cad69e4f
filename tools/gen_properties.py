import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    P.append(d)
core='src/mg/core/'
p('C01','A signalled event releases every waiter and none is lost',
 'Once an event is signalled and until it is reset, every thread that is already waiting on it and every thread that starts to wait on it returns promptly from its wait, whatever the interleaving of signallers and waiters. A thread waiting without a time limit never returns before the event has been signalled, and a reset event makes later waiters wait again.',
 ['schedules','histories'],'All interleavings of several signallers, waiters (unlimited and timed) and phase-separated resets, with spurious wake-ups and stalled threads.',
 'The test-suite runs one hand-shake with generous sleeps; a lost wake-up needs the signal to fall between a waiter\'s check and its sleep, and a missed broadcast needs two simultaneous waiters.',
 [core+'thread.h',core+'thread.cpp'],[('event signal/wait/reset',core+'thread.cpp signal_event'),('thread stop and completion flags built on it',core+'thread.h cthread')],observe=['return of wait','is_signaled'])
p('C02','A timed wait answers truthfully and keeps its deadline',
 'A timed wait on an event answers "signalled" if and only if the event is signalled by the time it returns, and answers "not signalled" no sooner than the requested time has elapsed. It returns within a small bound after the deadline or after the signal, whichever is first, regardless of contention on the event, spurious wake-ups, or jumps of the wall clock.',
 ['schedules','fault_sequences'],'All timeouts, contention patterns, spurious wake-ups, wall-clock jumps and signal times around the deadline.',
 'Tests only check one polling pattern and never contend, jump the clock, or wake spuriously.',
 [core+'thread.cpp',core+'thread.h'],[('timed wait',core+'thread.cpp signal_event::wait(ms)'),('signalled query',core+'thread.cpp signal_event::is_signaled')])
p('C03','A lock excludes other threads and nests within one thread',
 'At most one thread at a time is inside a region guarded by a given lock; the owner may enter again and the lock is free only after as many exits as entries. A try-lock never blocks, succeeds exactly when the lock is free or already owned by the caller, and a scope guard releases the lock on every way out of the scope, exceptions included.',
 ['schedules','programs'],'All interleavings of threads running random nestings of lock, try-lock, guarded scopes and exceptions.',
 'The single locking test uses two threads and no nesting, try-lock or exceptional exit.',
 [core+'thread.h',core+'thread.cpp'],[('recursive mutex wrapper',core+'thread.cpp critical_section'),('scope guard',core+'thread.h auto_lock')])
p('C04','A thread runs once, and done/join/stop tell the truth about it',
 'After a successful start the body runs exactly once; the thread is reported done only after the body has finished, joining returns only after the body has finished and may be repeated, and a stop request is seen by the body at its next check and never forgotten. A thread object can be started again after it was joined, and all this holds for the new run. If the system cannot create the thread, start reports an error and the object can still be joined and destroyed safely.',
 ['schedules','fault_sequences'],'All interleavings of starter, body, stopper and joiner; thread creation failing at any start.',
 'Tests never fail thread creation nor place stop/join/done at unusual moments.',
 [core+'thread.h',core+'thread.cpp',core+'uvbase.h'],[('thread wrapper',core+'thread.cpp cthread'),('loop thread shutdown',core+'uvbase.h uvloopthread::end')])
p('C05','A shared handle destroys its object exactly once, after the last owner',
 'While any handle to a shared object exists the object stays alive, and when the last handle goes away - on whichever thread - its cleanup action runs exactly once followed by exactly one destruction. Copying, assigning, self-assigning and dropping handles concurrently on different threads never destroys the object early, twice, or not at all, and neither does a cleanup action or destructor which uses or reassigns the very handle that is leaving its object.',
 ['schedules','histories'],'All interleavings of threads each copying, assigning and dropping their own handles to common objects.',
 'The resource tests are single-threaded; a lost count update needs preemption between load and store of the counter.',
 ['src/mg/cresource.h'],[('reference count',"src/mg/cresource.h CInternalResource::addRef/release"),('cleanup hook','src/mg/cresource.h add_cleanup_function')])
p('C06','A promise delivers its value exactly once to whoever listens',
 'If a promise is completed once with a value and a listener is attached once, the listener receives exactly that value exactly once, whether it is attached before, during or after completion and from whichever thread; a listener chained behind it through forwarding, set up before the completion, also receives it exactly once and only after the first. Nothing is delivered before completion.',
 ['schedules','histories'],'All orders and interleavings of attach, forward and complete on two or more threads.',
 'Tests complete promises through real files, practically always in one order.',
 ['src/mg/promises.h',core+'file.cpp'],[('value hand-over','src/mg/promises.h CPromise::call_cb/set_cb'),('forwarding','src/mg/promises.h CPromise::forward')])
p('C07','A promise failure reaches the error listener exactly once',
 'If a promise fails, or its value listener throws, the error listener receives that very error exactly once, whether it is attached before or after the failure, and the value listener is not also told of success; the error travels on to a forwarded promise exactly when the error listener asks for it. The promise remains usable by other threads after a listener throws.',
 ['schedules','histories'],'All orders of attach and fail on two threads, listeners that throw, return true or return false, and forwarded promises.',
 'Error paths of promises are exercised by two fixed tests and never across threads or with late attachment.',
 ['src/mg/promises.h'],[('error hand-over','src/mg/promises.h CPromise::call_er/set_er'),('exception capture','src/mg/promises.h CPromise::call_cb')])
p('C08','Every operation given to a running loop thread is completed exactly once',
 'Each asynchronous operation submitted to a running loop thread, from any thread or from within a completion, has its completion run exactly once, on the loop thread; it is served within the polling period plus the duration of the work ahead of it, and at once after a nudge. When a stop was requested, ending the loop thread returns only after every operation submitted before the stop has completed.',
 ['schedules','fault_sequences','histories'],'All interleavings of submitters, nudges, polling and stop; slow, stalled and out-of-order operations; one to several background workers.',
 'Tests submit a handful of operations on an idle loop and sleep for a second.',
 [core+'uvbase.h',core+'uvbase.cpp',core+'file.cpp'],[('loop thread body',core+'uvbase.cpp uvloopthread::run'),('loop lock',core+'uvbase.h uvloopthread::loop_lock'),('stop/end',core+'uvbase.h uvloopthread::stop/end')])
p('C09','An unhandled asynchronous error is reported to the owner exactly once',
 'If a completion on the loop thread ends in an error that no listener absorbed, that error is raised to the owner exactly once, by the next check or by ending the loop (of several pending at that moment, the first); with no such error nothing is raised. An unhandled error may end the loop thread, but never before every outstanding operation has been completed: no other operation is lost, and closing or ending does not hang.',
 ['schedules','fault_sequences'],'Any operation failing at any point relative to others, listeners that throw or absorb, checks racing completions, then end.',
 'Two tests provoke one error each with nothing else outstanding.',
 [core+'uvbase.h',core+'uvbase.cpp',core+'file.cpp','src/mg/promises.h'],[('error capture',core+'uvbase.cpp uvloopthread::run'),('error report',core+'uvbase.h uvloopthread::check_exception/end'),('completion dispatch',core+'file.cpp cfile::uv_file_cb')])
p('C10','Asynchronous reads arrive in the order asked, each with its own bytes',
 'Reads issued one after another on an open file deliver their results in the order they were issued, each holding exactly the file\'s bytes of its own range (shortened only by the end of the file), no matter in which order the operating system finishes them. Every read is delivered exactly once, and one that the system cuts short before the end of the file is not passed off as complete. When several threads read on from one file, or the file grows while it is read, every byte goes to exactly one of the reads.',
 ['schedules','fault_sequences','inputs'],'All completion orders of the background workers, submission from other threads and from completions, random sizes and positions, short reads.',
 'Tests read one or two chunks of a local file, where completions practically never overtake each other.',
 [core+'file.cpp',core+'file.h'],[('re-ordering of completions',core+'file.cpp cfile::uv_file_cb'),('read submission',core+'file.cpp cfile::read')],[('_served','completions delivered so far',core+'file.h'),('_unordered_buffer','early completions held back',core+'file.h')])
p('C11','An acknowledged asynchronous write is on disk, exactly and completely',
 'When an asynchronous write is acknowledged as successful, all of its bytes, as they were when it was issued, are in the file at the position current when it was issued; the caller may reuse or free its memory as soon as the call returns. A write the system performs only partly or not at all is never acknowledged as successful. When several threads write to one file, each write gets a place of its own and together they leave no gap.',
 ['schedules','fault_sequences','crash_points','inputs'],'All completion orders, random sizes, repositioning between writes to separate ranges, short writes, full disks, I/O errors, and a crash at any point: what was acknowledged before it must be found.',
 'Tests write a few chunks on a healthy disk.',
 [core+'file.cpp',core+'file.h'],[('write submission and buffer lifetime',core+'file.cpp cfile::write'),('completion',core+'file.cpp cfile::uv_file_cb')])
p('C12','A failed file operation reports its own failure and nobody else\'s',
 'When an operation on a file fails, that operation - and no other - is reported as failed, with the system\'s error code, to its listener or to the owner of the loop; operations that succeeded are delivered as successful. A failed open, read, write or close is never reported as success.',
 ['fault_sequences','schedules'],'Any subset of concurrently outstanding operations failing with any error code, completing in any order.',
 'Tests provoke one failing operation with no others outstanding.',
 [core+'file.cpp',core+'file.h','src/mg/promises.h'],[('result dispatch',core+'file.cpp cfile::uv_file_cb'),('open failures',core+'file.cpp cfile::open')])
p('C13','Closing a file waits for its work and releases everything once',
 'Closing or destroying a file returns only after every operation issued on it has been delivered, closes the system descriptor exactly once and never touches it afterwards; after files and loop are gone no descriptor, request or buffer is left behind. This holds also when opens, operations or the close itself fail, and closing always finishes. When memory runs out, an operation is either refused - its caller is told, nothing of it is left and the position has not moved - or delivered exactly once like any other.',
 ['schedules','fault_sequences'],'All interleavings of outstanding operations with synchronous and asynchronous close and destruction; failures of any operation.',
 'Tests close after everything is finished and never count descriptors or memory.',
 [core+'file.cpp',core+'file.h'],[('drain before close',core+'file.cpp cfile::close'),('request clean-up',core+'file.cpp cfile::uv_file_cb')],[('_outstanding','operations issued',core+'file.h')])
p('C14','The bit reader yields exactly the bits of the stream',
 'For any content, buffer size and mixture of reads, peeks, skips, alignments, little-endian and signed reads, bulk reads and code searches, the bit reader returns exactly what a plain bit-by-bit model over the whole content returns, and its reported position equals the model\'s. The result does not depend on how the storage is backed (memory, synchronous file, asynchronous file), on how slowly or when background reads arrive, or on the buffer size. A width or alignment it cannot serve is refused with an error and changes nothing.',
 ['inputs','schedules','histories'],'Random contents, buffer sizes, operation sequences, storage kinds and background-read timings.',
 'Tests read 4 to 16 bytes with the default 8 KiB buffer, so no refill ever races a read.',
 [core+'bitstream.h',core+'file.h','src/mg/media/TBitstream.h'],[('double buffering',core+'bitstream.h fill_buf/read_cb'),('bit extraction',core+'bitstream.h _nextbits'),('skip',core+'bitstream.h _skipbits'),('bulk read',core+'bitstream.h __read/_read')])
p('C15','Bit-reader end of data is exact: nothing lost, nothing invented',
 'The reader reports end of stream exactly when every bit of the content has been consumed, never earlier even while the last background read is still on its way. Asking for more bits than remain raises the end-of-data error and leaves the remaining bits readable; bulk reads return exactly the bytes that remain and skipping past the end stops at it; a storage error is never mistaken for the end. Asking whether so many bits remain is answered exactly.',
 ['inputs','schedules','fault_sequences'],'Contents of every length around buffer multiples, slow last reads, read errors on any chunk, requests straddling the end.',
 'Tests never read across the end, and a premature end needs the last background read to be slower than the consumer.',
 [core+'bitstream.h',core+'file.h'],[('end test',core+'bitstream.h atend/has_bits'),('end-of-data error',core+'bitstream.h fill_buf')])
p('C16','Seeking the bit reader lands exactly where asked',
 'After moving the reader to any byte position inside the content, forwards or backwards, within the buffered data or outside it, the reported position is that byte and the following reads return the content from there; moving past the end leaves the reader at the end and still able to move back. This holds whatever background read is in flight at the time, and also after a read failed somewhere else: once the storage works, moving and reading there works.',
 ['inputs','schedules','histories','fault_sequences'],'Random seek targets relative to the buffers, all timings of the in-flight read, all storage kinds.',
 'The suite never seeks while a background read is pending.',
 [core+'bitstream.h'],[('reposition for reading',core+'bitstream.h _set_position_read'),('reload',core+'bitstream.h reload')])
p('C17','The bit writer puts exactly the written bits in the stream',
 'For any sequence of bit writes, little-endian writes, aligned bulk writes, alignments, flushes and repositionings to byte boundaries, after the final flush the storage holds exactly the complete bytes a plain model computes, independent of buffer size and of the storage kind and timing. The reported position equals the model\'s at every step; a width or alignment it cannot serve is refused with an error and changes nothing.',
 ['inputs','schedules','histories'],'Random operation sequences, buffer sizes, storage kinds and write-completion orders (repositioning within synchronous and memory storage; asynchronous with separate ranges).',
 'Tests write a small fixed pattern once.',
 [core+'bitstream.h','src/mg/media/TBitstream.h'],[('bit insertion',core+'bitstream.h _putbits'),('flush',core+'bitstream.h _flush_buf'),('bulk write',core+'bitstream.h _write_direct'),('reposition for writing',core+'bitstream.h _set_position_write')])
p('C18','Slow storage delays a bit reader, dead storage fails it with an error',
 'If each background read finishes within ten seconds the reader only takes longer and behaves as if the disk were fast. If one takes longer or fails, the reader raises an error in bounded time - it neither hangs, nor returns wrong data, nor touches freed memory, and it can be destroyed cleanly once the storage is quiet. The same holds for a file that is cut or grows while it is read.',
 ['schedules','fault_sequences'],'Stalls of any length on any chunk, read errors on any chunk, consumer anywhere in the stream.',
 'No test stalls a disk; ten-second timeouts are impractical outside simulated time.',
 [core+'bitstream.h',core+'file.h'],[('bounded wait',core+'bitstream.h wait'),('destruction',core+'bitstream.h ~bitstream_base')])
p('C19','Copying a stream reproduces it exactly and returns only when done',
 'Copying a range of a source to a destination writes exactly the source\'s bytes in order to the destination and returns only after every byte has been written, with no later access to the caller\'s objects, wherever the source stood before and whoever implements the storages. The number of chunks in flight stays bounded however slow the destination is.',
 ['schedules','inputs'],'All interleavings of reader, writer and loop thread, chunk sizes, ranges, fast or slow disks, synchronous or asynchronous on either side.',
 'The copy tests are not among the reliable ones and cannot steer the race between the last completion and the return.',
 [core+'bitstream.cpp',core+'file.h'],[('copy driver',core+'bitstream.cpp copy_stream'),('flow control',core+'bitstream.cpp wait_read'),('completion wait',core+'bitstream.cpp wait_end')])
p('C20','A copy that meets an I/O error fails; it never hangs or claims success',
 'If any read or write of a stream copy fails or is cut short, the source loses its end or has nothing more to give before it, or a storage throws while asked for its position or its end, the copy finishes in bounded time and the failure is reported, by the copy itself or by the owner of the loop. When neither reports anything, the destination is a faithful copy already when the copy returns.',
 ['fault_sequences','schedules'],'Errors, short transfers and full disks on any read or write of the copy, in any order of completion; files cut or grown while they are copied.',
 'No test injects an I/O error into a copy.',
 [core+'bitstream.cpp',core+'file.h',core+'file.cpp'],[('copy driver',core+'bitstream.cpp copy_stream'),('storage adapters',core+'file.h file_bitstream/sync_file_bitstream')])
p('C21','Synchronous file storage: success means the bytes are there',
 'When writing through the synchronous file storage, a flush and close that report no error mean that all bytes are in the file, each where it was written; a full disk or I/O error is reported at the latest by flush or close. Reads return the file\'s bytes at the current position, positions and sizes beyond 4 GiB included, and a read error is not passed off as the end of the file.',
 ['fault_sequences','inputs'],'Random write/seek/flush/read sequences over sparse files up to many GiB, with errors, short transfers and full disks at any system call.',
 'Tests use small files on a healthy disk.',
 [core+'file.h'],[('synchronous storage',core+'file.h sync_file_bitstream')])
p('C22','The bounded sample queue is a faithful FIFO between threads',
 'Samples pushed by one or more threads come out with exactly the header and bytes they were pushed with, in push order, each at most once. A queue that drops on overflow drops only the oldest samples; one that refuses leaves the queue unchanged and says so; the queue never corrupts memory, whatever the sizes.',
 ['schedules','inputs','histories'],'All interleavings of producers and a consumer, random sample sizes against random capacities, both overflow policies.',
 'The queue has no test in the built suite.',
 ['src/mg/media/fixed_queue.h'],[('ring buffer','src/mg/media/fixed_queue.h cfixed_queue push/pop/delete')])
p('C23','The growing sample queue keeps everything, even when memory runs out',
 'A growing queue never drops or reorders samples: when it needs room and memory can be had it grows and keeps all contents, and when memory cannot be had the push fails with an error and the samples already queued remain intact and can be read. The queue stays usable after memory is available again.',
 ['fault_sequences','inputs','schedules'],'Allocation failing at any growth, random sizes and capacities, producer and consumer threads.',
 'No test makes an allocation fail.',
 ['src/mg/media/media_queue.h','src/mg/media/fixed_queue.h'],[('growth','src/mg/media/media_queue.h grow_queue::no_space')])
p('C24','Base64 streaming does not depend on how the data is cut',
 'Encoding a stream piece by piece gives the standard Base64 text of the whole, and decoding any text piece by piece gives back the original bytes, wherever the pieces are cut, with line breaks and other foreign characters between symbols ignored. Several streams may be processed at the same time without influencing each other and no memory outside the buffers is touched.',
 ['inputs','schedules','histories'],'Random contents, arbitrary cuts as produced by short reads, foreign characters of every code, several interleaved streams on several threads.',
 'There is no Base64 test in the built suite.',
 ['src/b64/src/cencode.cpp','src/b64/src/cdecode.cpp'],[('resumable encoder','src/b64/src/cencode.cpp'),('resumable decoder','src/b64/src/cdecode.cpp')])
p('C25','The CRC is right on first use and from any thread',
 'The checksum of a byte string equals the reference CRC-32 (MPEG-2 polynomial and convention), whatever its length and alignment, whether it is computed for the first time by one thread or by several at once, and for several strings at the same time. Creating further calculators while others are in use does not disturb them.',
 ['schedules','inputs'],'All interleavings of first uses on several threads, random strings, lengths and alignments.',
 'The CRC is not called by the built suite, and a wrong value needs a second thread to enter during the first initialisation.',
 ['src/mg/media/wincrc.cpp','src/mg/media/wincrc.h'],[('lazy table','src/mg/media/wincrc.cpp av_crc_get_table'),('checksum','src/mg/media/wincrc.cpp av_crc')])
p('C26','A timestamp is one consistent instant',
 'A timestamp taken now shows calendar fields and a tick count that belong to the same second, which lies between the clock readings just before and just after the call, in UTC or in local time with the zone\'s true offset - also at second boundaries, across clock jumps, and with several threads taking timestamps at once. Elapsed time computed from two timestamps is the difference of their instants, and the laps of a stopwatch which is reset at each of them add up to the whole time. A date given by its parts or read from text shows just those parts, whatever the zone, and the time elapsed between two such dates, or since one, is that of the calendar; a duration is shown with its hours, minutes, seconds and milliseconds.',
 ['schedules','fault_sequences'],'Any wall-clock value and zone, the clock advancing or jumping between any two system calls, several threads.',
 'Tests use timestamps only for printing; an inconsistent one needs the clock to tick between two system calls.',
 [core+'nx/ctime.cpp',core+'ctime.h','src/mg/media/hnano.h'],[('now',core+'nx/ctime.cpp Ctime::ResetToNow'),('zone offset',core+'nx/ctime.cpp Ctime::_GetUTCOffset')])
p('C27','Creating directories and deleting files reports exactly what happened',
 'Making sure a directory exists succeeds when it was created or already existed - also when several threads do so at once - and raises an error otherwise; deleting a file either removes it or raises an error. Neither ever reports success for something the system refused, and a symbolic link counts as what it names for the first and is itself what the second removes.',
 ['fault_sequences','schedules','inputs'],'Concurrent callers, existing and missing paths, every error the system can return.',
 'No test creates an existing directory or makes these calls fail.',
 [core+'nx/util.cpp',core+'util.h'],[('directory creation',core+'nx/util.cpp create_directory'),('deletion',core+'nx/util.cpp delete_file')])
p('C28','A byte buffer keeps its contents through growth and failed growth',
 'A growing byte buffer always holds exactly the bytes appended to it in order, never writes outside its memory, and if memory for growth cannot be had the append fails with an error, the buffer keeps its old contents and remains usable. Resetting and moving back discard exactly what they say.',
 ['fault_sequences','inputs','histories'],'Random append, prepare, direct-fill, reset and move-back sequences with any allocation failing.',
 'The buffer test appends a few bytes and never fails an allocation.',
 ['src/mg/cbuffer.h'],[('growth','src/mg/cbuffer.h CBuffer::growth'),('reset','src/mg/cbuffer.h ResetBuffer')])
p('C29','A bit writer on a failing disk never loses bytes silently',
 'If a write the bit writer issued fails, is cut short or does not fit on the disk, then either a call on the writer or on its storage (write, flush, close) raises an error or the owner of the loop is told, or the stored bytes are exactly those a plain model computes; in no case is success reported over missing bytes. The writer, the file and the loop can still be closed and destroyed cleanly, with nothing left behind.',
 ['fault_sequences','schedules','histories'],'Write errors, short writes and full disks at any write, random operation sequences and buffer sizes, asynchronous and synchronous files and a third-party storage.',
 'No test makes a write fail.',
 [core+'bitstream.h',core+'file.h',core+'file.cpp'],[('write issue',core+'bitstream.h do_write'),('write completion',core+'bitstream.h write_cb/err_cb'),('completion dispatch',core+'file.cpp uv_file_cb'),('synchronous writes',core+'file.h sync_file_bitstream')])
p('C30','A file that is not open refuses work and touches nothing',
 'An operation issued on a file that was never opened, whose open failed, or whose close has been requested is reported as failed - it is neither served from, nor written to, the standard input or any other file of the process - and its memory is released as for any failure. The synchronous file storage likewise refuses with an error. A file given descriptor number 0, because the standard input is closed, works and is closed like any other, and a closed file can be opened again, starting at its beginning; so can the bit streams and media files built on it, also after an open that failed.',
 ['histories','fault_sequences','schedules'],'All ways not to be open (never, refused, failed, closing, closed, close failed), any operations, from several threads, with descriptor 0 open on something else or free, descriptors reused by other files.',
 'Tests use files in the right order, on a healthy system, with the three standard descriptors open.',
 [core+'file.cpp',core+'file.h'],[('descriptor lifetime',core+'file.cpp cfile::open/do_close'),('synchronous storage',core+'file.h sync_file_bitstream')])
p('C31','Text is built right, shared safely and survives failing memory',
 'Building and taking apart text - appending strings, wide strings, numbers, hexadecimal and formatted text, its own contents included; assigning, cloning, cutting, searching, comparing, splitting, replacing, converting - gives what the standard library gives, and touches no memory outside the text. Copies handed to different threads share the text until the last of them goes away, a clone is independent of its original, and an operation for which memory cannot be had raises an error, leaves everything the text held before in place, and the string usable.',
 ['histories','fault_sequences','schedules'],'All sequences of operations, allocation failing at any of them, copies used and dropped by several threads in any interleaving.',
 'Two tests concatenate fixed text on one thread with memory at hand.',
 ['src/mg/alxstring.h','src/mg/splitter.h','src/mg/cbuffer.h','src/mg/cresource.h'],[('string operations','src/mg/alxstring.h CstringT'),('splitting','src/mg/splitter.h Csplitter'),('sharing','src/mg/cresource.h CResource')])
p('C32','An error keeps its number, message and place wherever it is caught',
 'Whoever catches an error - on the thread that raised it or another, directly, as a listener of a promise, once or many times, in a copy - finds the number it was raised with and a text that gives the number, the message and the place; several threads can read, copy and drop one error at the same time, and the last of them releases it. Changing the message of one copy shows in that copy only. An error for which memory cannot be had is replaced by a memory error, and a message for which it cannot be had leaves the error as it was; nothing leaks.',
 ['schedules','fault_sequences'],'Any number, message and place, any interleaving of threads handling the same error, allocation failing anywhere.',
 'Tests print an error on the thread that caught it.',
 ['src/mg/exception.h',core+'core.h','src/mg/promises.h'],[('the error','src/mg/exception.h mgexception'),('passing it on','src/mg/promises.h call_er')])
p('C33','What goes through a whole pipeline comes out, complete and in order, or somebody is told',
 'Threads that read records from files or other storages with bit readers and push them into a media queue, and a thread that takes them out and writes them with a bit writer, together deliver exactly what went in: each record once, byte for byte, those of one source in their order, a full queue only delaying the reader and an empty one only the writer, whatever kinds of storage, buffer sizes and queue (fixed or growing) are combined and however many pipelines share a loop. A reader told to stop leaves a shorter but equally exact output. When storage or memory fails, the thread concerned gets an error, or the storage, its close or the owner of the loop reports it; otherwise the output is complete. In each case everything ends in bounded time, can be closed and destroyed, and leaves no memory, descriptor, request or operation behind.',
 ['schedules','fault_sequences','histories'],'All combinations of ten kinds of reader and nine of writer, schedules of up to six threads and the loop, failing reads, writes, memory and full disks at any point.',
 'Each test runs one class on its own, with a healthy disk.',
 [core+'bitstream.h',core+'file.h',core+'file.cpp',core+'thread.h',core+'uvbase.cpp','src/mg/media/fixed_queue.h','src/mg/media/media_queue.h','src/mg/media/TBitstream.h'],[('reading and writing',core+'bitstream.h bitstream_base'),('queueing','src/mg/media/fixed_queue.h push/pop'),('waiting',core+'thread.h signal_event'),('completion',core+'file.cpp uv_file_cb'),('facades','src/mg/media/TBitstream.h')])
# not applicable
NA=[]
def na(id,title,statement,qtext,why,files,reason):
    p(id,title,statement,['inputs'],qtext,why,files,[('see reason in MANIFEST',files[0])]); NA.append(dict(property=id,reason=reason))
unb='the code cannot be compiled in this sandbox (headers generated by the absent "flavor" compiler and the absent AES library), so there is nothing to run under a simulator; '
na('C40','Packaging preserves the media','Every sample of an input MP4 (bytes, times, sync flags) appears unchanged and in order in the fragmented MP4 or MPEG-TS segments produced from it, and segment boundaries fall on sync points.','All valid inputs and segment lengths.','Asset tests need the command-line tool, which is not built here.',['src/mg/media/mp4mux.h','src/mg/media/mp4fragmented.h','src/mg/media/tsmux.h'],unb+'it is also a deterministic transformation whose only asynchronous parts (file, bit reader/writer, queue) are decided by C10-C23.')
na('C41','Manifests describe the produced segments','DASH and HLS manifests list every produced segment once with its true duration, size and codec string, and total duration equals the media.','All inputs and bit-rate combinations.','Needs the command-line tool.',['src/mg/media/mpd_renderer.h','src/mg/media/hls_renderer.h'],unb+'pure rendering of a data structure, no schedule, clock, I/O fault or crash for it to depend on.')
na('C42','Encrypted output decrypts to the clear input','Common-encryption output decrypted with the right key equals the clear media, and initialisation vectors never repeat under one key.','All keys, inputs and sample sizes.','AES is absent from the build.',['src/mgcli/cenc_provider.h'],unb+'no AES implementation is present offline.')
na('C43','Joined tracks keep synchronous timing','Joining media by time never emits a sample out of order or outside the requested interval.','All track timelines.','Only the header is compiled by the suite.',['src/mg/media/MediaJoin.h'],'a sequential algorithm over in-memory timelines with no concurrency, time source, I/O or failure; a seeded simulator would only be input fuzzing under another name.')
na('C44','Command-line arguments are parsed as documented','Each documented option is recognised in every documented spelling and unknown options are refused.','All argument vectors.','Needs the command-line tool.',['src/mg/cmdline.h'],'a pure function of the argument vector: no schedule, time, I/O or fault for simulation to control.')
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
json.dump(NA,open('/verif/tools/not_applicable.json','w'),indent=1)
print(len(P))
