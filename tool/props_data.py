SETTER_NOTE = 'Every path of the setters/getters for every parameter id and an unconstrained value; trusts clang -O0 IR and the abstract interpreter (sound over-approximation).'

prop('C07', 'Parameters outside their documented range are refused without side effect',
     'For every parameter of a compression context or stream, a value inside the documented range is accepted and the getter returns it afterwards, and a value outside is refused with an error and changes no parameter. '
     'Setting one parameter changes no other, except that a compression level or the high-compression switch sets exactly the row of the published level table. Unknown parameter ids are refused.',
     ['inputs', 'histories'], 'every parameter id, every 64-bit value, every prior parameter state',
     'the tests set a handful of valid values; no test sets values at both sides of each bound, or compares all the other parameters afterwards',
     ['fl2_compress.c', 'fast-lzma2.h'],
     [('FL2_CCtx_setParameter', 'fl2_compress.c'), ('FL2_CCtx_getParameter', 'fl2_compress.c'), ('level tables', 'fl2_compress.c'), ('FL2_getLevelParameters', 'fl2_compress.c')],
     'abstract interpretation of the setters and getters per parameter id (linear-constraint domain over LLVM IR)', SETTER_NOTE,
     observe=['return value', 'FL2_CCtx_getParameter', 'FL2_CStream_getParameter'])

prop('C16', 'The thread pool runs each added job once and waits for all of them',
     'Every job handed to the internal thread pool is run exactly once by one worker, all idle workers are woken when a range of jobs is added, and an unlimited wait returns only when no job is queued or running. '
     'Pool state is only read or written under its lock, a sleeping thread always rechecks its condition, and freeing the pool ends and joins every worker thread it created before its memory is released.',
     ['schedules', 'histories'], 'every interleaving of any number of workers and the owner, every pool size, every job range',
     'a test samples a few interleavings on one machine; a lost wakeup, an early return or an unjoined thread needs a particular one',
     ['fl2_pool.c', 'fl2_pool.h', 'fl2_threading.h'],
     [('FL2POOL_thread', 'fl2_pool.c'), ('FL2POOL_addRange', 'fl2_pool.c'), ('FL2POOL_waitAll', 'fl2_pool.c'), ('FL2POOL_create / FL2POOL_join / FL2POOL_free', 'fl2_pool.c')],
     'thread-modular abstract interpretation of the pool as a monitor (shared state havocked at every lock and wait), lockset and typestate rules',
     'Proof for every schedule and pool size of the monitor rules (lock held at each access, field steps, wake-up after each state change a sleeper waits for, join of every created thread); trusts POSIX mutex/condition semantics.',
     observe=['job function calls', 'FL2POOL_waitAll', 'FL2POOL_free'])

HIST = 'explicit-state exploration of all API call histories by abstract interpretation of the compiler IR'
HIST_NOTE = ('Fixed point over every sequence of calls with one or two worker threads, every allocation failing or not; input buffer chains of at most 2 nodes (3 in the thorough run); '
             'heavy functions which allocate nothing enter through their effect summaries; a context is used by one thread at a time.')
API_FILES = ['fl2_compress.c', 'fl2_decompress.c', 'dict_buffer.c', 'fl2_pool.c', 'radix_mf.c', 'lzma2_enc.c', 'lzma2_dec.c']

prop('C08', 'Parameters are locked exactly while a frame is open',
     'A successful initialization of a stream opens a frame; it is closed by writing the end of the stream, by cancelling, by a failed initialization and by a one-shot compression on the context, whatever its result, and by nothing else unless that reports an error. '
     'While a frame is open every parameter except the literal context, literal position and position bits is refused with an error, and outside a frame no parameter is refused because of the state. '
     'Calls which take or produce stream data are refused outside a frame and never refused for that reason inside one.',
     ['histories', 'inputs', 'fault_sequences'], 'every sequence of calls on a compression context or stream, every result of every internal step, one or more threads, with and without dual buffering',
     'the tests call the functions in the usual order; failed initializations, cancellations, errors half-way and reuse of one context for one-shot and streaming work are never combined',
     ['fl2_compress.c'], [('FL2_initCStream', 'fl2_compress.c'), ('FL2_CCtx_setParameter', 'fl2_compress.c'), ('FL2_cancelCStream', 'fl2_compress.c'), ('FL2_compressCCtx', 'fl2_compress.c'), ('FL2_endStream', 'fl2_compress.c')],
     HIST, HIST_NOTE, observe=['return codes of the setters and of the stream functions'])

prop('C12', 'A failed memory allocation is reported and never dereferenced',
     'When memory cannot be allocated in any call, that call returns an error code or a null context (a multi-threaded decoder may continue with one thread instead), or if it happens in a background job, a later call returns the error. '
     'The library never reads, writes or calls through the missing memory, neither in that call nor in any call made afterwards on the same context.',
     ['fault_sequences', 'histories'], 'every sequence of API calls on a context, with each allocation in each call failing or succeeding',
     'no test makes an allocation fail; the reaction of calls made after a failure has never been exercised',
     API_FILES, [('FL2_createCCtxMt', 'fl2_compress.c'), ('FL2_beginFrame', 'fl2_compress.c'), ('DICT_init', 'dict_buffer.c'), ('RMF_createMatchTable', 'radix_mf.c'), ('FL2_createDCtxMt', 'fl2_decompress.c'), ('FL2_createInbufNode', 'fl2_decompress.c')],
     HIST, HIST_NOTE, observe=['return codes', 'memory accesses'])

prop('C13', 'No history of calls leaks memory',
     'When a context or stream is freed, when its creation fails, and when a one-shot function returns, nothing the library has allocated is left, whatever calls were made before and whichever of them failed. '
     'This includes thread pools, dictionary buffers, chained input buffers and output buffers of abandoned frames.',
     ['histories', 'fault_sequences'], 'every sequence of API calls on a context, with each allocation failing or succeeding and each internal step failing or not, ended by freeing the context',
     'the tests free contexts after successful runs only and do not measure leaks',
     API_FILES, [('FL2_freeCCtx', 'fl2_compress.c'), ('DICT_destruct', 'dict_buffer.c'), ('FL2_freeDStream', 'fl2_decompress.c'), ('FL2_freeDCtx', 'fl2_decompress.c'), ('FL2_freeOutputBuffers', 'fl2_decompress.c'), ('LZMA2_freeInbufNodeChain', 'fl2_decompress.c')],
     HIST, HIST_NOTE, observe=['heap at the end of a history'])

prop('C14', 'Freed memory is never used or freed again',
     'No call reads, writes or frees an object which the library has already freed, and memory is only given back as it was allocated, in any sequence of calls on a context including calls after errors, cancellation and reinitialization with other parameters.',
     ['histories', 'fault_sequences'], 'every sequence of API calls on a context, with each allocation failing or succeeding and each internal step failing or not',
     'needs particular sequences (reinitialize with a larger dictionary after a failure, decode after an error, free after a partial construction) which the tests do not make',
     API_FILES, [('DICT_init', 'dict_buffer.c'), ('FL2_beginFrame', 'fl2_compress.c'), ('FL2_freeOutputBuffers', 'fl2_decompress.c'), ('LZMA2_freeInbufNodeChain', 'fl2_decompress.c'), ('FL2_decompressFailedMt', 'fl2_decompress.c')],
     HIST, HIST_NOTE, observe=['memory accesses', 'calls of free'])

prop('C15', 'Jobs on other threads never outlive what they use',
     'The library frees nothing, and hands no further job to a thread pool, while a job given to it earlier may still be running, and never starts more jobs than the context has threads. '
     'When a call returns, nothing but the single background job of an asynchronous or timed stream may still be running, and nothing at all once the context is freed or the operation cancelled. '
     'Decompression and reinitialization are refused while a background decompression may be running.',
     ['histories', 'schedules', 'fault_sequences'], 'every sequence of API calls, every moment at which a background job may end, every timeout result',
     'the tests run jobs which end in time on an idle machine; a job which is still running when the context is freed or reinitialized does not occur',
     API_FILES, [('FL2_compressCurBlock', 'fl2_compress.c'), ('FL2_freeCCtx', 'fl2_compress.c'), ('FL2_initCStream', 'fl2_compress.c'), ('FL2_freeDStream', 'fl2_decompress.c'), ('FL2_decompressStream', 'fl2_decompress.c'), ('FL2_freeDCtx', 'fl2_decompress.c')],
     HIST + ', with pool jobs as pending effects', HIST_NOTE, observe=['calls of free', 'pool activity', 'return codes'])

prop('C25', 'An internal error always reaches the caller',
     'When any internal step of a call fails, the call returns an error code instead of a size or success (a multi-threaded decoder may start over with one thread instead). '
     'An error met by a background job is kept until a call has returned it or the frame is abandoned, and until then no call which produces output or waits for the job reports success.',
     ['histories', 'fault_sequences', 'inputs'], 'every sequence of API calls, with every internal function which can fail failing at every call',
     'the tests decode a few damaged files and never make compression fail inside a job; an error dropped in one of many paths looks like success',
     API_FILES, [('FL2_compressCurBlock', 'fl2_compress.c'), ('FL2_compressStream', 'fl2_compress.c'), ('FL2_waitCStream', 'fl2_compress.c'), ('FL2_decompressStream', 'fl2_decompress.c'), ('FL2_decompressStream_async', 'fl2_decompress.c')],
     HIST + ' with fault injection at every fallible internal call', HIST_NOTE, observe=['return codes'])

prop('C28', 'A stream never writes its input buffers where a compression is reading',
     'Input copied into a compression stream, and the buffer it hands out for direct filling, always lie inside the memory allocated for them, for every dictionary size, overlap, reset interval and split of the input over calls. '
     'While a background compression may be running, no byte of the block it reads is overwritten or handed out, with one buffer or two, after timeouts as well, and each block it is given lies inside its buffer.',
     ['histories', 'inputs', 'schedules'], 'every sequence of stream calls, any sizes of input and buffers, every moment at which the background compression may end',
     'the tests use few buffer sizes and wait for each compression; an overwritten block shows up only when the other thread is still reading it',
     ['dict_buffer.c', 'dict_buffer.h', 'fl2_compress.c'],
     [('DICT_put', 'dict_buffer.c'), ('DICT_shift', 'dict_buffer.c'), ('DICT_getBlock', 'dict_buffer.c'), ('FL2_compressStream', 'fl2_compress.c'), ('FL2_getDictionaryBuffer', 'fl2_compress.c'), ('FL2_updateDictionary', 'fl2_compress.c')],
     'inductive invariant over all exported stream functions by abstract interpretation (linear constraints over the buffer positions, background job as a pending reader)',
     'Proof of the invariant for all values; the caller is taken to add no more than the size handed out, and the total input between dictionary resets to stay below 2^60.',
     observe=['memory accesses', 'FL2_getDictionaryBuffer'])

prop('C27', 'The buffers of the caller are respected, and positions only move forward',
     'A call reads the input it is given only between its position (or start) and its size, and writes the output only between its position (or start) and its size or capacity, also across calls which end inside a checksum or with buffered input. '
     'At the return of a stream call each position lies between its value at entry and the size, and address and size are unchanged; a one-shot compression or decompression never reports more bytes than the capacity it was given.',
     ['inputs', 'histories'], 'every size and position of the buffers, every state of the context, every amount of pending output and every amount consumed by the decoder',
     'the tests use ample output buffers and whole frames; an access beyond the end shows up only with an exact size or a particular split',
     ['fl2_compress.c', 'fl2_decompress.c', 'dict_buffer.c'],
     [('FL2_compressCCtx', 'fl2_compress.c'), ('FL2_compressBuffer', 'fl2_compress.c'), ('FL2_copyCStreamOutput', 'fl2_compress.c'), ('FL2_compressStream', 'fl2_compress.c'), ('FL2_decompressStream', 'fl2_decompress.c'),
      ('FL2_decompressOverlappedInput', 'fl2_decompress.c'), ('FL2_decompressDCtx', 'fl2_decompress.c'), ('FL2_loadInputMt', 'fl2_decompress.c')],
     'abstract interpretation of every exported function with caller buffers, from an arbitrary context state (linear constraints over positions, sizes and counters, loop invariants inferred and re-proved)',
     'Proof for all sizes, positions and context states, given the contract of the block decoder (it consumes and produces no more than it is given); the multi-threaded one-shot decompression, which sums sizes over its blocks, is outside.',
     observe=['memory accesses', 'positions', 'return codes'])

prop('C22', 'Contexts share nothing: no hidden state, no effect outside memory and threads',
     'Apart from the cached number of processor cores, which is stored once complete, no function of the library writes a variable which outlives the call and is not reached through its arguments; so different contexts can be used at the same time and in any order without influence on each other. '
     'No function reads or writes files, standard streams, the environment or locale, ends the process, or changes signal handling, except for reading system information to count the processor cores.',
     ['schedules', 'histories', 'configurations'], 'every pair of contexts used in turn or at the same time, every function reachable from the API, C and assembly decoder',
     'the tests use one context at a time; a static buffer works as long as nobody else uses it',
     ['xxhash.c', 'util.c', 'fl2_compress.c', 'fl2_decompress.c', 'lzma2_enc.c', 'lzma2_dec.c', 'radix_mf.c', 'range_enc.c', 'lzma_dec_x86_64.S'],
     [('UTIL_countPhysicalCores', 'util.c'), ('price_table', 'range_enc.c'), ('XXH32_createState', 'xxhash.c'), ('LZMA_decodeReal_3', 'lzma_dec_x86_64.S')],
     'effect and dependence analysis of the linked program (writes to and escapes of static variables, external calls), inspection of the assembled decoder',
     'Every function reachable from the exported ones in both decoder variants; trusts that the external functions on the allowed list do only what their standard says.',
     observe=['static variables', 'external calls'])

prop('C21', 'Every result can be told apart: size, error, time-out, and which error',
     'The error test is true exactly for error results, the time-out test exactly for the time-out, the error code of a result is the one the function returned and zero for results which are no error, and each code has a text of its own, the same by code and by result. '
     'Every negative constant a function returns as a size is one of the documented error codes.',
     ['inputs'], 'every 64-bit result, every error code, every constant returned by any function reachable from the API',
     'tests look at a few codes; a result which is neither a size nor a known error shows up on a rare path only',
     ['fl2_common.c', 'fl2_errors.h', 'fl2_compress.c', 'fl2_decompress.c'],
     [('FL2_isError', 'fl2_common.c'), ('FL2_isTimedOut', 'fl2_common.c'), ('FL2_getErrorCode', 'fl2_common.c'), ('FL2_getErrorString', 'fl2_common.c'), ('FL2_getErrorName', 'fl2_common.c')],
     'abstract interpretation of the classification functions for an unconstrained result and each code; backward slice from every return to its constants',
     'All 64-bit results and all returned constants; that the code chosen on a path is the most fitting one is not decided.',
     observe=['return codes', 'error texts'])

prop('C04', 'A frame with check sum is complete only when the sum matches the output',
     'When a frame carries a check sum, every byte written to the output is hashed once and in order, whichever way it was decompressed and however the input and output are split over calls, and a hash starts fresh with each frame. '
     'The sum is the four bytes which follow the data, collected in order over any number of calls; the frame is reported complete only if it equals the hash, otherwise a checksum error is given, and the one-shot call accepts data with check sum only on the same terms. '
     'A stream call returns zero exactly when the frame is complete.',
     ['inputs', 'histories', 'configurations'], 'every split of input and output, every stage of the stream, one or several threads, with and without background thread, every amount consumed by the decoder',
     'the tests decompress intact frames; a sum which is never compared, or a hash which misses a piece on one path, goes unnoticed until data is damaged or split at a particular byte',
     ['fl2_decompress.c'],
     [('FL2_decompressStream', 'fl2_decompress.c'), ('FL2_decompressInput', 'fl2_decompress.c'), ('FL2_writeStreamBlocks', 'fl2_decompress.c'), ('FL2_decompressDCtx', 'fl2_decompress.c'), ('FL2_initDStream_withProp', 'fl2_decompress.c')],
     'abstract interpretation of the decompression calls from every stage with ghost variables (end of the hashed output, bytes of the sum received, difference of digest and expected sum)',
     'Proof for all sizes, splits and stages, given that the hash functions compute what they should and the block decoder writes only through its destination; that a mismatch gives precisely the checksum error code is checked only as "no success".',
     observe=['return codes', 'output bytes'])

prop('C26', 'Streams cannot stall silently: idle calls are counted, then refused',
     'A stream call which neither consumes input nor produces output, and does not finish the frame, is counted; a bounded number of them in a row succeed and the next gives an error, so a caller which loops on a truncated frame or a full buffer always terminates. '
     'A call which moves a position is never counted and clears the count.',
     ['inputs', 'histories'], 'every sequence of stream calls, all sizes and positions of both buffers, every stage and every state of the context',
     'the tests always supply enough input and room; an endless loop shows up only with a truncated frame or an empty buffer, a refusal too early only after particular splits',
     ['fl2_decompress.c', 'fl2_compress.c'],
     [('FL2_decompressStream', 'fl2_decompress.c'), ('FL2_compressStream', 'fl2_compress.c'), ('FL2_flushStream', 'fl2_compress.c'), ('FL2_endStream', 'fl2_compress.c')],
     'abstract interpretation of every stream call from an arbitrary state (positions at entry and return compared at each write of the counter and each return)',
     'Proof for all sizes, positions and states; the bound is taken to be 16 or less. Calls made with a background thread run the same function there.',
     observe=['return codes', 'positions'])

LOOPS = 'the data is produced by match search, price tables and adaptive range coding; what those loops compute lies outside every sound static domain in reach'

prop('C01', 'What is compressed decompresses to the same bytes',
     'For every input, every accepted set of parameters and every thread count, decompressing the compressed data gives back the input exactly, by the one-shot and the streaming calls in any combination.',
     ['inputs', 'configurations'], 'all inputs and parameters',
     'tests cover a few corpora', ['lzma2_enc.c', 'lzma2_dec.c', 'radix_mf.c', 'range_enc.c'], [('FL2_compressCCtx', 'fl2_compress.c'), ('FL2_decompressDCtx', 'fl2_decompress.c')],
     na='equality of two data-dependent computations: ' + LOOPS + '; needs a functional-correctness proof or testing, both other families')

prop('C02', 'Compressed size stays within the published bound',
     'A destination of the size returned by the bound function is always enough for a one-shot compression.',
     ['inputs', 'configurations'], 'all inputs and parameters',
     'tests use compressible data', ['lzma2_enc.c', 'fl2_compress.c'], [('FL2_compressBound', 'fl2_compress.c'), ('LZMA2_encode', 'lzma2_enc.c')],
     na='the size of a chunk is decided by the range coder and the compressibility test (floating point over sampled data); bounding it needs a relational loop invariant over the coder state. Writing past the destination is decided by C27')

prop('C03', 'Damaged input never makes the decoder leave its buffers or hang',
     'For every byte sequence given as compressed data the decoder reads and writes only its input, dictionary and probability tables, and ends with success or an error.',
     ['inputs'], 'all byte sequences', 'tests use valid data and a few corruptions', ['lzma2_dec.c', 'lzma_dec_x86_64.S'], [('LZMA_decodeReal', 'lzma2_dec.c'), ('LZMA2_decodeToDic', 'lzma2_dec.c')],
     na='needs the invariant that one symbol consumes at most 20 bytes (an argument about log2 of the range over data-dependent iterations) and equality between unrolled bit-tree indexes and table sizes; tried with the linear-constraint domain, which does not reach the chunk and symbol loops; the assembly variant is out of reach altogether. The layer above is decided by C27 and C04')

prop('C05', 'Output does not depend on the number of threads or on timing',
     'Compressing the same input with the same parameters gives the same bytes whatever the scheduling of the worker threads.',
     ['schedules', 'inputs'], 'all inputs and schedules', 'one schedule per run', ['radix_engine.h', 'radix_struct.c', 'fl2_compress.c'], [('RMF_buildTable', 'radix_mf.c')],
     na='the match table is built by threads which take lists from a shared counter and write links whose disjointness depends on the data (each position is in one list); a static argument would need a separation proof over runtime permutations')

prop('C06', 'Memory estimates are not less than what is allocated',
     'The size estimated for a context with given parameters is at least the memory it allocates.',
     ['configurations'], 'all parameters and thread counts', 'not sampled by tests', ['fl2_compress.c', 'fl2_decompress.c'], [('FL2_estimateCCtxSize', 'fl2_compress.c'), ('FL2_estimateDStreamSize', 'fl2_decompress.c')],
     na='the estimates are documented as approximate (thread pools, stream block lists and small structures are left out), so no exact relation holds on the current tree that could be decided')

prop('C09', 'A waiting call returns near its timeout',
     'With a timeout set, a stream call does not block much longer than it, and with none it waits until the work is done.',
     ['schedules'], 'all schedules', 'real time', ['fl2_pool.c'], [('FL2POOL_waitAll', 'fl2_pool.c')],
     na='a statement about elapsed real time on a scheduler; the untimed part (an unlimited wait returns only when all is done) is decided by C16')

prop('C10', 'Concurrent progress, cancel and wait calls have no data race',
     'While a compression or decompression runs in the background, asking for progress, waiting and cancelling from the owner never race with the worker on non-atomic data.',
     ['schedules'], 'all schedules', 'a race shows up rarely', ['fl2_compress.c', 'fl2_decompress.c'], [('FL2_getCStreamProgress', 'fl2_compress.c'), ('FL2_cancelDStream', 'fl2_decompress.c')],
     na='the code communicates through plain variables by design (cancel flags, the waiting flag, progress counts, asynchronous results); a lockset analysis flags all of these on the current tree, harmless in practice, and a rule which admits them would admit real races; memory lifetime across threads is decided by C15, the pool itself by C16')

prop('C11', 'The encoder chooses good matches',
     'A higher level or larger search depth does not lose ratio beyond noise, and the longest match within the search limits is found.',
     ['inputs', 'configurations'], 'all inputs', 'ratio is sampled on one corpus', ['radix_engine.h', 'lzma2_enc.c'], [('RMF_recurseLists', 'radix_engine.h')],
     na='a quality measure over data with no exact statement to decide')
