"""What each check builds, runs and reports."""
GCC = dict(cxx='g++', flags=['-O3', '-DNDEBUG', '-fno-gnu-unique'], asm=True)
VARIANTS = {
 'asm':   dict(GCC, what='g++ -O3 (the shipped configuration), x86-64 assembly; "asmnx" is the same image loaded with the extended instructions disabled'),
 'port':  dict(cxx='g++', flags=['-O3', '-DNDEBUG', '-fno-gnu-unique', '-include', '@SIM/port.h'], asm=False, what='g++ -O3, the portable C++ arithmetic used on other processors'),
 'initz': dict(cxx='g++', flags=['-O2', '-DNDEBUG', '-fno-gnu-unique', '-ftrivial-auto-var-init=zero'], asm=True, what='g++ -O2, otherwise uninitialised local variables hold zero'),
 'initp': dict(cxx='g++', flags=['-O2', '-DNDEBUG', '-fno-gnu-unique', '-ftrivial-auto-var-init=pattern'], asm=True, what='g++ -O2, otherwise uninitialised local variables hold a bit pattern'),
 'inst': dict(cxx='g++', flags=['-O2', '-DNDEBUG', '-fno-gnu-unique', '-fsanitize-coverage=trace-pc'], asm=True, shimflags=True, what='g++ -O2 with every basic block counted (the simulated clock)'),
 'tsan': dict(cxx='clang++', flags=['-O2', '-DNDEBUG', '-fsanitize=thread'], asm=True, shimflags=True, what='clang++ -O2, every memory access of the C++ code calls the simulated scheduler; x86-64 assembly'),
 'tsanp': dict(cxx='clang++', flags=['-O2', '-DNDEBUG', '-fsanitize=thread', '-include', '@SIM/port.h'], asm=False, shimflags=True, what='the same with the portable C++ arithmetic, so that field arithmetic is visible to the scheduler too'),
 'noelf': dict(cxx='g++', flags=['-O3', '-DNDEBUG', '-fno-gnu-unique', '-U__ELF__'], asm=True, what='g++ -O3, the start-up code used on systems without indirect functions (a function pointer set by a constructor)'),
 'rev':   dict(cxx='g++', flags=['-O0', '-DNDEBUG', '-fno-gnu-unique'], asm=True, rev=True, what='g++ -O0 with the objects linked in reverse order: every constant is initialised at start-up, in the opposite order'),
 'clang': dict(cxx='clang++', flags=['-O2', '-DNDEBUG'], asm=True, what='clang++ -O2, x86-64 assembly'),
}
NET_REAL = ['every library operation: signing, verification, proofs, key aggregation, encoding and decoding (all of /repo/src)']
NET_STUB = ['network, clock, node scheduler, disk (simulated)', 'reference model in sim/ref.hpp as oracle']
BASE = ['core', 'ops', 'alloc']
PROPS = {
 'C07': dict(note='Seeded search. Every decision and signature of every simulated run is compared with an independent reference model; covers sampled seeds only, trusts the reference model and that forgeries need the discrete logarithm.', files=BASE + ['c07'], hosts=['asm', 'asm:noext', 'port'], level='exploration',
   quick=dict(secs=60, hard=300, min=300), thorough=dict(secs=1500, hard=2400, min=3000),
   rule='a seed expands to 2..4 nodes, 5..26 announcements/messages with explicit times, delays and faults; distinct = different hash over everything observed (every decision and result); every run makes real signing and verification calls',
   measure='(operation, expected and observed decision, reason, encoding, decoder mode, message length) tuples',
   real=NET_REAL, stub=NET_STUB,
   assume=['keys reach the oracle with known discrete logarithms; forgeries that break discrete logarithms are out of reach', 'the reference model implements RFC 9380 / the BLS draft with the constants of the repository\'s ciphersuite']),
 'C08': dict(note='Seeded search. Every aggregate and merge of every run is compared with exact reference sums; covers sampled seeds only.', files=BASE + ['c08'], hosts=['asm', 'asm:noext', 'port'], level='exploration',
   quick=dict(secs=50, hard=300, min=300), thorough=dict(secs=1500, hard=2400, min=3000),
   rule='a seed expands to one kind of contribution (keys, signatures, secret keys, weighted points), 0..50 (thorough 120) contributions including repeats, opposites, identities and points of small order, and explicit deliveries, flushes, gossip, duplicates and crashes on 2..4 replicas; distinct = different hash over every aggregate computed',
   measure='(aggregation operation, number of pending contributions, kind, partial aggregate present) tuples',
   real=NET_REAL, stub=NET_STUB, assume=['secret keys contributed are smaller than the group order']),
 'C09': dict(note='Seeded search over committees, votes, network faults and 28 kinds of certificate alteration; every decision compared with a reference decision from known discrete logarithms; sampled seeds only.', files=BASE + ['c09'], hosts=['asm', 'asm:noext', 'port'], level='exploration',
   quick=dict(secs=60, hard=300, min=300), thorough=dict(secs=1500, hard=2400, min=3000),
   rule='a seed expands to 1..36 (thorough 60) validators, 1..2 aggregators, votes with network faults, and 2..5 certificates each altered by 0..2 faults out of 28 kinds; every certificate is judged by 1..2 verifiers; distinct = different hash over every decision and its time',
   measure='(operation, reason, number of keys, number of messages, duplicate check, expected decision, distinct messages) tuples',
   real=NET_REAL, stub=NET_STUB, assume=['every key in a certificate has a known discrete logarithm or is deliberately invalid', 'an empty list with the identity as signature is not judged']),
 'C15': dict(note='Seeded search over ways to split a pairing product, a weighted sum, a shared key or a threshold signature between parties and over the faults between them; results compared with the exact result known from discrete logarithms; sampled seeds only.', files=BASE + ['c15'], hosts=['asm', 'asm:noext', 'port'], level='exploration',
   quick=dict(secs=50, hard=300, min=300), thorough=dict(secs=1500, hard=2400, min=3000),
   rule='a seed expands to one computation (a pairing product of 0..27 pairs or a sum of 0..121 (thorough 401) terms in 1..5 (thorough 9) parts, a three-party key agreement, or a threshold signature of 2..5 (thorough 8) signers under 1..3 dealers), its assignment to 2..4 workers, the form and encoding of every part, and losses, delays, duplicates, crashes, reassignments, withdrawals and coordinator restarts; distinct = different hash over every part and combined result',
   measure='(form of the part, number of terms, weight, code path) tuples',
   real=NET_REAL, stub=NET_STUB, assume=['parts are honest, or recognised as wrong by the receiver\'s own check', 'the target-group value of the generators\' pairing itself is taken from the library and only checked for order, bilinearity and agreement']),
 'C14': dict(note='Seeded search over derivation trees, deliveries and crashes; every derived key compared with an independent implementation of the standard; sampled seeds only.', files=BASE + ['c14'], hosts=['asm', 'asm:noext', 'port'], level='exploration',
   quick=dict(secs=45, hard=300, min=300), thorough=dict(secs=1500, hard=2400, min=3000),
   rule='a seed expands to 1..3 vaults, 1..3 watchers and 6..60 derivations, publications, crashes and restarts along growing paths; distinct = different hash over every derived key',
   measure='(operation, path depth, hardened, index) tuples',
   real=NET_REAL, stub=NET_STUB, assume=['master key generation follows the first draft of EIP-2333 (fixed salt), as the repository documents']),
 'C06': dict(note='Seeded search over values, encodings, crash points and 18 kinds of media damage; every decode is compared with an independent reference decoder working on the bytes actually returned, next to unmapped pages; sampled seeds only.',
   files=BASE + ['c06'], hosts=['asm', 'asm:noext', 'port'], level='exploration',
   quick=dict(secs=50, hard=300, min=300), thorough=dict(secs=1500, hard=2400, min=3000),
   rule='a seed expands to 2..3 nodes with simulated disks and 6..30 (thorough 60) writes, syncs, crashes, media faults and reads of 11 types of record in all their encodings; distinct = different hash over every byte string written and value read',
   measure='(record type, encoding, Montgomery form, validation, rejected, first bytes modulo 256) tuples',
   real=['every encoder and decoder of fields, tower, groups, scalars, keys and hexadecimal text'], stub=['disks with volatile cache, sectors and media faults', 'reference encoders and decoders (sim/ref.hpp)'], assume=['the storage layer returns a record of the size it was asked for', 'the fixed-size hexadecimal decoder is given strings of the documented length']),
 'C10': dict(note='Seeded search: a log of operations (whole catalogue, chained state, and bulk raw field operations on operands structured to reach rare carries) applied by nodes on five builds; states compared bit for bit after every command; sampled seeds only.',
   files=BASE + ['c10'], hosts=['asm', 'asm:noext', 'port', 'clang', 'noelf'], level='exploration',
   quick=dict(secs=60, hard=300, min=300), thorough=dict(secs=1800, hard=2700, min=3000),
   rule='a seed expands to 2..4 nodes on different code paths, a log of 5..30 (thorough 60) commands, message faults, checkpoints, crashes and restarts on other code paths; distinct = different hash over the sequence of states',
   measure='(command, code path, argument seed modulo 64) tuples',
   real=['every library operation, in five builds: extended assembly, generic assembly, portable code, another compiler, start-up without indirect functions'], stub=['network, disk, node scheduler'], assume=['the portable code compiled for this machine behaves as it would on the processors it is meant for', 'this machine has the extended instructions']),
 'C12': dict(note='Seeded search over call histories; every plain call is compared with the same call made alone in a fresh process with other memory contents; sampled seeds only.',
   files=BASE + ['c12'], hosts=['asm', 'asm:noext', 'port', 'initz', 'initp', 'rev'], level='exploration',
   quick=dict(secs=60, hard=300, min=300), thorough=dict(secs=1800, hard=2700, min=3000),
   rule='a seed expands to a history of 6..28 (thorough 60) calls out of the whole catalogue, with seed-chosen contents of heap and stack, moved heap, other threads, buffers against unmapped pages, failed allocations and cancelled computations; distinct = different hash over every result',
   measure='(previous operation, operation, status) tuples',
   real=['every library operation, in six builds'], stub=['allocator (fill, failure, placement)', 'contents of stack and uninitialised local variables', 'progress callback'], assume=['overlap is explored for objects of the library\'s value types (field elements, points), not for byte buffers of the key-derivation primitives']),
 'C13': dict(note='Seeded search over rounds of repeated calls; memory held is compared after 1x, 2x, 4x and 8x as many rounds; sampled seeds only.',
   files=BASE + ['c13'], hosts=['asm', 'asm:noext', 'port', 'clang'], level='exploration',
   quick=dict(secs=45, hard=300, min=300), thorough=dict(secs=1200, hard=2400, min=3000),
   rule='a seed expands to a round of 1..4 (thorough 8) calls out of the whole catalogue, each 1..5 times with accepted, rejected or malformed arguments, some with failed allocations or cancelled; rounds are repeated 24..64 times; or to 1200..2048 (thorough 4096..8192) calls of one operation with ever different arguments; distinct = different hash over the results',
   measure='(operation, status, number of requests, failure injected) tuples',
   real=['every library operation, in four builds'], stub=['allocator (accounting and failure)', 'progress callback'], assume=['memory is obtained through malloc and its relatives or operator new']),
 'C05': dict(note='Seeded search over sets of refused memory requests in every operation; results compared with the same call in a fresh process; sampled seeds only, though every single-request failure of the allocating operations is visited many times.',
   files=BASE + ['c05'], hosts=['asm', 'port', 'clang'], level='exploration',
   quick=dict(secs=45, hard=300, min=300), thorough=dict(secs=1500, hard=2400, min=3000),
   rule='a seed expands to 1..3 (thorough 6) operations, each called 2..40 times with different sets of refused requests (each one in turn, all from one on, a burst, several), and plain calls after; distinct = different hash over results and refusals',
   measure='(operation, first refused request, status) tuples',
   real=['every library operation, in three builds'], stub=['allocator'], assume=['memory is obtained through malloc and its relatives or operator new', 'an exception of any type, a nonzero return code, or the zero key of secret_key and derive_child_sk count as a report']),
 'C02': dict(note='Seeded search over task switches, nested computations and operations placed at chosen callback invocations; results compared with known discrete logarithms; sampled seeds only.',
   files=BASE + ['cb'], hosts=['asm', 'asm:noext', 'port', 'clang'], level='exploration',
   quick=dict(secs=50, hard=300, min=300), thorough=dict(secs=1800, hard=2700, min=3000),
   rule='a seed expands to 1..4 (thorough 6) computations of 0..620 terms run as fibers of one thread, switched at callback invocations chosen by the plan (or every k-th), with operations and further computations inside callbacks and shared inputs; distinct = different hash over every result and number of callbacks',
   measure='(kind of computation, number of terms, number of callbacks) tuples',
   real=['weighted sums, pairing products and every other operation, in four builds'], stub=['task scheduler (fibers), progress callback'], assume=['pairing products are judged by bilinearity against a single pair with the summed exponent']),
 'C03': dict(note='Seeded search over the invocation that throws, the exception type, and what else runs at the time; sampled seeds only.',
   files=BASE + ['cb'], hosts=['asm', 'asm:noext', 'port', 'clang'], level='exploration',
   quick=dict(secs=50, hard=300, min=300), thorough=dict(secs=1800, hard=2700, min=3000),
   rule='as for C02, with 1..4 exceptions of 6 types thrown from chosen invocations; every cancelled computation is repeated on the same inputs, and the whole run is executed three times to account for memory; distinct = different hash over every result and number of callbacks',
   measure='(kind of computation, number of terms, number of callbacks, exception type) tuples',
   real=['weighted sums, pairing products and every other operation, in four builds'], stub=['task scheduler (fibers), progress callback, allocator (accounting)'], assume=['the same exception means the same type and content']),
 'C04': dict(note='Seeded search over numbers and values of terms, in simulated time (executed basic blocks, in units of one point addition); sampled seeds only, sums of up to 5200 (thorough 66000) terms.',
   files=BASE + ['c04'], hosts=['inst'], level='exploration',
   quick=dict(secs=45, hard=300, min=200), thorough=dict(secs=1500, hard=2400, min=1000),
   rule='a seed expands to 1..4 sums of 1..5200 (thorough 66000) terms with 6 kinds of points and 12 kinds of scalars (including sparse and periodic zeros), some with another sum, another operation or an exception inside the callback, or products of 20..80 (thorough 300) pairs; distinct = different hash over the number of callbacks, the largest gap and the total work',
   measure='(number of terms, number of callbacks) tuples',
   real=['weighted sums and pairing products'], stub=['clock (basic blocks executed), progress callback'], assume=['the bound is taken as the work of 1200 generic point additions, the first callback within 400', 'work inside the assembly routines is proportional to the basic blocks around them']),
 'C16': dict(note='Seeded search over operations, sizes and hostile contents, metered in simulated time (executed basic blocks), memory and stack; sampled seeds only, arguments of up to 480000 bytes or 24000 elements.',
   files=BASE + ['c16'], hosts=['inst'], level='exploration',
   quick=dict(secs=45, hard=300, min=200), thorough=dict(secs=1500, hard=2400, min=1000),
   rule='a seed expands to 2..5 (thorough 10) steps: either one operation with 3..10 ordinary or hostile arguments, or one operation with an argument of size n and of size 4n in 1..18 kinds of content; distinct = different hash over time, memory and results',
   measure='(operation, size, content, status) tuples',
   real=['every library operation'], stub=['clock (basic blocks executed), allocator (accounting), stack (a fiber of its own)'], assume=['the bound on growth is 4.8 times (5.5 for the comparison of messages) for 4 times the size; 4 times the expense of ordinary arguments of the same size; 256 KiB of stack', 'work inside the assembly routines and the C library is proportional to the basic blocks and memory requests around it']),
 'C11': dict(note='Seeded search over simulated processors (feature bits, CPUID leaves), environments, argument vectors and ways of starting; instructions the processor lacks trap as undefined; sampled seeds only.',
   files=BASE + ['c11'], hosts=['asm', 'clang', 'noelf', 'rev'], sites=('asm', 'clang', 'noelf', 'rev'), level='exploration',
   quick=dict(secs=45, hard=300, min=200), thorough=dict(secs=1200, hard=2400, min=1000),
   rule='a seed expands to 1..2 (thorough 4) process starts, each with a processor of 19 feature bits and a highest CPUID leaf, 0..1500 environment strings, 0..400 arguments, and 1..8 operations; distinct = different hash over every result',
   measure='(BMI2, ADX, BMI1, highest leaf, answer beyond it, disabled by environment, explicit loader, number of instructions made undefined) tuples',
   real=['start-up selection (indirect function resolver), run by the real dynamic loader in a real process; every operation run afterwards'], stub=['processor: CPUID answers and undefined instructions'], assume=['the library is loaded as a shared object', 'the disassembler (objdump) finds every instruction', 'a variable BLS_DISABLE_BMI2 with a value other than 0 asks to disable (where the library has indirect functions; elsewhere it never consulted the environment)', 'this machine has BMI2 and ADX and lets CPUID fault']),
 'C01': dict(note='Seeded search over interleavings of caller threads at the granularity of single memory accesses, with happens-before race detection; every result compared with the same call alone in a fresh process; sampled seeds only.',
   files=BASE + ['c01'], hosts=['tsan', 'tsanp'], level='exploration',
   quick=dict(secs=60, hard=300, min=300), thorough=dict(secs=1800, hard=2700, min=3000),
   rule='a seed expands to 2..4 (thorough 6) threads each making 1..3 (thorough 5) calls, the first the process ever makes, often the same operation and the same arguments, and 1..12 (thorough 24) preemptions placed by counting memory accesses, reads and writes of global variables, conflicting accesses, synchronisation operations, allocations, callbacks, or single machine instructions; distinct = different hash over results and number of scheduling points and switches',
   measure='(operation interrupted, place of the interruption, kind of point) and (operation interrupted, operation resumed) tuples',
   real=['every library operation, compiled with a hook before each memory access', 'threads and thread-local storage'], stub=['thread scheduler, mutexes, read-write locks, condition variables, one-time initialisation, futexes, sleeping (simulated)', 'progress callback'], assume=['memory accesses of the assembly routines are not tracked for races; interleavings inside them are explored at instruction granularity and judged by results', 'accesses are interleaved in a sequentially consistent order; missing ordering shows as a race, not as a reordering']),
}
