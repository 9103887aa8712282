SM = "The existing suite only prints a small heap; it asserts nothing about this part."
prop("C01", "Deque is a faithful double-ended sequence",
 "For every history of pushes and pops at either end, shrinks and clears, a deque holds exactly the elements pushed and not yet popped, in order: pops and peeks return the element at that end (or report emptiness), the reported size is the number of elements, and no element is lost, duplicated or reordered when the buffer wraps, grows or shrinks.",
 ["histories", "inputs"], "every sequence of operations, every buffer size, head position and fill, every element value",
 "The element order breaks only for particular combinations of head offset, fill and capacity. " + SM,
 ["stl/deque.gp_int.go", "stl/gp/deque.gp"], [("ring buffer with head and length, re-laid out on growth and shrink", "stl/deque.gp_int.go")])
prop("C02", "Queue is first-in first-out",
 "For every history of pushes, pops, shrinks and clears a queue returns its elements in exactly the order in which they were pushed, reports its true size and emptiness, and reports (rather than invents) an element when it is empty. Growing, wrapping around or shrinking the buffer never loses, duplicates or reorders elements.",
 ["histories", "inputs"], "every sequence of operations, every initial buffer size, head position and fill, every element value",
 "Order breaks only at particular wrap-around/fill/capacity combinations and after long histories (shrinking). " + SM,
 ["stl/queue.gp_int.go", "stl/gp/queue.gp"], [("ring buffer, growth when full, shrink when sparse", "stl/queue.gp_int.go")])
prop("C03", "Stack is last-in first-out",
 "For every history of pushes, pops and clears a stack returns the most recently pushed element that is still there, reports its true size and emptiness, and never loses or invents elements, whatever its initial capacity and however often it grows.",
 ["histories", "inputs"], "every sequence of operations, every initial buffer size, every element value",
 "A history quantifier over all interleavings and growth points. " + SM,
 ["stl/stack.gp_int.go", "stl/gp/stack.gp"], [("slice-backed stack", "stl/stack.gp_int.go")])
prop("C04", "Heap pops in priority order",
 "For every history of pushes and pops, a heap's top and each popped element is one with the best priority among the elements currently in it (smallest for a min-top heap, largest for a max-top heap), and the elements popped are exactly the elements pushed, with multiplicity.",
 ["histories", "inputs"], "every interleaving of pushes and pops, all element values, both orientations",
 "The heap test prints the result for one array and asserts nothing; sift errors need particular shapes and values.",
 ["stl/heap.gp_int.go", "stl/gp/heap.gp"], [("sift up / sift down on an array-backed binary heap", "stl/heap.gp_int.go")])
prop("C05", "A size-limited heap keeps the best N elements",
 "A heap limited to N elements never exceeds N and, whatever is pushed in whatever order, holds exactly the N best elements pushed so far (a max-top heap the N smallest, a min-top heap the N largest).",
 ["histories", "inputs"], "every limit, every sequence of pushed values, both orientations",
 "Only a comparison of the new element with the worst kept one decides; the test never uses a limit with adversarial orders or ties.",
 ["stl/heap.gp_int.go", "stl/gp/heap.gp"], [("bounded push replaces the top when the newcomer is better", "stl/heap.gp_int.go")])
prop("C06", "Heap algorithms on slices are correct",
 "Making a heap, pushing, popping, sorting and reversing over a caller's slice keep the multiset of elements and establish what their names promise: the heap order after make, push and pop, a slice ordered with the best element last after sort, the exact reversal after reverse; the heap test accepts exactly the slices in heap order.",
 ["inputs"], "every slice of values, both orientations, every index",
 "An input quantifier over all arrays; the test runs one array and asserts nothing.",
 ["stl/heap.gp_int.go", "stl/gp/heap.gp"], [("MakeHeap/PushHeap/PopHeap/Adjust/Sort on slices", "stl/heap.gp_int.go")])
prop("C07", "Doubly linked list operations keep the sequence and links",
 "Every list operation (push, pop, insert before/after, remove, move, rotate, splice another list, reverse, visit, reachability, clear) turns the sequence of nodes into exactly the sequence its name says, keeps forward and backward links mirror images of each other and leaves all other nodes and their values alone.",
 ["histories", "inputs"], "every list, node, mark and operation sequence, including the ends, single-node and empty lists and a node moved relative to itself",
 "Broken links appear only at the ends, for adjacent nodes, or on the next traversal in the other direction. " + SM,
 ["stl/list.gp_int.go", "stl/gp/list.gp"], [("head/tail pointers and prev/next links", "stl/list.gp_int.go")])
prop("C08", "Sorting a doubly linked list is a stable ordered permutation",
 "Sorting a doubly linked list yields the same nodes ordered by the comparison, with equal elements in their original relative order, and a list with intact forward and backward links.",
 ["inputs"], "every list length and every arrangement of values, including ties",
 "Merge-sort errors need particular run lengths and ties. " + SM,
 ["stl/list.gp_int.go", "stl/gp/list.gp"], [("list merge sort", "stl/list.gp_int.go")])
prop("C09", "Singly linked list operations keep the sequence",
 "Every operation of the singly linked list (push, pop, insert, remove, splice, reverse, visit, reachability and cycle tests) produces exactly the node sequence its name says, keeps the front and the length consistent with the chain of nodes, takes a removed node out of the chain and leaves all other nodes alone.",
 ["histories", "inputs"], "every list, node and operation sequence, including empty, single-node and end positions",
 "Broken chains show only on a later traversal and for end or adjacent nodes. " + SM,
 ["stl/slist.gp_int.go", "stl/gp/slist.gp"], [("head pointer, length and next links", "stl/slist.gp_int.go")])
prop("C10", "Sorting a singly linked list is a stable ordered permutation",
 "Sorting a singly linked list yields the same nodes ordered by the comparison with equal elements in their original relative order, the chain ends with the last of them, and the length is unchanged.",
 ["inputs"], "every list length and arrangement of values, including ties",
 "Merge-sort errors need particular run lengths and ties. " + SM,
 ["stl/slist.gp_int.go", "stl/gp/slist.gp"], [("list merge sort", "stl/slist.gp_int.go")])
prop("C11", "Sort slice is an indexable sequence that sorts",
 "The sortable slice inserts, removes, reads, pushes and pops exactly at the position asked for, reports positions outside it without changing anything, and after sorting holds the same elements in order.",
 ["histories", "inputs"], "every slice, spare capacity, index (valid or not) and operation sequence",
 "Aliasing of the backing array and off-by-one positions show only for particular index/capacity combinations. " + SM,
 ["stl/sort_slice.gp_int.go", "stl/gp/sort_slice.gp"], [("slice shifting on insert/remove, sort by the comparison", "stl/sort_slice.gp_int.go")])
prop("C12", "Tree visitor walks every node once in depth-first order",
 "However a tree was grown (and its children removed or sorted), visiting it forward yields every node exactly once with parents before children and siblings in order, visiting backward yields exactly the reverse, mixed steps move to the neighbour in that order, and every node's children are exactly those added and not removed.",
 ["histories", "inputs"], "every tree shape and every walk of forward and backward steps",
 "Visitor errors need particular shapes (last child of a last child, empty siblings) and direction changes. " + SM,
 ["stl/tree.gp_int.go", "stl/gp/tree.gp"], [("visitor with an explicit stack of (node, child index)", "stl/tree.gp_int.go")])
prop("C13", "Comparison functors are consistent orders",
 "The less/greater comparison objects are strict weak orders that mirror each other, choosing one by kind or by name gives the one named, and an unknown kind or name is reported rather than silently treated as an order.",
 ["inputs"], "all pairs and triples of values, all kinds, all names",
 "An input quantifier over all pairs/triples; the suite compares nothing.",
 ["stl/functorcmp.gp_int.go", "stl/gp/functor.gp"], [("functor table", "stl/functorcmp.gp_int.go")])
prop("C14", "Bit, byte and word extraction is exact and total",
 "Extracting bit, byte or word i of a 32-bit number gives exactly those bits for every index inside the number, fails for every index outside and never reads across, so that the parts reassemble to the number.",
 ["inputs"], "every 32-bit value and every 32-bit index",
 "All 2^64 value/index pairs; no test touches these functions.",
 ["math/bits_bytes.go"], [("shift and mask with an index check", "math/bits_bytes.go")])
prop("C15", "Ranged integers never leave their range and never wrap",
 "A ranged unsigned integer always satisfies min <= value <= max: construction, setting, stepping and arithmetic either give the mathematically exact result inside the range or report an error and leave the value alone, for every operand, with no wrap-around of intermediate results; setting returns the value held before.",
 ["inputs", "histories"], "all values, bounds and operands of both widths; every short sequence of mutations",
 "Overflow needs operands near 2^32/2^64; no test touches these types.",
 ["math/range_uint32.go", "math/range_uint64.go", "math/number/gp/rangenumber.gp.go"], [("range check on each result, overflow check before multiply/add", "math/range_uint32.go"), ("same for 64 bits", "math/range_uint64.go")])
prop("C16", "Comma formatting denotes the number",
 "Formatting any 64-bit unsigned number with thousands separators gives its decimal digits without leading zeros, a comma exactly before every third digit counted from the right, and nothing else, so that removing the commas and parsing gives back the number.",
 ["inputs"], "every 64-bit unsigned number",
 "2^64 inputs; zero padding of inner groups is the usual mistake and no test looks.",
 ["math/uint64.go"], [("peeling three digits at a time", "math/uint64.go")])
prop("C17", "Primality is decided correctly",
 "The primality test answers true exactly for the prime numbers, over the whole 32-bit range, including squares and products of neighbouring primes and the top of the range.",
 ["inputs"], "every 32-bit number: every composite by its smallest prime factor and every prime by the square it lies above (the quick tier leaves out part of the large primes)",
 "Wrong answers hide at squares of primes and where an approximate square root is off by one.",
 ["math/prime/prime.go"], [("trial division by a prime table up to the integer square root", "math/prime/prime.go")])
prop("C18", "Integer square root is exact to the nearest integer",
 "The integer square root of every 32-bit number is the integer nearest to its real square root, and never off by one or more from it, including around perfect squares and at the top of the range.",
 ["inputs"], "every 32-bit number (bounded as stated in the evidence)",
 "2^32 inputs and rounding at k*(k+1) that ordinary samples miss.",
 ["math/prime/prime.go"], [("digit-by-digit square root with final rounding", "math/prime/prime.go")])
CONC = ("bounded symbolic execution of the Go SSA with SMT (z3/cvc5); interleavings as symbolic order of the shared-memory accesses "
        "(read-from constraints solved by SMT) and as symbolic schedule choices under a preemption bound")
CNOTE = ("The lock/generator sources are instrumented on every run from /repo's tree (each access to shared memory becomes a scheduling "
         "point) and executed symbolically. In the Order entries the order of all accesses is a set of solver variables without a preemption "
         "bound; in the others every schedule within the preemption bound is a path. Sequentially consistent memory is assumed. "
         "Trusted: go/ssa, the instrumentation, the interpreter (cross-checked natively), z3/cvc5. Nothing is claimed outside the bounds.")
prop("C19", "Hash methods give the digest they name",
 "For every method (md5, sha1, sha256, sha512, crc32, crc64, fingerprint, none), hashing data in any number of pieces gives exactly the named digest of all of it: Sum appends to its argument and disturbs nothing, Size tells the truth, Reset starts over, objects do not influence each other, the string forms are that digest in hex (with the data length in ten digits where asked), and an unknown method is refused.",
 ["inputs", "histories"], "all data, all ways of cutting it into writes, all prefixes passed to Sum, all method numbers",
 "A wrong table entry, shared state or an overwritten prefix shows only for one method, for interleaved objects or for a prefix with spare capacity; no test exists.",
 ["hash/hash.go"], [("method table and string helpers", "hash/hash.go")])
prop("C20", "Fingerprints are faithful and none hashes unique",
 "A fingerprint is exactly the 48-bit size, md5, sha1 and crc64 of all the data written, follows the hash.Hash contract (Sum appends, does not change state; Size is the number of bytes; Reset starts over), shows the size set with Resetsize, and different objects never share state. The none hash ignores data and never gives the same number to two objects, whichever goroutines make them.",
 ["inputs", "histories", "schedules"], "all data and ways of cutting it into writes, all 64-bit sizes, all prefixes",
 "Contract slips (a stale size after Reset, a clobbered prefix) need a second use of the same object; no test exists.",
 ["hash/finger_print.go", "hash/none_hash.go"], [("composite digest", "hash/finger_print.go"), ("sequence numbers", "hash/none_hash.go")])
prop("C21", "Copying to several writers loses nothing and reports every failure",
 "Copying one reader to several writers gives every writer exactly the bytes of the reader in order and returns their number; a failing reader or a failing or short writer is reported, with every writer holding a prefix of the source and none receiving bytes after its own failure. Buffer size, chunking of the source and fast paths of reader and writer make no difference.",
 ["inputs", "fault_sequences"], "all sources and chunkings, all buffer sizes, every point of failure of reader or writer",
 "Fault points and chunk boundaries are the input; the suite has no test of it.",
 ["io/io.go"], [("read/write loop over all destinations", "io/io.go")])
prop("C22", "Ini files are read as written",
 "For every text, reading it as ini gives exactly the sections and keys the text defines: comments and blank lines ignored, blanks around names, keys and values trimmed, the last value of a key wins, keys belong to the section they follow, every section and key is listed once, and asking for what is not there gives the default. The way the reader delivers the text makes no difference, a reader that fails ends the text there, a file read by name is closed again, and one that cannot be opened or read is reported.",
 ["inputs", "fault_sequences"], "all texts (within the length bound), all line sequences, all chunkings and failure points of the reader",
 "Parser slips need particular characters next to each other; no test exists.",
 ["encoding/ini/ini.go"], [("line reader and section/key maps", "encoding/ini/ini.go")])
prop("C23", "Padding is reversible and touches nothing else",
 "Padding adds between one and blockSize bytes to reach a whole number of blocks, keeps the data in front, and unpadding gives exactly the data back (for zero padding: data not ending in zero bytes); the caller's memory, including spare capacity behind the slice, is never written.",
 ["inputs"], "all data, lengths, block sizes and spare capacities",
 "Whole-block lengths and spare capacity are the cases that break; no test exists.",
 ["crypto/padding.go"], [("PKCS5/PKCS7/zero padding", "crypto/padding.go")])
prop("C24", "AES encrypt and decrypt are inverse and honour the key",
 "Whatever key of 16, 24 or 32 bytes and message is given, the ciphertext is the CBC encryption of the padded message under that key and initial vector, chained over consecutive messages, decrypting it gives the message back, neither operation changes its input, separate objects and later changes of the caller's key do not interfere, and keys of other sizes are refused.",
 ["inputs", "histories"], "all keys, messages and sequences of messages on one object or two",
 "Chaining state, aliasing and key retention show only over several calls; no test exists.",
 ["crypto/aes/aes.go", "crypto/padding.go"], [("CBC encrypter/decrypter with PKCS padding", "crypto/aes/aes.go")],
 note=NOTE + " The AES block cipher itself is an uninterpreted permutation per key (every block cipher), the CBC mode is the standard library's code.")
prop("C25", "SpinLock gives mutual exclusion without getting stuck",
 "Whatever the interleaving of threads, at most one is between Lock and Unlock of a spin lock, no update made under the lock is lost, a waiting thread gets the lock once it is released however long it was held (short of the documented limit on attempts), and Unlock of a lock that nobody holds panics.",
 ["schedules", "histories"], "all interleavings of the threads at every access to shared memory; all call histories of one thread",
 "Violations need a switch between two particular instructions; no test exists and no test run can exhaust schedules.",
 ["sync/spinlock.go"], [("compare-and-swap loop", "sync/spinlock.go")], technique=CONC, note=CNOTE)
prop("C26", "RWSpinLock separates writers from readers and lets readers share",
 "Whatever the interleaving, a writer holding the lock is alone, readers hold it together, no update made under the write lock is lost, nobody waits for ever once the others leave, and releasing a lock not held in that mode panics.",
 ["schedules", "histories"], "all interleavings of readers and writers at every access to shared memory; all kinds of misuse",
 "Violations need a reader and a writer to pass each other at particular instructions; no test exists.",
 ["sync/spinrwlock.go", "sync/spinlock.go"], [("reader count with a writer bias on top of SpinLock", "sync/spinrwlock.go")], technique=CONC, note=CNOTE)
prop("C27", "Factories create by the name registered",
 "Whatever was registered and removed before, creating by a name uses the creater registered last under that name in that factory and passes the arguments on, creating by an unknown or removed name gives nothing (no panic), and factories do not see each other's names.",
 ["histories", "inputs"], "all histories of adding, removing and creating, all names, all arguments",
 "History quantifier; the only test of the package prints a type.",
 ["factory/factory.go", "factory/factoryi.go", "factory/factorys.go"], [("maps from name to creater", "factory/factoryi.go")])
prop("C28", "String/bytes views share memory exactly",
 "Viewing a byte slice as a string, a string as a byte slice, or either as a pointer gives exactly the same bytes at the same address and length without copying; the slice view has no capacity beyond the string, so that appending never writes behind it.",
 ["inputs"], "all contents and lengths, including empty, nil and sub-slices with spare capacity",
 "A wrong length or capacity field corrupts memory later and elsewhere; the test prints two values.",
 ["unsafe/string.go"], [("header reinterpretation", "unsafe/string.go")])
prop("C29", "Random numbers stay in range, repeat by seed and are never drawn twice",
 "For every seed and all bounds, a number drawn from a range lies in it (bounds in either order, the whole type's range included) and a number below max is below max; both ends of a range do come out; the sequence is a function of the seed alone, Srand returns the old seed and restarts the sequence, Seed continues it; no seed gets a generator stuck on a number or a short cycle, and different seeds give different numbers; and threads drawing concurrently from one generator get the numbers of its sequence, each exactly once, with a concurrent reseed taking effect at one moment.",
 ["inputs", "histories", "schedules"], "all seeds, bounds and draw/reseed histories; all interleavings of the threads within the preemption bound",
 "Overflow at the ends of the range and lost updates between threads; the package's test is empty.",
 ["math/rand/rand.gp_32.go", "math/rand/rand.gp_64.go", "math/rand/rand.gp"], [("lock-free linear congruential generator", "math/rand/rand.gp_64.go")],
 technique=CONC, note=CNOTE)
prop("C31", "Durations with days are formatted and converted faithfully",
 "A duration keeps its value through every conversion, its numbers of days, weeks, hours, minutes and seconds are the mathematical ones, its text counts whole days before what the standard library prints for the rest (negative and short durations print as the standard library prints them), and parsing a text gives what the standard library gives.",
 ["inputs"], "all durations (text: the ranges listed in the evidence)",
 "Days times nanoseconds overflow and rounding need large values; the existing test prints.",
 ["time/duration.go"], [("division into days and rest", "time/duration.go")])
prop("C32", "Triple-DES/ECB and the text codecs are inverse",
 "For every key and all data, encrypting gives the padded data encrypted block by block with encrypt-decrypt-encrypt under the expanded key, decrypting gives the data back, inputs are left alone and a partial block is refused; the text codec is base64 of that and decoding undoes encoding; what is no code decodes to nothing; hex text and bytes convert back and forth exactly and malformed hex is refused; the keyed hash is SHA-512 of five times key, data and key, in hex for text.",
 ["inputs"], "all keys, data and texts",
 "Key expansion, block boundaries and malformed input; the tests of the package do not build in this tree.",
 ["crypto/ecb/ecb.go", "crypto/rsa/code.go"], [("3DES key expansion and ECB loop", "crypto/ecb/ecb.go"), ("base64/hex codecs", "crypto/rsa/code.go")],
 note=NOTE + " The DES block cipher is an uninterpreted permutation per key.")
FSNOTE = " Package os and the file-reading part of path/filepath are replaced by an in-memory stand-in (verif/vos) in a copy of package fs; everything else of the package is executed as it is."
prop("C33", "Paths have one normal form and operations reach the path they name",
 "Every text gives the path object with the shortest slash-separated spelling of the same path, the same one however it was written; base, directory, extension, split and the list of all elements are those of that path and joining the elements gives it back; joining appends; a relative path leads from its root to the path, the roots being the working directory and src of the first directory GOPATH lists; a new name for a file is taken as it is when absolute and otherwise beside the file; patterns, prefixes, the absolute path and what is found there are those of that path; and every file operation performs exactly one system operation, on that path with the arguments given.",
 ["inputs"], "all texts of paths, elements and new names, all modes, owners, sizes and flags",
 "Dots, doubled slashes, the root and relative paths meet in all combinations; the tests of the package are for Windows and do not build here.",
 ["fs/file_path.go", "fs/file_line.go", "fs/fs.go"], [("path object", "fs/file_path.go"), ("functions on paths", "fs/file_line.go")],
 note=NOTE + FSNOTE)
prop("C34", "Directory listings hold exactly what was asked for",
 "For every directory tree and combination of options a listing holds exactly the files, directories or leaf directories asked for, each once, directly below or at any depth, by name or full path (what is no directory counts as a file, whatever it is, and symbolic links are not followed); a directory that has to be read and cannot be opened or listed is reported as an error; nothing is left open and nothing is changed. The statistic of a directory counts its directories, files and bytes and tells of what could not be read.",
 ["inputs", "fault_sequences"], "all trees, options and points of failure",
 "Nested and empty directories, option bits and failures below the root combine; no test exists.",
 ["fs/fs.go", "fs/file_path.go"], [("recursive listing", "fs/fs.go"), ("Statistic", "fs/file_path.go")],
 note=NOTE + FSNOTE)
prop("C35", "Hashes of files and directories are those of their contents",
 "The hash (or fingerprint) of a file is the digest of the salt and its whole contents, that of a directory the digest of the salt and the hashes of its entries in the order of their size and hash, so that it does not depend on the order in which the system lists them; sizes add up, the tree of nodes mirrors the directory with every path in it once, nothing is left open, and whatever cannot be opened, examined, listed or read is reported as an error.",
 ["inputs", "fault_sequences"], "all contents, trees, listing orders, salts, methods and points of failure",
 "Listing order and mid-file read errors do not occur in a test run; no test exists that builds.",
 ["fs/file_path.go", "fs/tree.gp_filehash38b3.go", "fs/sort_slice.gp_#filehashtreenodef199.go"], [("Fingerprint and Hash", "fs/file_path.go"), ("tree of hashes", "fs/tree.gp_filehash38b3.go")],
 note=NOTE + FSNOTE + " The digests themselves are uninterpreted functions.")
prop("C36", "The tree of file hashes is a faithful ordered tree",
 "The tree of file hashes keeps exactly the nodes added and not removed in their order, All and the visitor (forwards, backwards, changing direction anywhere) give every node once in depth-first order; its children sort by size and then hash; the slice it is made of is an indexable sequence whose operations do what their names say at every index; the comparison is a strict order, its functor, opposite and names agree with it.",
 ["histories", "inputs"], "all trees, walks, operation sequences, sizes and hashes",
 "Direction changes and index edges; no test of it builds here.",
 ["fs/tree.gp_filehash38b3.go", "fs/sort_slice.gp_#filehashtreenodef199.go", "fs/functorcmp.gp_#filehashtreenodef199.go", "fs/file_size.go"], [("tree and visitor", "fs/tree.gp_filehash38b3.go")],
 note=NOTE + FSNOTE)
prop("C37", "Backtraces name the calling functions and lines",
 "Bt, BtFunc, BtFileLine and package fs' FileLine, RelateFileLine and Func name the function, file and line that call them; Caller, CallerFunc, CallerFileLine and CallStackInfo name the frame asked for, or nothing when there is none; Bts and CallStackList list the function, file and line of every caller in order, innermost first, up to at least 50 frames. This holds for every chain of calls, whatever the compiler inlines and whatever follows the call. Assert panics exactly when its condition is false, with such a backtrace, and otherwise returns it.",
 ["inputs"], "all chains of calls and depths",
 "The one test looks at the name of the innermost frame; lines, outer frames and inlined frames are not looked at.",
 ["debug/backtrace.go", "debug/assert.go", "fs/file_line.go"], [("CallStackInfo, Bts, CallStackList", "debug/backtrace.go"), ("FileLine, Func", "fs/file_line.go")],
 note=NOTE + " The call stack is the interpreter's own: call sites get made-up program counters, a return address read with FuncForPC or FileLine means the line after the call (runtime documents it as inaccurate), and CallersFrames means the call. Counterexamples count only when the compiled program shows them, with its real tables and inlining.")
prop("C38", "Small conversions and type helpers are exact",
 "For every value: reflect.New gives a pointer to a new zero value of the sample's type, IsSameType and Kind depend on the types alone, and IsCmpableInnterType accepts exactly the predeclared integer, float and string types; true and false convert to 1 and 0 and every number but 0 to true; Equal holds for floats exactly when they are less than a millionth apart, and never for NaN; the parts of a complex number are its parts; a protocol integer keeps its 64 bits and gives the low 32, 16 or 8 of them as the type asked for; a function used as an event handler is called once with all arguments in order and its error is handed on.",
 ["inputs"], "all values of each of 22 types, all ints, floats and complex numbers",
 "Special floats and named types need quantification over all values; the tests look at two samples.",
 ["reflect/reflect.go", "math/bool.go", "math/float.go", "math/cplx/complex.go", "event/interface.go", "proto/integer.go"], [("type helpers", "reflect/reflect.go"), ("conversions", "math/bool.go")])
prop("C39", "File sizes are shown in the right unit to three decimals",
 "The text of a file size is the size in the largest of the units B, KB, MB, GB, TB, PB, EB (steps of 1024) that is not above it, with exactly three decimals, rounded to the nearest thousandth; the number itself is kept by N and Set.",
 ["inputs"], "all 64-bit sizes", "The boundaries between units and the roundings are single values among 2^64; no test looks at it.",
 ["fs/file_size.go"], [("FileSize.String", "fs/file_size.go")],
 note=NOTE + " The division by a power of two and the decimal text are encoded exactly in integers.")
prop("C40", "Random strings have the length asked for",
 "A random string has exactly the number of characters asked for, each of them a letter, a digit or one of the signs of the package, whatever the rule and whatever numbers the generator behind it gives; it never panics, it may be asked for from several goroutines at once, and a string given out earlier stays as it is.",
 ["inputs", "schedules"], "all states of the generator, all rules, lengths and interleavings of callers", "The generator gives one stream per seed; an index that is off by one shows up for a few of its states only.",
 ["strings/rand.go"], [("Rand", "strings/rand.go"), ("generator", "math/rand/rand.gp_32.go")],
 note=NOTE + " The state of the package's generator is a solver variable.")
prop("C41", "Registered errors have an id of their own that leads to their name",
 "Every registration of an error gives an id that was never given out before, also when several goroutines register at once, until the ids are used up, which is reported and changes nothing. An id leads to the name registered with it and to no other, its text and the text of errors made with it show its number, its name and the text given; the unknown and the standard error have ids and names of their own and a standard error keeps its text whatever characters it has. A number that was not given out is reported as no id. The list of all errors shows those registered at one moment, in order and as many as it counts.",
 ["histories", "schedules", "inputs"], "every history of registrations, every number as an id, all texts and all interleavings of goroutines",
 "Ids and names go apart for particular histories (order of initialisation, ids used up) and interleavings; there is no test.",
 ["errors/errors.go", "errors/with_id.go", "errors/with_id_string.go"], [("table of names under a lock", "errors/errors.go")])
prop("C42", "Registered values are found under their ids",
 "Whatever was registered and set before, in however many regers, a registration gives an id that was never given out before; the id, and the object got from it or from the registration, lead to the value set last under it and to the name registered, and back from the object to the id. A number that was not given out as an id is reported as invalid (an error, never a value of something else) and changes nothing. A reger takes exactly as many values as its maximum and refuses more, impossible maxima are refused; there may be 255 regers; after the end of registration nothing can be registered while values can still be read and set, and what was refused leaves no trace. Goroutines may read and set values at once without losing any.",
 ["histories", "schedules", "inputs"], "every history of registrations and settings, every 32-bit number as an id, every maximum, all interleavings of goroutines",
 "Index arithmetic between two id levels and counters breaks at the first, last and next id; there is no test.",
 ["regable/reg.go", "regable/regable.go", "regable/reg.gp"], [("id counters and lists", "regable/reg.go"), ("packing of ids", "regable/regable.go")])
prop("C43", "RSA sign/verify and encrypt/decrypt are inverse",
 "What a client encrypts with the public key the server with the private key of the pair decrypts to the same data, for every message that fits the key; longer ones are refused, another key, a changed or a cut ciphertext do not give the message. A signature of the server is verified by the client for its message, its hash method and its key, and for no other message, method, key or signature; the default method is sha512. What is no key of the kind asked for is refused with an error (MustNewClient and MustNewServer panic). Generated keys are a pair of the size asked for. Messages, ciphertexts and signatures passed in stay as they are and results are independent of each other.",
 ["inputs"], "all messages, all texts as keys, all changes of a signature", "Padding, sizes and key mix-ups show up for particular lengths and keys only.",
 ["crypto/rsa/rsa.go"], [("keys, encryption and signatures", "crypto/rsa/rsa.go")],
 note=NOTE + " crypto/rsa and crypto/x509 are replaced by models in the symbolic run (arbitrary ciphertexts only their key decrypts); counterexamples are replayed with the real ones.")
TN = NOTE + " Instances are made from the .gp templates of /repo on every run by an expander of the template language in engine/gogp.go (the gogp tool is not part of the repository)."
prop("C44", "Container templates give containers that keep the guarantees",
 "The templates of stl/gp (the .gp files as well as the .gp.go files they are made from), instantiated with the settings of stl/stl.gpg, give deques, queues, stacks, heaps, priority orders, lists, singly linked lists, trees, sorted slices and comparison functors that keep the guarantees of the shipped containers: order and content for every history, sizes and emptiness, sortedness and permutation, structure of lists and trees.",
 ["histories", "inputs"], "every history of operations and every element value",
 "The templates are not compiled by the build or exercised by a test at all; a template that is wrong for some history goes unnoticed until somebody generates from it.",
 ["stl/gp/deque.gp", "stl/gp/queue.gp", "stl/gp/stack.gp", "stl/gp/heap.gp", "stl/gp/list.gp", "stl/gp/slist.gp", "stl/gp/tree.gp", "stl/gp/sort_slice.gp", "stl/gp/functorcmp.gp", "stl/stl.gpg"],
 [("templates of the containers", "stl/gp/deque.gp"), ("settings of the instances", "stl/stl.gpg")], note=TN)
prop("C45", "Optional settings of the container templates keep the guarantees",
 "A singly linked list generated with a tail (GOGP_HasTail) is for every history of its operations the sequence the operations describe, and its Back is always its last node (none when empty): inserting, removing, moving, reversing, sorting, and joining lists keep it so, and a list pushed onto itself stays as it is. Containers generated with the order Greater sort downwards. Containers of elements with an order of their own (GOGP_HasCmpFunc) sort by that order: lists, singly linked lists with a tail, slices, heaps and trees keep every element and put them in order, lists keep equal elements in order. Heaps generated without GOGP_ImproveSTL are heaps all the same: making, pushing, popping and sorting, with and without a limit.",
 ["histories", "inputs"], "every history of operations, every element value, every setting",
 "No instance with these settings exists in the repository, so no test can reach this code; the tail goes wrong only after particular operations on the last node.",
 ["stl/gp/slist.gp", "stl/gp/list.gp", "stl/gp/sort_slice.gp", "stl/gp/heap.gp", "stl/gp/tree.gp", "stl/gp/functorcmp.gp"],
 [("tail of the singly linked list", "stl/gp/slist.gp"), ("order of the elements", "stl/gp/functorcmp.gp")], note=TN)
prop("C46", "Mapping and lock-free templates lose and invent nothing",
 "A generated mapping (regable/gp/mapping.gp) is one to one: a pair is taken exactly if neither its key nor its value is taken, keys lead to their values and values to their keys, removing by either removes the pair in both directions, clearing removes all. A generated lock-free list (stl/gp/lfqueue.gp) pops the value pushed last, and with several goroutines pushing, popping and clearing every value is popped at most once, none is lost, and the size is the number of values left. A generated lock-free ring (stl/gp/lfdeque.gp) is a double-ended queue of one element less than its places from any position, between one goroutine pushing at one end and one popping at either, several goroutines popping, and several pushing every value comes exactly once.",
 ["histories", "schedules", "inputs"], "every history, every interleaving of the goroutines, every key and value",
 "No instance exists in the repository; lost and doubled values need particular interleavings, and the ring particular positions.",
 ["regable/gp/mapping.gp", "stl/gp/lfqueue.gp", "stl/gp/lfdeque.gp"],
 [("two maps kept in step", "regable/gp/mapping.gp"), ("compare-and-swap of the head", "stl/gp/lfqueue.gp"), ("head and tail in one word", "stl/gp/lfdeque.gp")],
 note=TN + " Known finding: two goroutines that push at the same end of the ring can overwrite each other's value.")
prop("C47", "Generator and register templates keep the guarantees of their instances",
 "The templates math/rand/rand.gp and regable/reg.gp, instantiated with the settings of their .gpg files, give random number generators and registers that keep the guarantees of the shipped ones; the registers of every setting of reg.gpg (bool, constants, without names, texts, interfaces, 64 bits) give each value a new id that leads to the value set last and to its name where there is one, refuse numbers that were not given out and registrations after the end, and reverse bools without losing a reversal.",
 ["histories", "schedules", "inputs"], "every history, interleaving, seed, value and id",
 "Only one of eleven settings has an instance in the repository; nothing else of the template is compiled or tested.",
 ["math/rand/rand.gp", "math/rand/rand.gpg", "regable/reg.gp", "regable/reg.gpg"],
 [("template of the generators", "math/rand/rand.gp"), ("template of the registers", "regable/reg.gp")], note=TN)
prop("N03", "File locks exclude other processes",
 "A file lock is held by at most one process at a time.",
 ["schedules"], "all interleavings of processes", "Interprocess.",
 ["sync/filelock/mutex.go", "sync/filelock/rwmutex.go"], [("exclusive open of a file", "sync/filelock/mutex.go")],
 na="the package is Windows-only (syscall.Handle) and does not compile here; the exclusion is done by the operating system")
prop("N04", "Sequence generators never give a number twice",
 "A sequence gives the numbers of its range, each at most once, and reports when they are used up.",
 ["histories"], "all histories", "History quantifier.",
 ["math/seq/sequence64.go"], [("unfinished package", "math/seq/sequence64.go")],
 na="the package does not compile: it needs an AutoLock of a private vipally.gmail.com tree of which there is no counterpart here, and its recycling of numbers is empty, so there is no code to encode")
