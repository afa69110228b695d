HOOKS = {"guard": "verif (Go build tag)", "enable": "sim/build.sh builds with -tags verif; everything else is substituted at build time through go build -overlay", "source_commits": []}

NOTE = "Seeded search: every run is one schedule, workload and fault trace drawn from its seed and exactly repeatable; no claim beyond the runs made. Trusts the source rewriter (goroutines, channels, sync, time, os, net/http to the simulator), the in-memory file system and the reference model in sim/overlay/cmd/vsim."

prop("P01", "What is read back from the database is the block chain that was ingested",
 "After the three ingestion phases have finished without error, every block, transaction, input, output and address that the read-only database reports equals what the node served: counts, hashes, heights, parents, the source of every input, output values, times, sizes, weights, difficulty and median times. Looking up any stored hash gives its height (the earliest one for a repeated transaction), and a hash that was never stored is reported as absent.",
 ["inputs", "schedules", "configurations", "fault_sequences"],
 "for every chain a node can serve, either source format, either ingestion interface, every thread count, valid index parameters, memory grant and schedule, with up to two transient failures per block request",
 "the end-to-end tests need a live node and are skipped or fail offline; the unit tests use a 16-block toy chain on one goroutine",
 ["jobs/intrinsicparallel.go", "chainstorage/concreteappendablechain.go", "chainstorage/concretereadablechain.go", "chainstorage/concretehasheschain.go", "intrinsicobjects/binaryblock.go", "intrinsicobjects/jsonblock.go", "intrinsicobjectschi/chain.go", "intrinsicobjectscri/chain.go"],
 [("three-phase pipeline", "jobs/intrinsicparallel.go PhaseOneParallelIntrinsic, PhaseThreeParallelIntrinsic and the Chi variants"), ("appending a block", "chainstorage/concreteappendablechain.go AppendBlock, AppendBlockChi"), ("indexing hashes", "indexedhashes3/multipasspreloader.go, adaptivepasspreloader.go")],
 ["OpenReadOnly of the chain creator: IBlockChain, IHandleCreator, IParents, IPrivilegedFiles"], note=NOTE)

prop("P02", "The same chain gives the same database files whatever the run was like",
 "The files of the finished database are byte for byte the same for the same chain and index parameters, whichever source format, ingestion interface, indexing method, number of threads and memory grant were used, however the goroutines were scheduled, and whichever transient failures the node had.",
 ["schedules", "configurations", "fault_sequences"],
 "for every chain and index parameters, every pair of settings and every pair of schedules and sequences of transient node failures",
 "tests run one configuration with one schedule; a dependence on the schedule shows in a few runs out of many, if at all",
 ["jobs/intrinsicparallel.go", "concurrency/sequencercontainer.go", "corereader2/getparseblocksbinary.go", "intrinsicobjects/binaryblock.go", "intrinsicobjects/jsonblock.go", "intrinsicobjectschi/chain.go", "intrinsicobjectscri/chain.go", "chainstorage/concreteappendablechain.go", "indexedhashes3/adaptivepass.go", "indexedhashes3/singlepass.go"],
 [("parallel fetching, ordered appending", "jobs/intrinsicparallel.go"), ("inputs and outputs appended in parallel", "chainstorage/concreteappendablechain.go appendTransactionContents, appendTransactionContentsChi"), ("two ways of indexing", "indexedhashes3/multipasspreloader.go, adaptivepasspreloader.go")],
 ["every file under the database folder"], note=NOTE)

prop("P03", "A database appended block by block in any number of sessions equals its source",
 "Appending the blocks of a chain to a database, block by block, through either chain interface, from another database or any other implementation of the interface, whatever optional parts its handles specify (heights, places in blocks, hashes), with transaction indexing delegated or not and any selection of non-essential integers, with syncs, closings and reopenings in between, gives a database that reports the same blocks, transactions, inputs, outputs and addresses, and likewise for the chain of hashes it is indexed by; in between, the view of the growing database shows the transactions appended so far (but for the latest one) as they are, and the hashes count what was appended. A chain exists from its creation on, and creating one over it is refused. Reading a database opened read-only, from disk or memory, changes none of its files.",
 ["histories", "schedules", "configurations"],
 "for every chain without repeated transactions, every sequence of appends, syncs, closings, reopenings and reads, and every interleaving of the input and output appenders",
 "the tests that copied a small chain no longer compile; they used one session and one schedule",
 ["chainstorage/concreteappendablechain.go", "chainstorage/concretereadablechain.go", "chainstorage/concreteappendablechainfactory.go", "chainstorage/transaction.go", "chainstorage/block.go", "chainstorage/address.go", "chainstorage/handles.go"],
 [("appending through the read interface", "chainstorage/concreteappendablechain.go AppendBlock"), ("opening, closing, reopening", "chainstorage/concreteappendablechainfactory.go")],
 ["GetAsChainReadInterface of the growing chain", "OpenReadOnly of the copy", "files of the source"], note=NOTE)

prop("P04", "Sequenced items come out once each, in order, with a bounded pile",
 "Whatever order workers hand numbered items in, they come out unaltered, exactly once, in consecutive order from the first number on, and the output closes once all have come out. While every feeder waits at the gate before taking each item, the number held back stays within the pile limit plus what workers and buffers hold. A stream that is missing a number, or has a number before the expected start or a second time after its turn, is never passed off as complete.",
 ["schedules", "inputs", "fault_sequences"],
 "for every arrival order, number of items, starting number, pile limit, worker count, buffer size and consumer speed",
 "the repository has no test of the sequencer; in the pipeline the order of arrival is up to the Go scheduler and the network",
 ["concurrency/sequencercontainer.go"],
 [("ordering pile", "concurrency/sequencercontainer.go"), ("gate", "WaitForNotBloated")],
 ["the output channel handed to the sequencer"], note=NOTE)

prop("P05", "Every requested block is delivered once and intact by the parallel fetcher",
 "For every sequence of block hashes, each block comes out exactly once with its position and with the content the node served, as long as no request for it fails more than twice; failed requests are retried, every response body is closed, and no more requests run at once than there are threads. When a block can not be had within three tries the process stops loudly: the output never ends as if complete.",
 ["schedules", "inputs", "fault_sequences"],
 "for every sequence of blocks, JSON or binary, thread count, and sequence of refused connections, error statuses, cut or failing bodies, failing closes, foreign JSON bodies, stalls and slow reads",
 "the tests do not run the fetcher without a live node, and a real node does not fail on demand at a chosen point of a chosen request",
 ["corereader2/getparseblocksbinary.go", "intrinsicobjects/binaryblock.go", "intrinsicobjects/jsonblock.go", "intrinsicobjects/binarytransaction.go", "intrinsicobjects/jsontransaction.go"],
 [("retry loop and thread pool", "corereader2/getparseblocksbinary.go GetAndParseBlocks")],
 ["the output channel of GetAndParseBlocks", "the HTTP transport"], note=NOTE)

prop("P06", "The stream of block hashes is the chain's, in order, or ends with an error",
 "The stream gives the hashes of consecutive blocks from the first block on, each once, in order, and as many as asked for or as the node's headers determine; then it closes. It never gives a hash that is not the chain's. When a request for headers fails, is cut short or answers something else, the stream ends with an error unless everything asked for was already given.",
 ["inputs", "schedules", "fault_sequences"],
 "for every length of chain (in particular around multiples of the batch size), every number of hashes asked for, a chain that grows meanwhile, and every failure of a header request",
 "the one test needs a live node; the boundaries of a batch and failing requests are never visited",
 ["corereader2/blockhashes.go"],
 [("batches of headers", "corereader2/blockhashes.go StreamBlockHashesFromGenesis")],
 ["the channel handed to StreamBlockHashesFromGenesis and its returned error"], note=NOTE)

prop("P07", "A finished hash index finds every hash at its index and no other hash",
 "After the indexing of a list of hashes has finished without error, looking up any hash of the list gives its index (the earliest one where a hash is repeated), a hash that is not in the list is reported as absent, the hash at an index is the one of the list, and the count is the length of the list; before and after reopening, from memory or from disk, read-only or not. Both indexing methods, and the older lookup index, agree on this.",
 ["inputs", "schedules", "configurations"],
 "for every list of hashes (crowded bins, shared leading bytes, repetitions), every valid set of index parameters, every memory grant, several stores indexed in one process, and every interleaving of the indexing workers",
 "the tests index a few thousand uniformly random hashes with one set of parameters: overflowing bins, colliding sort numbers, uneven bin counts and several passes hardly occur",
 ["indexedhashes3/multipasspreloader.go", "indexedhashes3/singlepass.go", "indexedhashes3/adaptivepasspreloader.go", "indexedhashes3/adaptivepass.go", "indexedhashes3/binbytes.go", "indexedhashes3/binfiles.go", "indexedhashes3/hashstore.go", "indexedhashes3/hash.go", "indexedhashes3/params.go"],
 [("search within a bin", "indexedhashes3/binbytes.go findIndexBasedOnHash"), ("placing of hashes in bins", "indexedhashes3/singlepass.go, adaptivepass.go"), ("overflow files", "indexedhashes3/binfiles.go")],
 ["HashReader.IndexOfHash, GetHashAtIndex, CountHashes of the opened store"], note=NOTE)

prop("P08", "An indexing run that meets disk faults never passes off a wrong index as done",
 "If reading, writing, creating, syncing or closing any file fails while hashes are being indexed, or the disk is full, the run either still produces the correct index or stops with an error or a panic: it never hangs, and never reports success over an index that lacks a hash, gives a wrong index or cannot be opened. Afterwards, a run in a sound environment gives a correct index. A lookup in a finished index, on disk or held in memory, that meets a failing disk is right or reports an error.",
 ["fault_sequences", "schedules"],
 "for every place at which a file operation of the indexing can fail, alone or in combination, and every interleaving of its workers",
 "tests meet no failing disk; a failure inside one of several workers surfaces only in particular interleavings",
 ["indexedhashes3/multipasspreloader.go", "indexedhashes3/singlepass.go", "indexedhashes3/adaptivepasspreloader.go", "indexedhashes3/adaptivepass.go", "indexedhashes3/binfiles.go", "indexedhashes3/hashstorecreator.go"],
 [("error paths of the passes", "indexedhashes3/adaptivepass.go, singlepass.go"), ("parameters file", "indexedhashes3/params.go")],
 ["the error returned by IndexTheHashes, and the store it leaves"], note=NOTE)

prop("P09", "Hash stores that are appended to keep every hash, in order, and find it again",
 "A hash appended gets the next index; from then on it is found at that index (or, when it was appended more than once, at one of its indices), the hash at an index is the one appended there, hashes never appended are reported absent, and the count is the number of appends: immediately, through a read-only opening, and after closing and reopening. In all but the binned store an append that fails with an error loses none of the hashes appended before. A store created anew, also where one was, is empty.",
 ["histories", "inputs", "fault_sequences"],
 "for every sequence of appends, lookups, syncs and reopenings, every store kind (lookup, plain, binned, uniform, tier zero) and parameters, colliding and repeated hashes, and disk faults at any operation (torn writes of the lookup store excepted)",
 "the tests append a handful of hashes in one go; collisions that fill a chunk and failures between two writes are not met",
 ["indexedhashes/hashstore.go", "indexedhashes/basichashstore.go", "indexedhashes/memoryindexed.go", "indexedhashes/concretehashstorecreator.go", "indexedhashes/uniform.go", "indexedhashes3/hashstore.go", "weddingcake/tierzero.go", "wordfile/hashfile.go"],
 [("lookup and collision chunks", "indexedhashes/hashstore.go AppendHash, IndexOfHash"), ("bins", "indexedhashes3/hashstore.go AppendHash")],
 ["HashReadWriter and HashReader of the creators"], note=NOTE)

prop("P10", "Word, hash and byte files give back what was written, or an error",
 "A record of a word, hash or byte file reads back as last written, records left out in between read as zero, reading beyond the end is an error, and the count is one more than the highest record written: through buffers, memory shadows, memory maps, read-only openings and reopenings alike. When the disk fails an operation, the caller gets an error for it, or at the latest at Sync or Close, and records synced before and not written since keep their value.",
 ["histories", "configurations", "fault_sequences"],
 "for every sequence of appends, overwrites, gaps, reads, counts, syncs and reopenings, every record size, and failing, short or full-disk operations at any point",
 "the tests write a few records and read them back from an error-free disk",
 ["wordfile/wordfile.go", "wordfile/concretewordfilecreator.go", "wordfile/concretemmapcreator.go", "wordfile/hashfile.go", "memfile/appendoptimized.go"],
 [("buffered appends", "memfile/appendoptimized.go"), ("memory shadow", "wordfile/wordfile.go")],
 ["ReadWriteAtWordCounter, HashFile and AppendableLookupFile methods"], note=NOTE)

prop("P11", "The numbered array store keeps every list complete and in order",
 "Each list of the store holds exactly the values appended to it, in order: read back at once, after flushing, by a read-only user after Sync, and after reopening, however many lists there are, whatever their numbers and length, with and without the cache. When a disk operation fails the caller is told; a value whose append succeeded is not lost to a later flush or trimming of the cache, nor does one appear that was never appended, once a final Sync has succeeded. A store created anew, also where one was, is empty.",
 ["histories", "configurations", "fault_sequences"],
 "for every sequence of appends, reads, flushes, syncs and reopenings over any keys, element sizes, digits per file and folder, cache limits, and disk faults at any operation",
 "the tests append to a few keys with a cache far larger than the data, so nothing is ever evicted, and the disk never fails",
 ["intarrayarray/cachedintarraymapstore.go", "intarrayarray/intarraymapstore.go", "intarrayarray/intarrayarray.go", "intarrayarray/concretemapstorecreator.go", "numberedfolders/numberedfolders.go"],
 [("cache of arrays", "intarrayarray/cachedintarraymapstore.go"), ("files of arrays", "intarrayarray/intarraymapstore.go")],
 ["AppendToArray, GetArray, FlushFile, Sync"], note=NOTE)

prop("P12", "An ingestion that meets faults reports them: success means a correct database",
 "When the node or the disk fails in any way at any point of the three phases, the job either recovers and its database is correct, or it ends with an error or a panic. It never hangs, never reports success over missing or wrong data, and what an earlier phase reported done is complete. Starting again from the first phase in a sound environment gives a correct database; starting again from a later phase gives one too, or is refused.",
 ["fault_sequences", "schedules", "configurations"],
 "for every failure of a disk operation (errors, short reads and writes, full disk), every failure of a header or block request, in every phase and at every point of it, both source formats, both interfaces, both indexing methods, every thread count",
 "tests do not fail the disk or the node; most error paths are in goroutines whose failure must cross several channels",
 ["jobs/intrinsicparallel.go", "corereader2/getparseblocksbinary.go", "corereader2/blockhashes.go", "chainstorage/concretehasheschain.go", "chainstorage/concreteappendablechain.go", "chainstorage/concreteappendablechainfactory.go", "indexedhashes3/adaptivepass.go", "indexedhashes3/singlepass.go", "concurrency/sequencercontainer.go"],
 [("phases one to three", "jobs/intrinsicparallel.go"), ("creation of the chain", "chainstorage/concreteappendablechainfactory.go")],
 ["the error RunIntrinsic returns", "the database opened read-only"], note=NOTE)

prop("P13", "Records synced to disk survive the death of the process and a power failure",
 "Once Sync of a word, hash or append-optimised file has returned without error, every record written before it is on disk, whatever is written afterwards: when the process dies, or the machine loses power and any unsynced writes are lost, torn or reordered, those records still read as they were (unless overwritten since).",
 ["crash_points", "histories"],
 "for every sequence of writes, syncs and reopenings, every point at which the process or the machine stops, and every subset of unsynced writes that had reached the disk",
 "a test cannot cut the power; data in user buffers or the page cache looks the same as data on disk",
 ["memfile/appendoptimized.go", "wordfile/wordfile.go", "wordfile/hashfile.go"],
 [("Sync", "memfile/appendoptimized.go Sync, wordfile/wordfile.go Sync, wordfile/hashfile.go Sync")],
 ["the bytes of the file after the failure"], note=NOTE)

prop("P14", "An ingestion that was killed can be started again",
 "When the process is killed at any point of any phase, phases that had reported success remain complete, starting again from the first phase gives a correct database whatever was left on disk, and starting again from a later phase whose input is complete gives a correct one or is refused, never a wrong one. The same after a power failure when starting from the first phase.",
 ["crash_points", "schedules", "configurations"],
 "for every disk operation of the three phases at which the process is killed, under every interleaving, with the same or other settings on the second run",
 "a test cannot stop the process at each of its thousands of disk operations and start it again on what is left",
 ["jobs/intrinsicparallel.go", "chainstorage/concretehasheschainfactory.go", "chainstorage/concreteappendablechainfactory.go", "indexedhashes3/hashstorecreator.go", "indexedhashes3/adaptivepasspreloader.go", "indexedhashes3/multipasspreloader.go"],
 [("removal of earlier files", "jobs/intrinsicparallel.go RunIntrinsic"), ("initial files of an index", "indexedhashes3 createInitialFiles"), ("refusal of an existing chain", "chainstorage/concreteappendablechainfactory.go CreateFromHashStores")],
 ["the error of the second run", "the database opened read-only"], note=NOTE)

prop("P15", "The memory valve holds back while memory is short and releases every waiter",
 "A caller that waits for spare memory is let through only when the memory in use was seen to be below the limit, and nobody is held forever once memory has been freed and the freeing announced, however many are waiting.",
 ["schedules", "histories"],
 "for every interleaving of waiters, allocations, frees and announcements, any number of waiters, any limit",
 "the repository has no test of it; a lost wake-up needs a particular interleaving",
 ["memblocker/memblocker.go"],
 [("condition variable", "memblocker/memblocker.go WaitForSpareMemory, MemoryWasFreed")],
 ["return of WaitForSpareMemory", "IsThereFreeMemory"], note=NOTE)

prop("P16", "Every task given to the worker pool runs exactly once and reports its own result",
 "Each task sent to the pool is processed exactly once, is then given the result of its own processing, and is then finished, in that order; at most as many tasks run at once as there are workers, that many do run at once when they are there, and no worker outlives the closing of the input.",
 ["schedules", "inputs"],
 "for every number of workers, clients and tasks, any failures of tasks, and any interleaving",
 "the repository has no test of the pool",
 ["concurrency/workerpool.go"],
 [("worker loop", "concurrency/workerpool.go")],
 ["the task's own methods", "the number of live goroutines"], note=NOTE)

prop("P17", "A wedding cake finds every hash, however its tiers were baked into each other",
 "A hash appended to a wedding cake store gets the next index; from then on looking it up gives the earliest index it was appended at, the hash at an index is the one appended there, a hash never appended is reported as absent, and an index that is not there is an error: while tiers are baked into the tiers below, through any depth of tiers, after Sync, and after closing and reopening, read-only or not.",
 ["histories", "inputs", "configurations"],
 "for every sequence of appends, lookups, syncs and reopenings, hashes of any likeness (long common parts, few distinct bytes, repetitions), every number of reassurance bytes, and every point of filling of every tier",
 "the tests append 65,535 distinct random hashes a few times over and bake into the first tier; repeated, similar and lone hashes and the tiers beyond are not met",
 ["weddingcakefront/cake.go", "weddingcakeback/tiertop.go", "weddingcakeback/tierbelow.go", "weddingcakeback/tierbelowsource.go", "weddingcakeback/donutforestwrite.go", "weddingcakeback/donutforestread.go", "weddingcakeback/singletree.go", "weddingcakeback/bakingdesigner.go", "weddingcakeback/bakingdesign.go"],
 [("baking", "weddingcakeback/donutforestwrite.go Write"), ("lookup in a tier", "weddingcakeback/tierbelow.go TryIndexOfHash"), ("format groups of nodes", "weddingcakeback/bakingdesigner.go, donutforestread.go ExtractNode")],
 ["HashReadWriter and HashReader of NewCakeCreator"], note=NOTE + " The capacity of the top tier (65,535 hashes) is a constant of the source; the rewriter makes it adjustable, so that most runs reach the lower tiers with a few hundred hashes. The number of forests a tier takes comes from the store's own configuration. A few runs keep the real capacity.")

prop("P18", "A wedding cake whose disk fails says so and never gives a wrong answer",
 "When a disk operation of a wedding cake store fails, in an append, a baking, a sync, a lookup or an opening, the operation that met the failure reports an error or stops loudly, not one after it; operations that report success have done what they say, and as long as none has failed every hash is found at its index and no other is.",
 ["fault_sequences", "histories"],
 "for every disk operation at which an error, a short read or write or a full disk can come, under every sequence of appends, lookups, syncs and reopenings (nothing is claimed after the first reported failure)",
 "the tests meet no failing disk, and a baking does hundreds of operations",
 ["weddingcakefront/cake.go", "weddingcakeback/tiertop.go", "weddingcakeback/tiertopcreator.go", "weddingcakeback/tierbelow.go", "weddingcakeback/tierbelowsource.go", "weddingcakeback/donutforestwrite.go"],
 [("baking", "weddingcakeback/donutforestwrite.go Write"), ("opening of tiers", "weddingcakeback/tiertop.go NewTierTop, tierbelow.go Open")],
 ["errors of HashReadWriter and HashReader", "their answers until then"], note=NOTE)

prop("P19", "The uniform index finds every hash of its file, or its building fails loudly",
 "After the passes over a file of hashes have finished without error, looking up any hash of the file in the uniform store gives its index (the earliest one where it is repeated), a hash that is not in it is reported as absent, and the hash at an index and the count are the file's, however the memory was divided into passes and whatever was indexed there before; the store's own test agrees. If a disk operation fails meanwhile, the index is still correct or creating it ends with an error or a panic, and creating it again in a sound environment gives a correct one. A lookup in a finished index that meets a failing disk is right or reports an error.",
 ["inputs", "configurations", "fault_sequences"],
 "for every list of hashes (crowded bins, the ends of the key space, repetitions), every estimate of their number, every memory grant, and every place at which a file operation can fail",
 "the one test indexes 10,000 random hashes in a single pass, and meets no failing disk",
 ["indexedhashes/uniform.go", "indexedhashes/multipasspreloader.go", "numberedfolders/numberedfolders.go"],
 [("passes", "indexedhashes/multipasspreloader.go IndexTheHashes, ReadIn"), ("bins and overflow files", "indexedhashes/multipasspreloader.go dealWithOneHash, writeOverflowFiles; uniform.go IndexOfHash")],
 ["HashReader of the creator", "the error of IndexTheHashes"], note=NOTE)

prop("P20", "Chunks of hashes written to level files are all found again in them",
 "A chunk made from a set of distinct hashes finds each of them at the index it was presented with; a hash that is not in it is reported as absent or, where the reassurance bytes agree, taken for one that is there. After chunks have been appended to level files, reading these gives the same number of chunks, each answering as it did. When a disk operation fails, the appending or reading that met the failure reports an error or stops loudly, not one after it.",
 ["inputs", "configurations", "fault_sequences"],
 "for every number and size of chunks (the empty one included), hash length, likeness of the hashes, number of reassurance bytes and of formats a level, width of ids, and failing disk operation",
 "the tests write a single chunk of random hashes and read that back from a sound disk",
 ["weddingcake/chunk.go", "weddingcake/chunkfiles.go", "weddingcake/chunklevel.go", "weddingcake/shallowtree.go", "weddingcake/nodeformat.go", "weddingcake/treeshape.go"],
 [("format groups of nodes", "weddingcake/nodeformat.go DesignTreeFormat"), ("level files", "weddingcake/chunkfiles.go AppendChunk, ReadAndMmap")],
 ["Chunk.LookupHash", "the error of AppendChunk and ReadAndMmap"], note=NOTE)

prop("P21", "A copy onto a failing disk equals its source or reports an error",
 "When a disk operation fails, or the source chain reports an error, while the blocks of a chain are appended to a database (the hashes first, then everything else, through either chain interface), on the side that is read or on the side that is written, in an append, a sync, a closing or an opening, then appending, syncing or opening reports an error or stops loudly; it never hangs. A copy of which every append and the last Sync have reported success equals its source in everything that can be read back. A source database is never changed.",
 ["fault_sequences", "histories", "schedules", "configurations"],
 "for every disk operation of the copying at which an error, a short read or write or a full disk can come, every call to the source that can fail, either interface, every division into sessions, and every interleaving of the input and output appenders",
 "the tests copy from a sound source to a sound disk; a single block takes dozens of disk operations on some thirty files, and dozens of calls to the source, each of which can fail",
 ["chainstorage/concreteappendablechain.go", "chainstorage/concretehasheschain.go", "chainstorage/concreteappendablechainfactory.go", "chainstorage/concretereadablechain.go", "chainstorage/transaction.go", "chainstorage/block.go", "wordfile/wordfile.go"],
 [("appending through the read interface", "chainstorage/concreteappendablechain.go AppendBlock, appendTransactionContents"), ("appending through the handle interface", "chainstorage/concreteappendablechain.go AppendBlockChi, appendTransactionContentsChi"), ("appending the hashes", "chainstorage/concretehasheschain.go AppendHashesCri, AppendHashesChi"), ("syncing every file", "chainstorage/concreteappendablechain.go Sync")],
 ["errors of IAppendableChain and IAppendableHashesChain", "OpenReadOnly of the copy", "files of the source"], note=NOTE)

prop("P22", "A reader of a finished database is never given a wrong answer by a bad disk",
 "When a disk operation fails while a finished database is opened read-only or read, from memory or from disk, the call concerned reports an error or stops loudly; every answer that is given without an error is right. Once the disk works again, the same readers give right answers to everything.",
 ["fault_sequences", "configurations"],
 "for every disk operation of opening and reading at which an error or a short read can come, files in memory, mapped or on disk",
 "the tests read from a sound disk",
 ["chainstorage/concretereadablechain.go", "chainstorage/concreteappendablechainfactory.go", "chainstorage/transaction.go", "chainstorage/block.go", "chainstorage/address.go", "indexedhashes3/hashstore.go", "indexedhashes3/binfiles.go", "intarrayarray/intarraymapstore.go", "wordfile/concretemmapcreator.go"],
 [("opening every file", "chainstorage/concreteappendablechainfactory.go openReadOnlyPrivate"), ("errors on the way up", "chainstorage/transaction.go, block.go, address.go")],
 ["OpenReadOnly: IBlockChain, IHandleCreator, IParents, IPrivilegedFiles"], note=NOTE)

prop("P23", "Work that has ended well leaves no file open and no goroutine behind",
 "When an ingestion phase, the indexing of hashes or a fetch of blocks or headers has ended without error, and when everything opened to append to or read a hash store, a file, a multimap, a wedding cake, chunks or an appended chain has been closed (or synced, where there is no closing), then no file it opened is still open, every answer of the node has been closed, and no goroutine it started is left: also after failed and repeated requests, and for every setting.",
 ["inputs", "schedules", "configurations", "histories", "fault_sequences"],
 "for every chain, setting, sequence of operations and schedule, with up to two transient failures of the node per request",
 "nothing in the tests looks at what is left; a handle or goroutine lost per block, pass or retried request only shows as exhaustion in a long run",
 ["jobs/intrinsicparallel.go", "chainstorage/concreteappendablechain.go", "chainstorage/concretehasheschain.go", "chainstorage/concreteappendablechainfactory.go", "corereader2/getparseblocksbinary.go", "indexedhashes3/adaptivepasspreloader.go", "indexedhashes3/multipasspreloader.go", "indexedhashes3/hashstore.go", "indexedhashes/uniform.go", "weddingcake/chunkfiles.go", "wordfile/wordfile.go", "memfile/appendoptimized.go"],
 [("closing every file of a chain", "chainstorage/concreteappendablechain.go Close"), ("ending of workers", "corereader2, concurrency, jobs/intrinsicparallel.go"), ("closing of index files", "indexedhashes3/multipasspreloader.go, adaptivepasspreloader.go IndexTheHashes")],
 ["open files of the process", "open HTTP response bodies", "goroutines of the process"], note=NOTE)

prop("P24", "Stores and jobs change nothing but their own files; reading changes nothing",
 "Whatever a database, hash store, index, file, multimap, wedding cake or set of chunks is put through - created, created anew, appended to, indexed, baked, synced, closed, opened, read, killed, or any of these on a failing disk - nothing is created, changed or removed but below its own folder or, where it has none, under its own name: stores, databases and files beside it stay as they are, also where their names begin alike. Indexing leaves the list of hashes that is indexed as it is, as well as the other stores of the database, and the third phase leaves the hash stores. Whatever is opened read-only changes nothing on the disk.",
 ["inputs", "configurations", "histories", "schedules", "fault_sequences"],
 "for every chain, setting, sequence of operations, schedule and failing disk operation of the scenarios of P01-P03, P07-P12, P14 and P17-P20",
 "the tests work alone in their folders and look at nothing beside what they made; a recursive removal or a rewritten input would destroy the work of months",
 ["jobs/intrinsicparallel.go", "chainstorage/concreteappendablechainfactory.go", "chainstorage/concretehasheschainfactory.go", "intarrayarray/concretemapstorecreator.go", "indexedhashes3/hashstorecreator.go", "indexedhashes3/multipasspreloader.go", "indexedhashes3/adaptivepasspreloader.go", "indexedhashes/uniform.go", "indexedhashes/concretehashstorecreator.go", "weddingcakeback/tierbelowsource.go", "weddingcakeback/tiertopcreator.go", "weddingcake/chunkfiles.go", "wordfile/concretewordfilecreator.go"],
 [("removal of what was there before", "jobs/intrinsicparallel.go RunIntrinsic; intarrayarray/concretemapstorecreator.go CreateMap; indexedhashes/uniform.go CreateHashStore; weddingcakeback/tierbelowsource.go"), ("names of files", "the creators of each package"), ("read-only opening", "OpenHashStoreReadOnly, OpenMapReadOnly, OpenWordFileReadOnly, OpenReadOnly")],
 ["every change the process makes to the simulated disk", "content of the files beside"], note=NOTE)

prop("P25", "What a chain or hash store has synced survives a power failure",
 "Once Sync of a chain of hashes, of an appendable chain or of a hash store (lookup, plain, memory-indexed, tier zero, wedding cake) has returned without error, every hash appended before it is on disk, in order, and so is every record of the chain's own files of numbers (firsts, sources, values, addresses, spends, parents, extra integers): when the process dies or the machine loses power afterwards, they read as they were, whatever more was appended or baked meanwhile. Lookup tables and the multimaps of an address's further outputs are not forced to the disk by Sync, and nothing is claimed of them.",
 ["crash_points", "histories", "configurations"],
 "for every chain, interface, set of extra integers, sequence of appends, syncs, bakings and reopenings, and every subset of unsynced writes that had reached the disk when the power failed",
 "a test cannot cut the power: a Sync that forgets one file of sixteen, or a baking that removes synced hashes before their copy is on disk, looks no different to it",
 ["chainstorage/concreteappendablechain.go", "chainstorage/concretehasheschain.go", "indexedhashes/hashstore.go", "indexedhashes/basichashstore.go", "indexedhashes/memoryindexed.go", "weddingcake/tierzero.go", "weddingcakeback/tiertop.go", "weddingcakeback/tierbelowsource.go", "weddingcakeback/donutforestwrite.go", "weddingcakeback/tiertopcreator.go", "weddingcakefront/cake.go"],
 [("Sync", "Sync of concreteAppendableChain, concreteHashesChain, HashStore, BasicHashStore, MemoryIndexedHashes, TierZero, TierTop"), ("baking", "weddingcakeback/donutforestwrite.go Write; AppendHashesFile, MakeEmptyAfterBaking")],
 ["files after the failure, and the store or chain opened read-only on them"], note=NOTE)

NOT_APPLICABLE = [
 dict(id="N01", title="A serialised hash tree finds every hash it was made from",
  statement="A tree of package indexedhashestree made from a set of hashes, and its serialised forms, find each hash at its index.",
  quantifier={"over": ["inputs"], "text": "for every set of hashes"},
  why_tests_cant="the tests use random hashes of a few counts",
  anchors={"files": ["indexedhashestree/shallowtree.go", "indexedhashestree/multiplefixednodesize.go"], "mechanism": [{"name": "serialising", "where": "indexedhashestree/multiplefixednodesize.go"}], "observe_at": ["LookupHash"], "hook_needed": None},
  reason="a pure function in memory: no concurrency, time, I/O, failure or second party that a simulator could decide; only its input varies. The package is used by nothing; its successors weddingcake and weddingcakeback do I/O and are covered by P17, P18 and P20."),
 dict(id="N02", title="The toy chain reports its sixteen blocks",
  statement="The in-memory chain of package tinychain reports the same constant blocks, transactions and amounts through every interface.",
  quantifier={"over": ["inputs"], "text": "for every handle into the constant chain"},
  why_tests_cant="they nearly do: the chain is a constant",
  anchors={"files": ["tinychain/blockchain.go"], "mechanism": [{"name": "constants", "where": "tinychain/instances.go"}], "observe_at": ["IBlockChain"], "hook_needed": None},
  reason="constants in memory: nothing varies that a simulator could control."),
 dict(id="N03", title="Entities reflect the chain they were made from",
  statement="The generic entities of package chainreadentities give the fields of the blocks, transactions, inputs and outputs behind them.",
  quantifier={"over": ["inputs"], "text": "for every entity"},
  why_tests_cant="there are none",
  anchors={"files": ["chainreadentities/chainreadentities.go"], "mechanism": [{"name": "field access", "where": "chainreadentities/chainreadentities.go"}], "observe_at": ["IEntity"], "hook_needed": None},
  reason="the package does not compile at the pinned commit (nor does main.go), so there is nothing to simulate."),
]
