#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Looking up a blot returns exactly the documents that have it",
  "After documents are added to a new index and it is closed, looking up any blot in the opened index returns exactly the documents whose text has that blot: each once, in the order they were added, and no others. A text has one blot for every word that comes after at least SeqLen other words (the fingerprint of the SeqLen words ending there, reduced modulo the number of blots); texts that are shorter, empty or not valid UTF-8 have none and do not disturb other documents. This holds for every number of documents, shards, workers, window length and interleaving.",
  ["inputs", "configurations"], "all document sets, texts, shard counts, worker counts, window lengths and interleavings",
  "The only end-to-end test indexes two one-line documents and looks up one document id; no test ever runs a blot lookup, fills a posting chunk or uses more than one configuration.",
  ["shatter.go", "indexer.go", "query.go", "index.go", "internal/shard/indexer.go", "internal/shard/poster.go", "internal/shard/posts.go", "token/t.go", "blotter/circ.go"],
  [("window gate and shard split", "shatter.go do/blot"), ("shard routing on lookup", "query.go Get"), ("duplicate suppression and delta encoding", "internal/shard/poster.go AddPost"), ("chunk decoding", "internal/shard/posts.go readNext")],
  [("posting list", "per (shard, blot) chain of delta-encoded document ids", "internal/shard/poster.go"), ("iix", "head, count and last id per blot", "internal/shard/indexer.go flushIix")],
  ["Query.Get after OpenIndex"])
p("C02", "Indexing in several sessions equals indexing in one",
  "Adding documents over any number of sessions (create, close, reopen for appending, close, ...), including sessions that add nothing, gives an index that answers every lookup, extraction, document record and statistic exactly as one built from the same documents in a single session. This holds wherever the session boundaries fall, in particular relative to flushes of posting chunks and of document records.",
  ["histories", "configurations"], "all sequences of add / reopen up to a depth, for every flush rate and shard count in the alphabet",
  "No test reopens an index for appending; the only reopen in the test suite is the document record file with one extra record.",
  ["indexer.go", "internal/shard/indexer.go", "internal/shard/poster.go", "dmd/adder.go", "fnames.go"],
  [("reload of head, count, last id", "internal/shard/poster.go initAppend"), ("walk to the tail link", "internal/shard/poster.go readToLink"), ("next document id from file size", "dmd/adder.go NewAdder"), ("reload of the path table", "indexer.go readfiles")],
  [("tail link", "where the next chunk's offset is patched in", "internal/shard/poster.go link")], ["OpenIndexer/Add/Close, then OpenIndex"])
p("C03", "Indexing gives the same index under every schedule and always ends",
  "However the goroutines of the indexing pipeline (the caller, the shatter workers, the shard servers and the senders between them) are scheduled, every Add and Close returns, and the closed index holds exactly what processing the documents one by one would have produced. No document's posts are lost, duplicated, mixed with another document's or stored out of document order, and no two goroutines access the same memory without synchronization.",
  ["schedules"], "all interleavings of 1-3 workers, 1-2 shards and 1-4 documents at synchronization operations (complete up to partial-order equivalence for small instances, up to a preemption bound for larger ones)",
  "The tests run one uncontrolled schedule with two documents and never look at the posts it produced.",
  ["shatter.go", "indexer.go", "internal/shard/indexer.go"],
  [("monotonic document turn-taking", "shatter.go mono/send"), ("send and acknowledge on the shard channel", "shatter.go send, internal/shard/indexer.go Serve"), ("shutdown hand-shake", "indexer.go Close")],
  [("mono.docid", "id of the last document handed to all shards", "shatter.go"), ("shard channel", "unbuffered, used for posts and for their acknowledgement", "internal/shard/indexer.go")],
  ["Indexer.Add, Indexer.Close, then OpenIndex and lookups"])
p("C04", "Queries running at the same time do not affect each other",
  "Any number of goroutines may use one open index at the same time, each with its own query (lookups, extraction, blotting documents, locating blots in documents, statistics): each of them gets the results it would have got alone, under every interleaving. No two of them access the same memory without synchronization.",
  ["schedules"], "all interleavings, at every file operation, of 2-3 goroutines running 1-3 query operations each on one open index",
  "No test queries an index at all, let alone from two goroutines.",
  ["query.go", "index.go", "dmd/t.go", "internal/shard/index.go", "internal/shard/posts.go"],
  [("positioned reads of the posting file", "internal/shard/posts.go readVarintAt/readNext"), ("document record lookup", "dmd/t.go Lookup"), ("per-query state", "query.go qstate")],
  [("shared file descriptors", "one per shard plus one for document records", "internal/shard/index.go, dmd/t.go")], ["Query.Get, Query.Next, Index.BlotDoc, Index.FindBlot(s), Index.Stats"])
p("C34", "Indexes open in one process do not disturb each other",
  "When one process works with several indexes, one after the other, by turns or at the same time from several goroutines, then every call on one of them (creating, opening, adding, closing, looking up, extracting, statistics, removing) has the effect and the answer it would have if the process used no other index. No such use of different indexes is a data race.",
  ["histories", "schedules"], "all orders of the steps of two or three users (writers, appenders, readers, removers), each of an index of its own with a configuration of its own; all schedules of users working at the same time, up to a preemption bound or partial-order equivalence",
  "Tests use one index at a time.",
  ["index.go", "indexer.go", "query.go", "shatter.go", "internal/shard/indexer.go", "internal/shard/poster.go", "dmd/adder.go", "fnames.go"],
  [("no state outside of the handles", "index.go, indexer.go, query.go"), ("one pipeline per indexer", "indexer.go CreateIndexer")], (), ["CreateIndexer, OpenIndexer, Add, Close, OpenIndex, Query.Get, Query.Next, Stats, Remove on several roots"])
p("C05", "Extraction lists every shared blot once, with all its documents, and ends",
  "Iterating an extraction query to the end with no limit on documents yields every blot that occurs in at least two documents exactly once, with all its documents in index order, and yields no blot that occurs in fewer. This holds for every index content, number of shards and batch size, and mixture of batch sizes; the end is reported by io.EOF with zero results after finitely many calls, and asking again reports the end again.",
  ["inputs", "configurations", "histories"], "all document/blot incidence relations of a small size placed on every shard layout, and all batch-size sequences",
  "No test starts an extraction.",
  ["query.go", "internal/shard/index.go", "internal/shard/read_state.go"],
  [("choice of the next shard", "query.go setMax"), ("advance to the next blot of a shard", "query.go advance"), ("end detection", "query.go Next nilCount"), ("blot order", "internal/shard/index.go readIix perm")],
  [("shardStates", "read position per shard, nil when exhausted", "query.go qstate")], ["Query.Next"])
p("C06", "Extraction goes from the most shared blots to the least shared",
  "Extraction yields blots in non-increasing order of the number of documents that have them, across all shards, whatever the batch size. Stopping at the first blot with fewer than N documents therefore misses no blot with N or more.",
  ["inputs", "configurations"], "all document/blot incidence relations of a small size on every shard layout; count profiles with ties",
  "No test starts an extraction; the ordering spans a per-shard sort and a cross-shard selection.",
  ["query.go", "internal/shard/index.go"],
  [("per-shard sort by count", "internal/shard/index.go readIix"), ("cross-shard maximum", "query.go setMax")], (), ["Query.Next"])
p("C07", "Limits on returned documents are respected and lose nothing within them",
  "When the caller bounds the documents of a result by the capacity of the slice it supplies, a lookup appends the blot's documents in order until they or the room run out, and leaves what was in the slice before. An extraction whose results have room for two or more documents each still yields every blot with at least two documents, the first time with its first documents up to the room, never exceeds the room, never reports a document twice for a blot, and ends. Each returned record describes only that document, whatever the slice's spare capacity held before.",
  ["inputs", "configurations"], "all blot counts 0..6 against all capacities and prefill lengths, for lookup and for extraction with all batch sizes, on 1-3 shards",
  "No test uses a bounded result; bounded extraction interacts with the end-of-list detection of each shard.",
  ["query.go", "blot.go"],
  [("room check", "query.go Get/fillBlot"), ("slot reuse", "blot.go Next"), ("skip of blots with at most one document", "query.go Next")], (), ["Query.Get, Query.Next with non-nil Docs"])
p("C08", "Tokenizing splits the text completely and exactly at word boundaries",
  "For valid UTF-8 text the tokens, in order, cover the whole text without gap or overlap: each token's text is the bytes at its position, and positions count bytes from the given offset. Word tokens are exactly the maximal runs of Unicode letters and digits, everything between them is one non-word token; text that is not valid UTF-8 gives no tokens. Tokens already in the destination are kept, and the text is not modified.",
  ["inputs"], "all strings up to a length over an alphabet with one representative of every class of rune and byte the code can distinguish, and every single rune in every context",
  "The one tokenizer test prints its result and asserts nothing.",
  ["token/t.go"], [("single pass over runes", "token/t.go Tokenize")], (), ["token.Tokenize"])
p("C09", "A blot depends only on the window of words it stands for",
  "The fingerprint produced for a word is a function of the window of words that ends there alone: the last k words, or with interleaving n the last k/n words at distance n. It does not depend on anything blotted earlier, on the order of the words in the window or on letter case, it is the XOR of the 32-bit FNV-1 hashes of the lower-cased words, and the words are not modified. The blotter reports the configuration it was made from, and configurations with an interleaving below one are refused.",
  ["inputs", "histories", "configurations"], "all word sequences up to a length over a small vocabulary with case variants, for all window lengths and interleavings in the alphabet, after every history",
  "The tests feed seven words to one blotter and compare two of the values.",
  ["blotter/circ.go", "blotter/interleaved.go", "blotter/config.go"],
  [("ring of word hashes", "blotter/circ.go Blot"), ("round-robin over rings", "blotter/interleaved.go Blot")], [("ring position and running XOR", "carried across documents by a worker", "blotter/circ.go Circ")], ["blotter.FromConfig(...).Blot"])
p("C10", "Blotting a text for a query agrees with how it was indexed",
  "The blots computed for a text at query time, reduced modulo the number of blots of the index, are exactly the blots under which the same text, once indexed, can be looked up: an indexed document is found under each of its own blots and under no other. Splitting a blot into shard and shard-local value and joining them again are inverse to each other for every blot and every number of shards, and agree with where the index stores it.",
  ["inputs", "configurations"], "all texts up to a length over a word alphabet, for every window length, interleaving and shard count in the alphabet; all blots for every shard count for split/join",
  "No test blots a document through the index or splits a blot.",
  ["index.go", "shatter.go", "query.go"],
  [("query-side blotting", "index.go BlotDoc"), ("index-side blotting", "shatter.go do/blot"), ("split and join", "index.go SplitBlot/JoinBlot")], (), ["Index.BlotDoc, Index.SplitBlot, Index.JoinBlot, Query.Get"])
p("C11", "Every document is reported with the path and extent it was added with",
  "Each document found by a lookup or extraction carries the absolute form of the path it was added with and exactly the start and end it was added with, for every document, however many were added, in how many sessions, and whatever the document flush rate. Document record numbers are assigned consecutively from one, also across sessions.",
  ["inputs", "histories", "configurations"], "all sequences of add / flush / reopen up to a depth for flush rates 1-5, extents at the 32-bit limits, path sets with shared prefixes",
  "One test stores four records with the default flush rate, so the flush path and its boundary are never executed.",
  ["dmd/adder.go", "dmd/t.go", "dmd/fields.go", "indexer.go", "index.go"],
  [("buffering and flush", "dmd/adder.go Add/flush"), ("fixed-size records", "dmd/t.go Lookup"), ("document id to record", "index.go docid2Doc")],
  [("flushed", "records already on disk", "dmd/adder.go Adder")], ["dmd.Adder, dmd.T.Lookup, Query.Get records"])
p("C12", "Stored paths come back unchanged and are never confused",
  "A path added to the index is returned as the absolute, cleaned form of itself, before and after the index is written and read back and after more paths are added in later sessions. Two paths share an entry exactly if their absolute forms are equal, whatever directories, names or prefixes they share and however long or unusual the names are.",
  ["inputs", "histories"], "all sets and orders of paths up to a size over a component alphabet with prefixes, repeated names, long and non-ASCII names, at every position of a write/read-back",
  "One test stores four short paths.",
  ["fnames.go", "indexer.go"],
  [("path tree", "fnames.go addPath"), ("rebuilding a path", "fnames.go abs"), ("serialized form", "fnames.go write/breadFnames")], [("children maps", "rebuilt when the table is read", "fnames.go breadFnames")], ["path of documents returned by queries, Stats.NumPaths"])
p("C13", "Blots are located in documents at exactly the text they stand for",
  "Locating a blot in a document returns the byte range, in the coordinates of the document's file, of the first window of words having that blot together with the word before it, or an error if there is none. Matching a document against expected texts returns exactly those blots for which a window of the document has both the blot and the expected text. Both work for documents that start anywhere in a file.",
  ["inputs", "configurations"], "all short word sequences over a small vocabulary and separators, at several start offsets, for several window lengths, interleavings and shard counts",
  "No test calls either function.",
  ["index.go", "doc.go"], [("scan for a blot", "index.go FindBlot"), ("scan for expected texts", "index.go FindBlots")], (), ["Index.FindBlot, Index.FindBlots"])
p("C14", "Index statistics match the contents",
  "The statistics of an open index equal the true figures of its contents: the number of documents added, the number of nodes of the path tree, the number of posts (document/blot pairs), the number of blots, and the mean and standard deviation of documents per blot.",
  ["inputs", "histories", "configurations"], "all small document/blot incidence relations, path sets, shard counts and session splits",
  "No test reads statistics.",
  ["index.go", "stats.go", "dmd/t.go", "internal/shard/index.go"], [("aggregation", "index.go Stats"), ("record count", "dmd/t.go NumDocs"), ("per-shard sums", "internal/shard/index.go NumPosts/SosDiffs")], (), ["Index.Stats"])
p("C15", "Configurations are validated, honoured and persist unchanged",
  "A configuration is accepted exactly if an index with it can work: at least one shard and worker, positive window length and flush rate, and a window length that is the product of interleaving and per-stream length; otherwise creating an index or reading the configuration returns an error and never hangs or panics. An accepted configuration is stored and read back identically, also when it replaces a longer one, and the index uses the shard count and window length asked for.",
  ["configurations", "inputs", "histories"], "all combinations of small, zero, negative and large values of every numeric field, and all ordered pairs of configurations for rewriting",
  "The tests use a single configuration, the default one.",
  ["config.go", "indexer.go", "blotter/config.go", "token/config.go"], [("consistency check", "config.go check"), ("write", "config.go Write"), ("read", "config.go ReadConfig")], (), ["NewConfig, IndexerFromConfig, CreateIndexer, ReadConfig, Config.Write, Index.SeqLen/NumShards"])
p("C16", "A writer has the index to itself; readers share it",
  "While an index is open for indexing, whether new or for appending, nobody else has it open, for reading or for indexing; any number of readers can have it open together. Whoever has to wait proceeds once the conflicting holders have closed, closing gives the lock up completely, and under every interleaving of such sessions each reader sees exactly the documents of the writing sessions that completed before it.",
  ["schedules", "histories"], "all interleavings of 2-3 sessions (create, append, read) at lock, open and file-system operations, and all lock operation sequences up to a depth",
  "The lock test creates and closes one lock; no test has two sessions.",
  ["lock/file.go", "lock/unix.go", "indexer.go", "index.go"], [("flock", "lock/unix.go"), ("locking order in open", "indexer.go openFromConfig, index.go OpenIndex")], [("lock file", "<root>.lock", "config.go LockPath")], ["CreateIndexer, OpenIndexer, OpenIndex, Close, lock.File"])
p("C17", "A failed open or create returns an error and leaves nothing held",
  "Creating an index where one exists, opening one that is missing, that lacks one of its files, whose configuration, path table or blot table is truncated or unreadable or names an unknown tokenizer, or creating or opening with a refused configuration returns an error and has no lasting effect: existing files keep their contents, no lock stays held, and the same or another process can at once create, open or remove an index at that place.",
  ["histories", "fault_sequences"], "all sequences up to a depth of failing and succeeding create/open/close/remove operations, with every single damage of the alphabet",
  "No test exercises a failing open.",
  ["indexer.go", "index.go", "lock/file.go"], [("error paths after taking the lock", "indexer.go IndexerFromConfig/openFromConfig, index.go OpenIndex")], (), ["error results of CreateIndexer, IndexerFromConfig, OpenIndexer, OpenIndex, then any further operation"])
p("C18", "An index is the directory named, however it is named",
  "Opening an index for reading or appending works on the index stored in the named directory and no other: a relative path, a trailing slash, dot components or a change of working directory between sessions name the same index and take the same lock, and an index directory that was renamed or copied is used where it is now.",
  ["histories", "inputs"], "all pairs of spellings for creating/locking and opening/appending, with rename, copy and directory change between sessions",
  "Tests open each index by the spelling it was created with, from the same directory, exactly once.",
  ["config.go", "indexer.go", "index.go"], [("root recorded in the configuration", "config.go ReadConfigFromRoot"), ("lock path", "config.go LockPath")], (), ["OpenIndex, OpenIndexer, Root, results of lookups"])
p("C19", "Posting lists store any increasing id sequence exactly",
  "For every blot of a shard, the document ids read back are exactly the strictly increasing ids posted to it, whatever their gaps (up to the largest 32-bit id), however many there are, however the posts of different blots were interleaved, and however often the shard was closed and reopened in between. A repeated post of the same id is stored once, and the count of each blot is the number of ids stored.",
  ["inputs", "histories"], "for each of many gap patterns covering every encoded size, every list length from 0 past several chunk boundaries, with reopen points at every position of a session split alphabet",
  "One test writes a single random list of 1311 ids once, without reopening.",
  ["internal/shard/poster.go", "internal/shard/posts.go", "internal/shard/indexer.go", "internal/shard/index.go", "post/t.go"],
  [("delta encoding, chunk flush, link patching", "internal/shard/poster.go AddPost/flushTo"), ("chain decoding", "internal/shard/posts.go readNext"), ("packing of id and blot", "post/t.go")],
  [("chunk", "length, deltas, link to the next chunk", "internal/shard/poster.go flushTo")], ["shard.Indexer fed through its channel, shard.Index read states"])
p("C20", "If indexing reports success after I/O failures, nothing was lost",
  "If an open, read, write, seek, stat or mkdir fails at any point of creating, filling, closing or reopening an index, then either one of the calls of that session (create, open, add, close) returns an error, or the resulting index is complete and exact. If one fails while an index is opened or queried, the call returns an error or the exact answer, never a wrong or partial answer presented as success. No failure makes the library panic or hang.",
  ["fault_sequences"], "for each history of an alphabet, a failure injected at every file operation (open, read, write, seek, stat, mkdir), including short writes, one per run",
  "No test injects a failure.",
  ["indexer.go", "internal/shard/indexer.go", "internal/shard/poster.go", "dmd/adder.go", "config.go", "fnames.go", "internal/shard/index.go", "dmd/t.go"],
  [("error propagation from the shard servers", "internal/shard/indexer.go Serve"), ("error propagation on close", "indexer.go Close")], (), ["errors of every exported call, then the content of the index"])
p("C21", "A killed indexing session never corrupts what was committed",
  "If the process is killed at any point of an indexing session, then opening the index for reading afterwards either returns an error or gives an index in which every lookup returns all documents of the completed sessions that have the blot, followed at most by documents of the killed session that have it. A first session that was killed never leaves an index that opens as if it were complete.",
  ["crash_points", "histories"], "every prefix of the sequence of file-modifying operations of the session, with the last write cut at every length, for histories with and without flushes before closing",
  "No test interrupts a session.",
  ["internal/shard/poster.go", "internal/shard/indexer.go", "internal/shard/read_state.go", "indexer.go", "dmd/adder.go", "config.go"],
  [("append-only posting file", "internal/shard/poster.go flushTo"), ("count of committed posts", "internal/shard/index.go, read_state.go"), ("order of writes on close", "indexer.go Close")], (), ["OpenIndex and lookups on the surviving files"])
p("C33", "A session that was killed or failed harms no later session",
  "After a session was killed at any point, or ended with an error because operations failed, an index that opens for reading or appending is sound: it has every document of the completed sessions, perhaps some of the incomplete one (in a session whose close succeeded, those that were added without an error), and every document that later sessions add, in this order, and lookups and extraction find exactly these. A session that appends to it works as to any other index, also when several sessions in turn were killed. If an appending session was killed before it was being closed, the index always opens.",
  ["crash_points", "fault_sequences", "histories"], "every state a kill of a session can leave, for histories with and without flushes before closing, continued by two sessions and by sessions that are killed too; every failing operation of a session, continued by two sessions",
  "No test interrupts a session or lets one fail and goes on with the index.",
  ["internal/shard/poster.go", "internal/shard/indexer.go", "dmd/adder.go", "indexer.go", "fnames.go"],
  [("end of the committed posts", "internal/shard/poster.go readToLink"), ("end of the whole records", "dmd/adder.go flush"), ("no table after lost posts", "internal/shard/indexer.go Close")], (), ["OpenIndexer, Add, Close, then OpenIndex and queries, on the surviving files"])
p("C22", "Removing an index deletes the index and nothing else",
  "Removing an index, through a reader or through an indexer, deletes its directory with everything in it and changes no other file, whatever lies beside it or is linked from inside it; afterwards an index can be created again at the same place, and no lock stays held. A create, append, query or close never modifies or deletes files outside the index directory and its lock file, nor the indexed documents.",
  ["histories", "inputs"], "all sequences up to a depth of create/append/read/remove with siblings whose names extend the index name, nested directories and links",
  "No test removes an index through the library.",
  ["remove.go", "indexer.go", "index.go", "lock/file.go"], [("close then remove the tree", "remove.go")], (), ["RemoveIndex, RemoveIndexer, file tree before and after"])
p("C23", "The index command indexes every visible file once, or says it failed",
  "'dupi index' adds every regular file that is reachable under the given paths and not hidden (no component found while walking starts with a dot; a path given on the command line is never hidden) exactly once per path that reaches it, with its whole content, path and length, also with -a and for every number of shards and workers; pipes, sockets and devices found while walking are passed over. If anything could not be read or added it exits with a non-zero status, and an index it created can be opened afterwards; otherwise it exits with status zero.",
  ["inputs", "configurations", "histories"], "all small directory trees over an alphabet of entry kinds (file, empty file, hidden file, hidden directory, nested directory, dangling link, link to a directory, unreadable entry), and several spellings of the path",
  "The command has no tests.",
  ["cmd/dupi/index.go", "cmd/dupi/dupi.go"], [("directory walk", "cmd/dupi/index.go mkWalkFn/doPath"), ("choice of create or append", "cmd/dupi/index.go getIndexer")], (), ["exit status of the built command, content of the index it wrote"])
p("C24", "The query commands print exactly what the index holds",
  "'dupi extract' prints every blot with at least max(2, N) documents, N the rounded mean plus sigma standard deviations, once and with all its documents (or only the blot with -b, or as JSON with -json), in non-increasing order of documents. 'dupi unblot' prints for a blot the texts that have it with the documents they are in, each document under the first of its texts (without -all, texts of a single document are left out); 'dupi blot' prints the blots of a file in order, with -offsets the byte range of each; 'dupi like' lists exactly the indexed documents that share a window's text (with the word before it) with the file; 'dupi inspect' prints the true statistics. Files without words, shorter than a window or with repeated words are no exception; for documents whose file has changed since, unblot and like go by the text it has now, and unblot passes over those that are gone.",
  ["inputs", "configurations"], "all small sets of files over a small vocabulary, several sigmas, shard counts, window lengths, with and without each flag",
  "The commands have no tests.",
  ["cmd/dupi/extract.go", "cmd/dupi/unblot.go", "cmd/dupi/blot.go", "cmd/dupi/like.go", "cmd/dupi/inspect.go"],
  [("extraction loop and cut-off", "cmd/dupi/extract.go Run"), ("text grouping", "cmd/dupi/unblot.go Run"), ("token alignment of offsets", "cmd/dupi/blot.go doFilename"), ("window texts", "cmd/dupi/like.go doFilename")], (), ["standard output of the built command"])
p("C25", "Loading a document gives exactly its bytes of the file",
  "Loading a document that covers a non-empty byte range of a file yields exactly those bytes, and leaves its path and extent unchanged; a document without extent is loaded as the whole file and its end set to the file's length. If the file is missing or does not contain the whole range, or the range ends before it starts, loading returns an error. Loading never changes the data that another document, or a copy of this one, has.",
  ["inputs"], "all file lengths up to a bound with all start/end pairs, including ranges touching and passing the end of the file, and inverted ones",
  "No test loads a document.",
  ["doc.go"], [("positioned read", "doc.go Load")], (), ["Doc.Load"])
p("C26", "The Bloom filter never forgets a member",
  "A Bloom filter reports every number added to it as present, whatever was added before or after, for every positive size and number of hash functions; adding never clears a bit, adding a member again changes nothing, and an empty filter reports nothing as present. The union of two posting filters contains every member of either, their intersection every common member, and listing the bits of a posting filter gives exactly those that are set.",
  ["inputs", "histories"], "all sizes 1-8 bytes and 1-5 hash functions, all add sequences up to a depth over a value alphabet, and for single values a large contiguous range",
  "The tests add a few hundred random numbers to two filters.",
  ["attic/ibloom/fnv32.go", "attic/ibloom/config.go", "attic/bposts.go"], [("bit selection", "attic/ibloom/fnv32.go Ones/PutOnes"), ("set and test", "attic/ibloom/fnv32.go Add/Has")], (), ["ibloom.Filter, posting filters"])
p("C27", "Trigrams are the base-37 code of the last three characters",
  "Shifting a character into a trigram drops the oldest of its three characters and keeps the other two, so the value always encodes exactly the last three characters and stays below the number of trigrams; printing it shows those characters, with every character that is not a letter or digit as an underscore and letter case ignored. Visiting tokens reports the trigram after every byte of a word (bytes of non-ASCII characters count as separators) and after every separator, in order, and collecting the trigrams of tokens gives the same sequence from the third on (nothing if there are fewer).",
  ["inputs", "histories"], "all 50653 trigrams times all 37 characters, all 256 byte values, and all token sequences up to a depth",
  "The one trigram test prints its result and asserts nothing.",
  ["attic/trigram/t.go"], [("shift", "attic/trigram/t.go Shift"), ("character classes", "attic/trigram/t.go Letter/Unletter")], (), ["trigram package functions"])
p("C28", "Index files keep their format",
  "Index files written by the released version are read with the same results by the current one, and the files the current one writes for the same documents and sessions mean the same to the released version's format: configuration, path table, document records, posting chunks with links, and per-shard tables, byte by byte as specified, including lists that span several chunks. Writing is deterministic: the same documents in the same sessions give the same bytes.",
  ["inputs", "histories"], "all histories of an alphabet (sessions, chunk spills, path shapes), each compared with an independent encoder and decoder of the format",
  "Tests only ever read back what the same code wrote, so a change made alike to writer and reader passes.",
  ["internal/shard/poster.go", "internal/shard/posts.go", "internal/shard/indexer.go", "internal/shard/index.go", "dmd/adder.go", "dmd/t.go", "fnames.go", "config.go"],
  [("chunk layout", "internal/shard/poster.go flushTo"), ("table layout", "internal/shard/indexer.go flushIix"), ("record layout", "dmd/adder.go flush"), ("path table layout", "fnames.go write")], (), ["files in the index directory"])

p("C35", "A query command that could not print everything fails",
  "When 'dupi extract', 'like', 'blot', 'unblot' or 'inspect' (with any of their flags) ends with exit status 0, everything it had to print was written to its standard output. If the output takes only a part - the disk is full after some bytes, a write is cut short or refused, the output cannot be written at all - the command ends with a non-zero exit status; if the output takes everything, the command does not fail. In no case does it crash, hang, change or keep the index locked.",
  ["fault_sequences", "inputs"], "every number of bytes after which the output takes no more (with the last write cut there, or refused as a whole), for every query command, flag and a set of small indexes",
  "No test runs the commands, let alone with an output that fails.",
  ["cmd/dupi/extract.go", "cmd/dupi/like.go", "cmd/dupi/blot.go", "cmd/dupi/unblot.go", "cmd/dupi/inspect.go", "cmd/dupi/dupi.go", "cmd/dupi/verb.go"],
  [("printing", "cmd/dupi/*.go Run, doFilename"), ("exit status", "cmd/dupi/dupi.go main")], (), ["dupi command: exit status and output"])
p("C29", "The command works on the index it is told to, or fails",
  "Every verb of the dupi command works on the index that -r names, else on the one that DUPIROOT names if it is set and not empty, else on .dupi in the home directory - whatever the name is, also that of a verb - and on no other index. With -c, index takes the root and all settings from the configuration file. What cannot be done (no verb or an unknown one, an unknown flag, an index that is missing, damaged or, when creating, already there, a queried file that cannot be read, an argument that is no blot) ends with a non-zero exit status and leaves every index as it was; everything else ends with exit status 0.",
  ["inputs", "histories"], "all combinations of ways to name an index with all verbs, indexes present at all other places, damaged indexes, refused command lines and configuration files",
  "No test runs the command.",
  ["cmd/dupi/dupi.go", "cmd/dupi/verb.go", "cmd/dupi/index.go", "config.go"],
  [("choosing the index", "cmd/dupi/dupi.go getIndexRoot"), ("verbs", "cmd/dupi/dupi.go main")], (), ["dupi command: exit status, files, output"])
p("C30", "Every message of a mail archive becomes one document",
  "The dupenron command makes, of a CSV file with two fields per record, an index with exactly one document per record, in order, whose posts are those of the message's text after its first empty line (the whole message if it has none), in the number of shards and the window asked for; an existing index is refused and not changed. With -o it prints exactly the first records asked for (all if there are fewer). A file or command line it cannot handle ends with a non-zero exit status and leaves no index that opens. (Nothing is claimed about the extents of these documents.)",
  ["inputs"], "all short files over an alphabet of message kinds in several configurations, malformed files, refused command lines",
  "No test runs the command.",
  ["cmd/dupenron/main.go"], [("cutting headers", "cmd/dupenron/main.go indexEnron"), ("printing", "cmd/dupenron/main.go oEnron")], (), ["dupenron command: exit status, output, index"])
p("C31", "A session leaves nothing behind",
  "When a session with an index has ended - by closing or removing it, or because creating or opening it failed - whether or not an error was reported, the process holds nothing of it: no file of the index is open, no lock is held and no goroutine runs on. Loading a document and locating blots in it leave no file open either, whether or not they succeed.",
  ["histories", "fault_sequences", "schedules"], "all sequences of sessions to a depth, every failing file operation of an alphabet of sessions, all schedules of short sessions",
  "Tests run a session or two and end; a leak only shows in a process that opens many indexes.",
  ["index.go", "indexer.go", "shatter.go", "internal/shard/indexer.go", "internal/shard/index.go", "lock/lock.go", "doc.go"],
  [("ending an appending session", "indexer.go Close/release"), ("ending a reading session", "index.go Close/release"), ("worker shutdown", "shatter.go startShatter"), ("shard shutdown", "internal/shard/indexer.go Serve/Close/Release")], (), ["open files, locks and goroutines of the process"])

p("C32", "Damaged index files never crash or hang a user",
  "Whatever single damage a file of an index has - bytes changed, the file cut, extended, missing, replaced by another, any number in it replaced by any other (except that a configuration asks for more workers) - opening, lookups, extraction, statistics, and opening for appending, adding and closing each end with success or an error: no panic, no endless loop, no memory out of proportion to the files, nothing left open or locked. Lookups of blots whose shard's files, document records, path table and configuration are undamaged are still answered exactly.",
  ["inputs", "fault_sequences"], "all single-byte changes over a set of values, all cuts, all replacements of numbers of the format by a list of values, of all files of several small indexes",
  "No test reads a file that the code did not write itself.",
  ["internal/shard/posts.go", "internal/shard/poster.go", "internal/shard/index.go", "fnames.go", "config.go", "dmd/t.go", "index.go", "indexer.go"],
  [("reading posting chunks", "internal/shard/posts.go readNext"), ("finding the end of a list", "internal/shard/poster.go readToLink"), ("reading the path table", "fnames.go breadFnames"), ("reading tables", "internal/shard/index.go readIix")], (), ["results and errors of the index API; open files, locks, memory"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P), "properties")
