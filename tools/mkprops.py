#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("P01", "Documents sharing a long enough passage always meet at a fingerprint",
  "If two indexed documents both contain the same run of at least k+1 consecutive words (k = the index's sequence length; letter case and whatever separates the words are ignored), then some fingerprint has both documents in its result list, and enumerating duplicates shows the two together. It does not matter where in the documents the run lies (including their first and last words), in which session each was added, or how many shards and workers are configured.",
  ["inputs", "histories", "configurations"],
  "all pairs of documents and positions of the shared run, all session histories, all shard/worker/sequence-length settings",
  "The tests index two documents once and only look a document up by its number; none checks that a shared passage is found, let alone at the ends of a document or across sessions.",
  ["shatter.go", "token/t.go", "blotter/circ.go", "blotter/interleaved.go", "index.go", "indexer.go"],
  [("tokenise, then one blot per word after the first k", "shatter.go shatter.do"), ("k-circular xor window", "blotter/circ.go Blot")],
  [("words", "the words of a document in order", "token.Tokenize"), ("window", "the last k words", "blotter.Circ")],
  ["Query.Get", "Query.Next"])

p("P02", "Fingerprint lookup returns exactly the documents that have it",
  "For every 32-bit fingerprint, looking it up in an index returns exactly the documents whose text yields that fingerprint (reduced to the index's fingerprint space), each once, in the order in which they were added; nothing is missing and nothing is added. A lookup with a limited result buffer returns the first that fit. This holds however long the list of documents is and however far apart in the index they are.",
  ["inputs", "histories", "configurations"],
  "all document contents, list lengths, distances between consecutive documents of a list, shard counts, and lookup values",
  "The one posting-list test uses a single list, one random gap range, one flush sequence and no reopening; no test looks a fingerprint up.",
  ["internal/shard/poster.go", "internal/shard/posts.go", "internal/shard/indexer.go", "internal/shard/index.go", "query.go", "post/t.go", "shatter.go"],
  [("delta + varint chunks of a linked list on disk", "internal/shard/poster.go AddPost/flushTo, posts.go readNext"), ("shard and slot of a fingerprint", "shatter.go blot, query.go Get")],
  [("posting list", "documents of one fingerprint", "internal/shard poster / Posts")], ["Query.Get"])

p("P03", "Appending in sessions equals building in one go",
  "An index built by creating it and appending in any number of later sessions, however the documents are split between the sessions (empty sessions included), answers every lookup, enumeration and statistic exactly like an index built from the same documents in the same order in one session.",
  ["histories", "inputs", "configurations"],
  "all ways to split a document sequence into sessions, all lengths of lists at the moment a session ends",
  "Only the document table has a reopen test, with five records; no test reopens an index for appending.",
  ["indexer.go", "internal/shard/indexer.go", "internal/shard/poster.go", "dmd/adder.go", "fnames.go"],
  [("state needed to continue is stored at close and read at open", "internal/shard/indexer.go flushIix/readIix, poster.go initAppend/readToLink"), ("document numbering continues", "dmd/adder.go NewAdder, indexer.go openFromConfig")],
  [("list head, total, last document", "what the next session continues from", "*.iix")], ["OpenIndexer", "Indexer.Close", "Query.Get", "Query.Next", "Index.Stats"])

p("P04", "Parallel indexing is deterministic and always finishes",
  "For a given sequence of added documents the resulting index is the same however many parallel workers and shards are configured and however they are scheduled: every document's fingerprints are stored once, in the order of addition. Adding documents and closing the index always complete.",
  ["schedules", "configurations"],
  "all interleavings of the producer, the workers and the shard servers, all relative processing times of documents",
  "The tests add two short documents, so reordering, overlapping deliveries and shutdown while workers are busy never happen.",
  ["shatter.go", "indexer.go", "internal/shard/indexer.go"],
  [("ordered hand-over under a condition variable", "shatter.go send"), ("rendezvous and acknowledgement per shard", "shatter.go send, internal/shard/indexer.go Serve"), ("shutdown", "indexer.go Close")],
  [("sequencer", "number of the last document handed over", "shatter.go mono")], ["Indexer.Add", "Indexer.Close", "Query.Get"])

p("P05", "Documents come back with the identity they were added with",
  "Every document an index returns carries exactly the absolute, cleaned form of the path, and the start and end offsets, with which it was added, for any mixture of paths (shared directories, repeated files, one path a prefix of another, unusual characters, long names) and any number of documents and sessions.",
  ["inputs", "histories", "configurations"],
  "all path sets and insertion orders, all offsets, all numbers of documents relative to the buffer of the document table, all session splits",
  "The path test has four short paths and the document-table test five records below one buffer; combinations and boundaries are not reached.",
  ["fnames.go", "dmd/adder.go", "dmd/t.go", "indexer.go", "index.go", "query.go"],
  [("path tree with parent links", "fnames.go addPath/abs/write/readFnames"), ("fixed-size records, buffered appends", "dmd/adder.go Add/flush, dmd/t.go Lookup")],
  [("document table", "document number -> path node, start, end", "dmd file"), ("path tree", "node -> parent, name", "files.fnm")], ["Query.Get", "Query.Next", "dmd.T.Lookup"])

p("P06", "Enumerating duplicates is complete, ordered and terminating",
  "Iterating over duplicates yields every fingerprint that has at least two documents, each once with its complete list, by non-increasing number of documents, for any batch size; with limited result buffers (room for one or more) the list of a fingerprint arrives in consecutive pieces that together make up the complete list. After the last one every further call reports end of input, without an error and without hanging.",
  ["inputs", "histories", "configurations"],
  "all distributions of list lengths over shards, all batch sizes and buffer capacities (changing between calls), any number of calls after the end",
  "TestIndexQueryTrivial is empty: enumeration is not tested at all.",
  ["query.go", "blot.go", "internal/shard/index.go", "internal/shard/read_state.go"],
  [("per-shard cursors over fingerprints sorted by length, merged by maximum", "query.go Next/advance/setMax"), ("buffers of the caller", "blot.go Next")],
  [("cursor", "position in each shard and in the current list", "query.go qstate")], ["Query.Next"])

p("P07", "Concurrent queries on one open index do not disturb each other",
  "Any number of lookups, enumerations, locate calls and statistics running at the same time on one open index each return exactly what they would return if run alone.",
  ["schedules"],
  "all interleavings of concurrent readers of one index",
  "No test runs two queries at the same time.",
  ["index.go", "query.go", "dmd/t.go", "internal/shard/index.go", "internal/shard/posts.go", "fnames.go"],
  [("per-query state, positional reads", "query.go, internal/shard/posts.go, dmd/t.go Lookup")],
  [("shared file handles", "one per index file", "dmd.T.file, shard.Index.postFile")], ["Query.Get", "Query.Next"])

p("P08", "Writers exclude everyone, readers share",
  "While one session may modify an index (creating or appending), no other session on it, in any process, for reading or writing, gets past opening; any number of readers may be open together. A waiting session proceeds once the sessions in its way have closed, and it then sees everything they committed.",
  ["schedules", "histories"],
  "all interleavings of sessions of several processes",
  "The lock test creates and closes one lock file; two sessions never overlap in the tests.",
  ["lock/file.go", "lock/unix.go", "indexer.go", "index.go", "config.go"],
  [("advisory lock on <root>.lock for the whole session", "lock/, indexer.go IndexerFromConfig/openFromConfig, index.go OpenIndex")],
  [("lock mode", "who holds the lock shared/exclusive", "<root>.lock")], ["CreateIndexer", "OpenIndexer", "OpenIndex", "Close", "lock.File"])

p("P09", "A failed open or create leaves no trace",
  "When creating or opening an index fails, the failure is reported as an error and nothing lasting remains of the attempt: it blocks no other session, it does not change an index that is already there, and an invalid creation request leaves nothing behind that prevents a later valid one.",
  ["inputs", "histories", "fault_sequences"],
  "all causes of failure (existing root, missing or damaged index files, invalid configuration, missing parent directory), followed by any session",
  "No test provokes a failing open or create.",
  ["indexer.go", "index.go", "config.go", "lock/file.go"],
  [("lock released on error paths, validation before any change", "indexer.go IndexerFromConfig/openFromConfig, index.go OpenIndex")],
  [], ["CreateIndexer", "IndexerFromConfig", "OpenIndexer", "OpenIndex"])

p("P10", "A crash while building a new index never leaves a partial index",
  "If the process dies at any moment of the session that creates an index, a later attempt to open it for reading or appending either fails with an error or finds every document that was added, completely; it never serves an index with some of the documents or fingerprints missing.",
  ["crash_points", "histories"],
  "every point between two file-system operations of a creating session, for all document sequences",
  "No test interrupts a session.",
  ["indexer.go", "internal/shard/indexer.go", "internal/shard/index.go", "config.go", "fnames.go"],
  [("shard tables are written last and are unreadable before", "indexer.go Close, internal/shard/indexer.go InitCreate/flushIix")],
  [("files of an index", "cfg.json, files.fnm, dmd, b<i>.pos, b<i>.pos.iix", "index root")], ["OpenIndex", "OpenIndexer"])

p("P11", "A crash while appending never costs earlier documents",
  "If the process dies at any moment of an append session, the index can still be opened, for reading and for appending, every lookup still returns all documents of the completed sessions with their right identities, and a following append session works as usual.",
  ["crash_points", "histories"],
  "every point between two file-system operations of an append session, for all earlier contents and all appended documents, followed by any reads and appends",
  "No test interrupts a session.",
  ["indexer.go", "internal/shard/indexer.go", "internal/shard/poster.go", "internal/shard/read_state.go", "config.go", "fnames.go", "dmd/adder.go"],
  [("tables replaced atomically; list contents beyond the committed total are ignored", "indexer.go writeFiles, internal/shard/indexer.go flushIix, poster.go readToLink, read_state.go Next")],
  [("committed total of a list", "how much of a list belongs to completed sessions", "b<i>.pos.iix")], ["OpenIndex", "OpenIndexer", "Query.Get"])

p("P12", "Tokenisation partitions the text into words and separators",
  "Tokenising any valid UTF-8 text yields tokens that, concatenated in order, reproduce the text byte for byte, each labelled with its offset; the words are exactly the maximal runs of letters and digits. Text that is not valid UTF-8 yields no tokens.",
  ["inputs"],
  "all byte strings",
  "The token test prints the tokens of one string and checks nothing.",
  ["token/t.go"], [("single pass over the runes", "token/t.go Tokenize")], [], ["token.Tokenize"])

p("P13", "A fingerprint is a function of the last k words only",
  "The fingerprint produced after a word is the combination (exclusive or) of the hashes of the last k words of its stream (every m-th word with interleaving m), whatever came before and regardless of letter case; the fingerprints computed for a text by a query are exactly those stored when the same text is indexed. Splitting a fingerprint into its shard and slot and joining them again gives back the fingerprint.",
  ["inputs", "histories", "configurations"],
  "all word sequences, histories of a fingerprinting stream, sequence lengths, interleavings and shard counts",
  "The circular-hash test uses one three-word window; interleaving, history independence and the agreement of index and query side are not tested.",
  ["blotter/circ.go", "blotter/interleaved.go", "blotter/config.go", "index.go", "shatter.go"],
  [("xor of a ring of word hashes", "blotter/circ.go Blot"), ("query-side fingerprints", "index.go BlotDoc, SplitBlot, JoinBlot")], [("ring", "hashes of the last k words", "blotter.Circ.hashes")], ["blotter.T.Blot", "Index.BlotDoc", "Index.SplitBlot", "Index.JoinBlot"])

p("P14", "Locating a fingerprint gives the passage that produced it",
  "For a document that was returned for a fingerprint and whose file is unchanged, locating the fingerprint gives a range inside the document that consists of k+1 consecutive words ending in a word at which the text has that fingerprint, also when the document is only a part of its file. Searching a document for a set of passages reports exactly those that occur in it verbatim at their fingerprint; a fingerprint the text does not have is reported as not found.",
  ["inputs", "configurations"],
  "all documents (whole files and ranges of files), all fingerprints, all passage sets",
  "Neither locate operation is called by a test.",
  ["index.go", "doc.go"], [("re-tokenise and re-fingerprint the document", "index.go FindBlot/FindBlots"), ("load the document's range", "doc.go Load")], [], ["Index.FindBlot", "Index.FindBlots", "Doc.Load"])

p("P15", "Statistics are exact",
  "The statistics of an open index, also as the inspect command prints them (as text, rounded; as JSON), are exact: the number of documents added, the number of (document, fingerprint) pairs stored, the size of the fingerprint space, the number of nodes of the path tree, and the mean and standard deviation of the number of documents per fingerprint.",
  ["inputs", "histories", "configurations"],
  "all document sets, session splits and shard counts",
  "No test reads the statistics or runs the command.",
  ["index.go", "stats.go", "internal/shard/index.go", "dmd/t.go", "cmd/dupi/inspect.go"], [("counts from the shard tables and the document table", "index.go Stats")], [], ["Index.Stats"])

p("P16", "Every accepted configuration works and is kept",
  "Creating an index either rejects the parameters with an error before anything is written, or yields a working index: any positive sequence length, interleaving, number of shards and workers and buffer rate is accepted and behaves the same up to the fingerprint space. A stored configuration is read back identical, in every later session, even if the file was reformatted in between.",
  ["configurations", "histories"],
  "all values of the configuration fields, all sequences of sessions on a stored configuration",
  "Tests use one configuration (4 shards, length 10).",
  ["config.go", "indexer.go", "token/config.go", "blotter/config.go"], [("validation", "config.go check"), ("JSON file in the index", "config.go Write/ReadConfig")], [], ["NewConfig", "IndexerFromConfig", "ReadConfig", "Index.SeqLen", "Index.NumShards"])

p("P17", "The index command covers the tree it is given",
  "Running the index command on files and directories indexes every readable regular file that is given or lies below a given directory and is not hidden (hidden: its name, or that of a directory between it and the given one inclusive, starts with a dot and is not . or ..), once per mention, with its whole contents, into the index named (whatever its name, that of a command included). A file or directory that cannot be read is reported and makes the command fail at the end, but does not stop the others from being indexed.",
  ["inputs", "fault_sequences"],
  "all directory trees and argument lists, any set of unreadable entries",
  "The command has no tests.",
  ["cmd/dupi/index.go"], [("directory walk", "cmd/dupi/index.go mkWalkFn/doPath")], [], ["dupi index"])

p("P18", "The extract command prints exactly the qualifying duplicates",
  "The extract command outputs exactly those fingerprints that have at least two documents and at least round(mean + sigma * deviation) documents, by non-increasing number of documents, each with all its documents and their ranges; text, JSON and fingerprint-only output agree.",
  ["inputs", "configurations"],
  "all indexes and thresholds",
  "The command has no tests.",
  ["cmd/dupi/extract.go", "query.go", "index.go"], [("threshold and output loop", "cmd/dupi/extract.go Run")], [], ["dupi extract"])

p("P19", "The like command finds exactly the documents sharing a passage",
  "For a file, the like command lists exactly the indexed documents in which some passage of k+1 consecutive words of that file occurs byte for byte (from the first letter of its first word to the last letter of its last word) as k+1 consecutive words, each once.",
  ["inputs", "configurations"],
  "all query files and indexed document sets, including repeated and reordered words in the query file",
  "The command has no tests.",
  ["cmd/dupi/like.go", "index.go", "query.go"], [("fingerprint lookup followed by text comparison", "cmd/dupi/like.go doFilename, index.go FindBlots")], [], ["dupi like"])

p("P20", "The blot and unblot commands are inverse to each other",
  "The blot command prints the fingerprint of every window of a file in order, the same values under which the index stores the file, and with offsets the byte range of the k+1 words behind each. The unblot command prints, for a fingerprint, passages that really have that fingerprint, each with documents at whose range it really occurs, and every document of the fingerprint appears under one passage (passages found in a single document only on request).",
  ["inputs", "configurations"],
  "all files and indexed document sets, all fingerprints",
  "The commands have no tests.",
  ["cmd/dupi/blot.go", "cmd/dupi/unblot.go", "index.go"], [("output loops", "cmd/dupi/blot.go doFilename, cmd/dupi/unblot.go Run")], [], ["dupi blot", "dupi unblot"])

p("P21", "An index directory is self-contained",
  "A copied or moved index directory, opened under its new path in whatever spelling (relative, trailing separator), gives the same answers as the original; whatever is done through the copy - appending, removing - affects the copy only, and sessions under different spellings of one path exclude each other as under one. A session opened under a relative path goes on with the same index when the working directory changes.",
  ["histories", "configurations"],
  "all sequences of sessions, copies, moves and changes of the working directory, all spellings of a path",
  "Tests use one relative path, once.",
  ["config.go", "index.go", "indexer.go", "remove.go"], [("root path resolution", "config.go ReadConfigFromRoot, index.go OpenIndex")], [], ["OpenIndex", "OpenIndexer", "RemoveIndex", "RemoveIndexer"])

p("P22", "Removing an index removes it entirely and only it",
  "Removing an index, through a reading or a writing session, ends the session, releases it for others, and deletes the whole index directory and nothing outside it; afterwards a new index can be created there that starts out empty.",
  ["histories"],
  "all histories before the removal and sequences of sessions after it",
  "No test removes an index.",
  ["remove.go", "indexer.go", "index.go"], [("close then delete", "remove.go")], [], ["RemoveIndex", "RemoveIndexer"])

p("P23", "Existing indexes on disk stay readable and appendable",
  "An index written by the released version of the program can be opened, queried and appended to by the current one, with the same answers, and its fingerprints for a given text are unchanged (except where the released version ignored the last character of a text).",
  ["histories", "inputs"],
  "all operations on stored indexes",
  "Tests only read what they wrote themselves in the same run, so a matching change of writer and reader goes unnoticed.",
  ["internal/shard/poster.go", "internal/shard/posts.go", "internal/shard/indexer.go", "internal/shard/index.go", "dmd/adder.go", "dmd/t.go", "dmd/fields.go", "fnames.go", "config.go", "blotter/circ.go"],
  [("on-disk encodings", "flushTo, flushIix, dmd flush, fnames write, config JSON")], [], ["OpenIndex", "OpenIndexer"])

p("P24", "Storage failures are never silent",
  "If writing index data fails during a session, then an add or the close of that session reports an error; when all adds and the close succeed, everything that was added is found by later sessions. After an append session in which a failure was reported, the documents of the earlier sessions are still all found.",
  ["fault_sequences", "histories"],
  "every single failing file-system write of a session, for all document sequences",
  "No test injects a storage failure.",
  ["indexer.go", "internal/shard/indexer.go", "internal/shard/poster.go", "dmd/adder.go", "config.go", "fnames.go"], [("error propagation to Add and Close", "internal/shard/indexer.go Serve/Close, indexer.go Close")], [], ["Indexer.Add", "Indexer.Close"])

p("P25", "Bloom-filter sets have no false negatives",
  "A set kept in a Bloom filter contains every value added to it; the union of two sets contains every value of either, the intersection every value of both, whatever the filter's size (at least one byte) and number of hash functions (at least one) and the order of operations; an empty set contains nothing.",
  ["inputs", "histories"],
  "all sequences of add, union, intersect and membership operations and all filter parameters",
  "The filter tests add once to one filter and never intersect or union.",
  ["attic/bposts.go", "attic/ibloom/fnv32.go", "attic/ibloom/config.go"], [("bit positions from k hash variations", "attic/ibloom/fnv32.go Ones/Add/Has"), ("bitwise and/or", "attic/bposts.go Intersect/Union")], [], ["ibloom.Filter.Add", "ibloom.Filter.Has"])

p("P26", "The trigrams of a text are its windows of three letters",
  "The trigrams visited for a text are, in order, one for every letter of it, made of that letter and the two before it, where the letters are the bytes of its words (digits, and Latin letters whatever their case; any other byte counts as the letter for 'other') and one 'other' for everything between two words, and the text is taken to be preceded by 'other'. Visiting it token by token gives the same; the list of a text's trigrams leaves out the first two, and is empty for texts of less than three letters. Every trigram prints as its three letters.",
  ["inputs"],
  "all texts, the empty one and those of one or two letters included",
  "The one test prints the trigrams of one sentence and compares nothing.",
  ["attic/trigram/t.go"], [("shifting letters into a number modulo the alphabet's cube", "attic/trigram/t.go Shift, VisitToken(s), FromToken(s)")], [], ["trigram.VisitTokens", "trigram.FromTokens", "trigram.T.String"])

p("P27", "The mail-archive indexer indexes the body of every message",
  "The dupenron program, given a CSV file of two columns (name, message), creates an index with the number of shards and the sequence length asked for, that has exactly one document per record, in order, whose words are those of the message after its first empty line (of the whole message if there is none), at the file's path; it fails, leaving what is there alone, if the index exists already, and reports a file that is not of that form. With -o it prints the first n records, complete and unchanged, as CSV. Where in the file the documents are is not stated.",
  ["inputs", "configurations"],
  "all CSV files (quoting, line breaks, empty messages), sequence lengths and shard counts",
  "The program has no test.",
  ["cmd/dupenron/main.go"], [("read records, cut off the head, add a document", "cmd/dupenron/main.go indexEnron"), ("copy records", "cmd/dupenron/main.go oEnron")], [], ["standard output and the resulting index"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
