#!/usr/bin/env python3
"""Writes ../properties.jsonl. Kept as a script so that the entries stay readable and valid."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "The in-memory store answers every read from exactly what was saved",
 "After any sequence of saves in which each field of a document is saved at most once, the in-memory store answers every read (posting set of a term, fields of a batch of documents, number of documents and total length of a field, number of documents per term, whole index of a field) exactly as a plain record of those saves would. Reads for unknown fields, terms or documents report absence, zero or nothing and never fail.",
 ["histories","inputs"], "every sequence of saves (any ids, field names, term maps, lengths) interleaved with any reads",
 "The tests save three fixed documents and look at a few terms; they never vary ids, sizes, overlaps, empty fields or unknown keys.",
 ["storage/Memory.go","model/Set.go","model/Field.go"],
 [("update of postings, sizes, lengths, document counts","storage/Memory.go SaveOrUpdate/UpdateIndex"),("reads","storage/Memory.go Get*")],
 [("Index","field -> term -> documents","Memory.Index"),("FieldDocument","document -> field -> value","Memory.FieldDocument")],
 ["storage.Storage interface"])

prop("C02", "The disk store's live answers never depend on cache size, flushing or time",
 "While a disk store is open, after any sequence of saves in which each field of a document is saved at most once, every read answers exactly as a plain record of those saves would, for every positive cache capacity and whatever time passes between operations (so whatever has been flushed, merged or evicted in between). Every save and read completes.",
 ["histories","configurations","schedules"], "every history of saves, reads and waits; every cache capacity >= 1; every alignment with the background flush and merge timers",
 "The tests use three documents with a cache of five, so nothing is evicted, and always wait for the flush before reading.",
 ["storage/DiskStorage.go","storage/DiskIO.go","cache/LRU.go"],
 [("write-behind channels and flush tickers","storage/DiskIO.go Save*OnDisk/OnDisc"),("read-through document cache","storage/DiskStorage.go GetFields/UpdateFieldDocument"),("bounded LRU","cache/LRU.go")],
 [("fieldDocumentCache","recently used documents","Disk"),("index, fieldSize, fieldLength, numberFieldTerm","live statistics","Disk")],
 ["storage.Storage interface of a store opened on a directory"])

prop("C03", "Twenty seconds after the last save a restart loses and invents nothing",
 "If a disk store has been left alone for 20 seconds after its last save, then a new process opening the same directory (however its path is spelled), or the directory moved or copied to another place, answers every read exactly as the old one did: postings, document fields, field sizes and lengths, and document counts per term. This holds over any number of such sessions, each of which may index further documents, further fields of old documents, and new or old terms.",
 ["histories","configurations"], "every multi-session history of saves, waits, reads and restarts; every cache capacity",
 "The tests restart once after indexing one small batch within a single flush window, so nothing ever has to be combined with what an earlier window or session wrote.",
 ["storage/DiskStorage.go","storage/DiskIO.go","storage/Serialize.go","file/File.go"],
 [("flush of metrics, term counts, documents, index fragments","storage/DiskIO.go Save*"),("load at start","storage/DiskIO.go Load*OnHD"),("merge of fragments into the index file","storage/DiskIO.go LoadIndexOnHD")],
 [],["storage.NewDiskStore on the same directory, then the Storage interface"])

prop("C04", "A crash at any point leaves a store that opens and keeps what was durable",
 "If the process dies at any instant, including between or in the middle of file operations of a flush, a merge or a start-up, the directory it leaves can be opened without error. Everything saved at least 20 seconds before the crash is then still answered (postings, document fields, sizes, lengths, counts), and nothing is answered that was never saved.",
 ["crash_points","histories","fault_sequences"], "every crash point (before each file-system mutation and with each write torn) of every multi-session history, including crashes during recovery; process death, not power loss",
 "No test kills the process or looks at an intermediate file-system state.",
 ["file/File.go","storage/DiskIO.go","storage/DiskStorage.go"],
 [("replace-by-rename of whole files","file/File.go SecureSaveFile"),("index fragments and their merge, delete only after the merged index is in place","storage/DiskIO.go SaveIndexOnDisk/LoadIndexOnHD")],
 [],["directory contents at each file operation, re-opened with storage.NewDiskStore"],
 "none in /repo: file operations are observed through a build overlay of package os")

prop("C05", "Everything written in the on-disk encodings reads back unchanged",
 "For each stored record (term posting lists, document field maps, term document counts, field metrics, and the other declared record tables) decoding an encoded value returns the same value, for any strings and any 32-bit counts, and empty collections read back as empty. Decompressing compressed data returns the same bytes.",
 ["inputs"], "every value of the record types: any strings (including empty, long, non-ASCII, invalid UTF-8), any int32 values, any number of entries",
 "No test calls the encoders directly; the disk tests only pass a handful of short ASCII strings and tiny counts through them.",
 ["storage/Serialize.go","storage/buffers/","file/File.go","schema/"],
 [("flatbuffers encoders and decoders","storage/Serialize.go"),("generated tables","storage/buffers/*.go"),("gzip","file/File.go CompressData/DecompressData")],
 [],["storage.Serialize*/Deserialize*, buffers.*, file.CompressData/DecompressData"])

prop("C06", "Merging index fragments yields exactly their union, once and for all",
 "Loading the index returns, per field and term, the union of the merged index and all pending fragments, whatever their number, overlap and order, and leaves that union as the merged index with no fragment pending. Loading again, at once or from another process, returns the same; fragments that arrive while a merge runs are never lost.",
 ["histories","schedules","inputs"], "every sequence of fragment flushes and merges over any fields, terms and documents",
 "The tests merge once or twice with two or three short fragments and only inspect set sizes.",
 ["storage/DiskIO.go"],
 [("fragment writer","storage/DiskIO.go SaveIndexOnDisk"),("merge","storage/DiskIO.go LoadIndexOnHD"),("merged index reader","storage/DiskIO.go LoadTermDocumentsFromIndex")],
 [],["storage.DiskIO.LoadIndexOnHD, storage.LoadTermDocumentsFromIndex"])

prop("C07", "Search returns exactly the matching documents with their BM25 scores, best first",
 "For every corpus and every list of field queries, search returns each document that contains at least one query term in the queried field exactly once, and no other, with the sum over the field queries of its boosted BM25 score (k1 1.2, b 0.75, boost 0 meaning 1) computed from the corpus statistics, in non-increasing score order. The result is the same for both stores and does not depend on goroutine scheduling.",
 ["inputs","histories","schedules"], "every corpus, every query list (any number of field queries, repeated fields and terms, unknown fields and terms, any boosts)",
 "No test exercises search or the ranking at all.",
 ["search/Standard.go","index/InvertedIndex.go","similarity/BM25.go","metric/IDF.go"],
 [("fan-out per field query and score accumulation","search/Standard.go Search"),("candidate collection in batches","index/InvertedIndex.go Search"),("scoring","similarity/BM25.go, metric/IDF.go")],
 [],["search.NewStandard(index.NewIndex(store)).Search"])

prop("C08", "BM25 scoring obeys its formula and the ranking laws users rely on",
 "For valid statistics the score is finite and equals the sum over query terms of boost * idf * tf*(k1+1)/(tf + k1*(1-b+b*len/avglen)) with idf = ln(1+(N-n+0.5)/(n+0.5)). It is non-negative, zero exactly when no query term occurs, grows with term frequency, does not grow with field length or with the number of documents holding the term, is linear in boost (0 counting as 1), additive over query terms and independent of their order.",
 ["inputs"], "every query, term-frequency map, length, statistics with 0<=n<=N, boost > 0, k1 > 0, 0<=b<=1",
 "No test calls the similarity or the metrics.",
 ["similarity/BM25.go","metric/IDF.go"],
 [("BM25","similarity/BM25.go"),("IdfBM25","metric/IDF.go")],[],["similarity.BM25, metric.IdfBM25"])

prop("C09", "Each text-analysis stage does exactly its job on every text",
 "The tokenizer returns, in order, the maximal runs of letters, numbers and apostrophes; lower-casing, stemming and accent removal map each token independently and keep order and count; stop-word removal drops exactly the listed words and keeps the rest in order; the built-in English and Portuguese lists are the published ones and an unknown language is refused; term counting counts every token. No stage fails on any text.",
 ["inputs"], "every Unicode text and token list, every stop-word set",
 "The tests only push five short ASCII phrases through the English pipeline.",
 ["tokenizer/Standard.go","filter/","language/","metric/TF.go"],
 [("Tokenize","tokenizer/Standard.go"),("filters","filter/*.go"),("stop-word lists","language/*.go"),("TermFrequency","metric/TF.go")],
 [],["tokenizer.Tokenizer, filter.Filter, language.GetWords, metric.TermFrequency"])

prop("C10", "A text that was indexed is found again by its own words",
 "When texts are analysed (tokenize, lower-case, drop stop words, stem, strip accents), indexed and searched with an equally analysed query, a document is returned if and only if its text shares an analysed term with the query. Changing only ASCII letter case, punctuation between words or stop words of the query changes neither the returned documents nor their scores.",
 ["inputs","histories"], "every collection of texts and every query text, in both stores",
 "No test runs analysis and search together.",
 ["tokenizer/Standard.go","filter/","metric/TF.go","index/InvertedIndex.go","search/Standard.go"],
 [("pipeline","tokenizer, filter packages composed as in main.go Preprocessing"),("search","search/Standard.go")],
 [],["search results for texts fed through the public pipeline"])

prop("C11", "Flattening keeps every leaf of a JSON document under its dotted path",
 "Parsing and flattening a JSON object yields exactly one entry per leaf (anything that is not an object), keyed by the dot-joined path of keys and holding the unchanged value; no nested object remains and the input is not modified, provided no two leaves have the same dotted path. The document id is the text under the top-level key Id, or empty when there is none.",
 ["inputs"], "every JSON object, any nesting depth, any key names and values",
 "The tests flatten three flat objects with three string fields.",
 ["field/FieldProcess.go"],
 [("StringToObject, Flatten, GetID","field/FieldProcess.go")],[],["field.StringToObject, field.Flatten, field.GetID"])

prop("C12", "The bounded cache evicts exactly the least recently used entry",
 "For every positive capacity and every sequence of puts and gets, the cache holds exactly the most recently used keys up to its capacity, where both a get that hits and a put count as use; a get returns the value of the last put for that key while it is held and reports absence otherwise. Concurrent use from many goroutines is safe and keeps the bound.",
 ["histories","configurations","schedules"], "every capacity >= 1, every put/get sequence, every interleaving of concurrent users",
 "The LRU cache has no test of its own, and the storage tests never fill it.",
 ["cache/LRU.go"],[("LRUCache Get/Put","cache/LRU.go")],
 [("pages","recency list","LRUCache"),("cache","key -> list element","LRUCache")],["cache.LRUCache Get/Put"])

prop("C13", "Asynchronous caches make every put visible in time, last write winning",
 "For both asynchronous maps (the copy-on-write one and the channel-fed locked one), three seconds after a put and from then on a get of its key returns the value of the last put applied for it, whatever was put before, between or to other keys; keys never put are reported absent and no put is lost or blocks for ever. Values returned earlier and snapshots seen by readers never change, and concurrent readers and writers are safe.",
 ["histories","schedules"], "every history of puts, gets and waits, any number of keys and concurrent users",
 "One test puts three keys and sleeps; the channel-fed map is only used by benchmarks.",
 ["cache/RCU.go","cache/Map.go"],
 [("writer loop with 3 s ticker","cache/RCU.go writer"),("writer loop","cache/Map.go writer")],
 [],["cache.RCU, cache.SyncMap Get/Put"])

prop("C14", "The sharded map keeps every key reachable and separate",
 "For every positive number of fragments each key is always served by the same fragment, some fragment serves every key, and a value set under a key through its fragment is the one later read under that key, unaffected by other keys. Concurrent users are safe.",
 ["histories","configurations","inputs","schedules"], "every fragment count >= 1, every key, every history of sets and gets",
 "One test uses three fragments and four one-letter keys.",
 ["cache/Shard.go","cache/LocalMap.go"],
 [("getShardId","cache/Shard.go"),("LocalMap","cache/LocalMap.go")],[],["cache.Shard Get, cache.LocalMap Get/Set/GetData"])

prop("C15", "Any document id and field name is stored faithfully inside the data folder",
 "Whatever bytes a document id or field name consists of (path separators, dots, reserved or suffix-like names, empty, percent signs, control characters, longer than a file name can be), indexing it neither fails nor ends the process, creates or changes nothing outside the store's root folder, and never affects what is stored for another id or field. After 20 seconds and a restart it is read back under exactly that id and field.",
 ["inputs","histories"], "every set of document ids and field names",
 "The tests use ids 1 to 5 and the field names Id, name, summary.",
 ["storage/DiskIO.go","file/File.go"],
 [("paths built from ids and field names","storage/DiskIO.go"),("directory listing as field list","file/File.go ListDirectories")],
 [],["files below and outside the root folder; Storage interface after restart"],
 "none in /repo: file operations are observed through a build overlay of package os")

prop("C16", "Indexing and searching from many goroutines at once is safe and loses nothing",
 "Any number of goroutines may save documents, read and search the same store at once, alongside the background flushing and merging: nothing races, panics, ends the process or blocks for ever. A search returns every matching document whose indexing finished before it started and none whose indexing had not started when it ended; once all are done the store answers as after the same saves one by one, also after a restart.",
 ["schedules","histories"], "every set of concurrent scripts of saves, reads and searches, every alignment with the background timers, both stores",
 "All tests are single-threaded, although the HTTP server serves requests concurrently.",
 ["storage/DiskStorage.go","storage/Memory.go","storage/DiskIO.go","index/InvertedIndex.go","search/Standard.go","cache/LRU.go"],
 [("store locking","storage/DiskStorage.go, storage/Memory.go"),("LRU locking","cache/LRU.go"),("hand-over to writer goroutines","storage/DiskIO.go")],
 [],["race detector, Storage interface, search results"])

prop("C17", "The HTTP service indexes valid documents and answers queries with the best ten",
 "A POST of a JSON document with a non-empty id is acknowledged with 201 and from then on the document is searchable by the words of its title and text; malformed JSON or a missing id is answered 400 and changes nothing. A GET answers 200 with the best-ranked min(10, matches) documents in rank order, each with its id and score (title and text scores added), and the service keeps answering whatever requests it gets, also at the same time (without data races), and after a restart.",
 ["histories","inputs"], "every sequence of well-formed and malformed requests with distinct document ids, any texts and queries",
 "There is no test of the service.",
 ["main.go","search/Standard.go","index/InvertedIndex.go","storage/DiskStorage.go"],
 [("handlers","main.go main"),("Preprocessing","main.go")],[],["HTTP on the built binary"])

prop("C18", "Saving a field of a document again replaces its old version",
 "After a field of an already indexed document is saved again, the document's field value is the new one, and field sizes, total lengths, document counts per term and posting sets are those of a corpus that holds only the newest version of every field. This holds in both stores and after a restart.",
 ["histories"], "every history of saves with repeated (document, field) pairs",
 "No test saves a document twice.",
 ["storage/Memory.go","storage/DiskStorage.go","storage/DiskIO.go"],
 [("SaveOrUpdate","storage/Memory.go, storage/DiskStorage.go")],[],["storage.Storage interface"])

prop("C19", "Saving a file securely replaces it in one step or not at all",
 "At every instant during a secure save, and after a crash at any instant, the named file holds either its complete old contents or its complete new contents (absent only if it did not exist before and the save has not finished); after the save returns it holds the new contents, no helper file of the save remains and no other file in the folder has changed. Concurrent readers see only complete versions.",
 ["crash_points","inputs","schedules"], "every sequence of saves of any contents under any file names, every crash point and torn write, every reader interleaving",
 "The function is only reached indirectly, and only its final result is ever looked at.",
 ["file/File.go"],
 [("write to a helper file, then rename","file/File.go SecureSaveFile")],[],["directory contents at each file operation"],
 "none in /repo: file operations are observed through a build overlay of package os")

prop("C20", "Documents appended to the test-collection file are read back in order",
 "Reading the collection file returns exactly the documents appended to it, in order and with every field unchanged, both as raw JSON lines and as parsed documents, for any texts including line breaks, quotes and non-ASCII characters. A document's raw line parses to the same document.",
 ["inputs","histories"], "every list of documents with valid UTF-8 fields, appended in any number of openings",
 "No test touches the collection file (its data file is not in the repository).",
 ["testecolection/Teste.go"],
 [("GravarLinhasNoArquivo, GetTextDocuments, GetDocuments","testecolection/Teste.go")],[],["testecolection functions in a scratch working directory"])

prop("C21", "The index layer reports exactly the statistics and fields search needs",
 "Indexing a document stores each of its fields, and an index lookup for a term list and field returns the field of every document holding at least one of the terms and no other, the number of documents with the field, its average length (for a field that has documents) and, for exactly the asked terms, the number of documents holding them. Memory and disk stores give identical results for identical histories.",
 ["histories","inputs","configurations"], "every history of documents with any number of fields and documents, every term list, both stores, every cache capacity",
 "No test calls the index layer.",
 ["index/InvertedIndex.go","storage/DiskStorage.go","storage/Memory.go"],
 [("IndexDocument, Search","index/InvertedIndex.go")],[],["index.Index"])

prop("C22", "The document set behaves as a mathematical set",
 "For every sequence of additions and removals a set contains exactly the elements added and not removed since, reports their number as its size, lists exactly them, and additions and removals of one set never show in another.",
 ["histories"], "every sequence of additions, removals and membership questions on several sets",
 "No test calls the set directly beyond Size and GetData of three fixed sets.",
 ["model/Set.go"],[("Set","model/Set.go")],[],["model.Set"])

prop("C23", "Reading and searching never change any later answer",
 "Between two saves any number of reads and searches, in any order and by any route, leaves every later read and search answer, and every answer already given, unchanged, does not modify the caller's query or term lists, and leaves what a restart finds unchanged. Repeating a search returns the same documents with the same scores, and changing a returned set of documents or map of fields does not change the store.",
 ["histories","configurations"], "every history mixing saves, reads, searches, waits and restarts; both stores; every cache capacity",
 "No test reads twice or compares answers before and after other reads.",
 ["storage/DiskStorage.go","storage/Memory.go","index/InvertedIndex.go","search/Standard.go","cache/LRU.go"],
 [("read paths with a read-through cache","storage/DiskStorage.go GetFields"),("search fan-out","search/Standard.go, index/InvertedIndex.go")],[],["storage.Storage, search.Search"])

prop("C24", "Failing file operations lose nothing durable and invent nothing",
 "When file operations of a disk store fail (full disk, input/output errors, missing permission, too many open files, writes done in part) while it opens, flushes, merges, saves or reads, it may refuse to open or end the process, but it does not hang. Once operations succeed again the directory opens, answers for everything saved 20 seconds or more before the first failure, and invents nothing. If the process went on instead, then once operations succeed again its answers are those of everything saved, and all of it is durable 20 seconds later.",
 ["fault_sequences","histories"], "every history of saves and waits; every choice of file operations that fail, for once, a while or for good",
 "No test lets a file operation fail.",
 ["storage/DiskStorage.go","storage/DiskIO.go","file/File.go"],
 [("error paths of flushes and merges","storage/DiskIO.go Save*, LoadIndexOnHD"),("reading a document back before a save","storage/DiskStorage.go UpdateFieldDocument"),("cleaning up after a failed save","file/File.go SecureSaveFile")],[],
 ["storage.NewDiskStore and the Storage interface, while and after file operations fail"],
 "none in /repo: failures are injected through a build overlay of package os")

prop("C25", "The feed becomes the collection: one document per entry, or no change",
 "When the feed service answers with a well-formed feed, the collection file is replaced by one document per entry, in the feed's order, with exactly the entry's title, summary and an author's name (however the XML spells them, in whatever pieces it arrives) and an id that is not empty and not used before; read back, flattened, analysed and indexed, every document is found under its fields. When the request fails or the answer is cut off or no well-formed feed, the collection stays as it was and the call returns.",
 ["inputs","fault_sequences"], "every feed and every way to write it in XML; every failure of the request or cut of the answer",
 "The tests never run this code: it needs the network.",
 ["testecolection/Teste.go","field/FieldProcess.go"],
 [("fetch, parse, write","testecolection/Teste.go CriarArquivo/GetArvixData"),("read back","testecolection/Teste.go GetDocuments/GetTextDocuments"),("line to fields","field/FieldProcess.go")],[],
 ["testecolection/arxiv.txt and GetDocuments after CriarArquivo"])

prop("C26", "Stores of one process do not influence each other",
 "Any number of stores in one process, in memory and on different folders (siblings, folders whose names extend each other, folders named like a store's own files), used alternately with the same document ids, field names and terms, each answer at all times, and after restarts, exactly from their own saves.",
 ["histories","configurations"], "every interleaving of operations on several stores; every set of folders of which none lies inside another",
 "The tests open one store at a time.",
 ["storage/DiskStorage.go","storage/DiskIO.go","storage/Memory.go","cache/LRU.go"],
 [("state of a store","storage.Disk, storage.DiskIO, storage.Memory"),("paths below the root","storage/DiskIO.go")],[],["storage.Storage interface of each store"])

prop("C27", "Searches, reads and idle time leave nothing behind",
 "Repeating searches, lookups and reads leaves no goroutine and no open file behind and takes no lasting memory, and neither does asking for any number of unknown ids, fields or terms, on both stores. However many documents a disk store saves and reads, once they are written it keeps the contents of no more of them in memory than its cache capacity. Saving documents to a disk store leaves, once it has been idle for 35 seconds, one file per document and a number of files per field that does not depend on how many saves or flushes there were; the files of an idle store stay the same.",
 ["histories"], "every store contents and every repeated mix of operations",
 "The tests do everything once and look only at results.",
 ["index/InvertedIndex.go","search/Standard.go","storage/DiskIO.go","storage/DiskStorage.go"],
 [("goroutines of a search","index/InvertedIndex.go Search, search/Standard.go Search"),("fragments merged and removed in the background","storage/DiskIO.go LoadIndexOnHD, storage/DiskStorage.go NewDiskStore"),("helper files","file/File.go SecureSaveFile")],[],
 ["goroutine count, open files, files in the folder, heap"])

prop("C28", "Adding to the index alone adds postings, for good, and nothing else",
 "UpdateIndex makes the document appear, at once, in the posting set of every term of the field on both stores, and a disk store keeps that like any save: it is merged, and found again after 20 seconds and a restart. Other postings, document fields and document counts per term stay as they were; the memory store also counts the field's size and length, the disk store does not. A search never returns a document for a field that was only indexed. It may be mixed, in any order and from several goroutines, with saves, reads and searches, for the same and other documents.",
 ["histories","schedules"], "every history and schedule of index additions, saves, reads, searches, waits and restarts; both stores",
 "The tests call UpdateIndex with a handful of entries and look at set sizes; they never mix it with saves or reads by others.",
 ["storage/Memory.go","storage/DiskStorage.go","storage/DiskIO.go"],
 [("postings added under the store's lock","storage/Memory.go UpdateIndex, storage/DiskStorage.go UpdateIndex"),("fragments written and merged","storage/DiskIO.go SaveIndexOnDisk, LoadIndexOnHD")],[],
 ["storage.Storage interface"])

prop("C29", "A damaged file of a store is never taken for other data",
 "When bytes of a stored file (merged index, index fragment, field metrics, term counts, document) are altered, lost or added, opening the store, reading from it or saving a further field of a document either fails or goes on as if nothing had happened: no answer differs from what was saved, except that a document that cannot be read may be reported absent. A damaged index, metrics or counts file never opens as an emptier or different one.",
 ["fault_sequences","histories"], "every history; every change to the bytes of the files it left",
 "No test alters a file.",
 ["file/File.go","storage/DiskIO.go","storage/Serialize.go"],
 [("gzip with its checksum and length","file/File.go CompressData/DecompressData"),("load at start","storage/DiskIO.go Load*OnHD")],[],
 ["storage.NewDiskStore on the altered folder, then the Storage interface"])

prop("C30", "A store's folder keeps its format, so that builds can follow one another",
 "A folder in the format of the schemas and the present layout (a folder per field, named by the escaped field name, with gzip-compressed flatbuffers tables for metrics, with or without the 64-bit total, term counts, merged index and any number of pending fragments; a file per document, named by the escaped id), in whatever order its entries are, whether equal texts are shared and however well it is compressed, opens and answers for exactly what it holds, and goes on to be used like any other. Twenty seconds after its last save the folder of a store is of this format, and read by the format alone holds exactly what was saved.",
 ["histories","configurations"], "every record of saves, and every way to write it that the format allows; every history that continues it",
 "The tests write and read with the same code and keep no folder between two builds: a change made on both sides passes them and loses every existing store.",
 ["storage/Serialize.go","storage/buffers","storage/DiskIO.go","file/File.go","file/Name.go","schema"],
 [("tables and their slots","schema/*.fbs, storage/buffers/*.go, storage/Serialize.go"),("layout and names","storage/DiskIO.go fieldPath, file/File.go constants, file/Name.go"),("compression","file/File.go CompressData/DecompressData")],[],
 ["the files below the root folder; storage.NewDiskStore on a folder written by others"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
