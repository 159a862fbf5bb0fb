"""What each check runs and how its evidence is to be read."""
PROPS = {
    "C01": dict(level="exploration", subs=["history", "large", "huge"],
        rule="rapid draws a history of saves (each document field once) and reads over small pools of ids, fields and terms; "
             "non-trivial: at least two saves, and some term of some field is saved by two documents"),
    "C02": dict(level="exploration", subs=["history", "everystep", "large", "long"],
        rule="rapid draws a cache capacity and a history of saves, reads, searches and waits, run against a disk store under a fake clock; "
             "non-trivial: more documents are saved than the cache holds"),
    "C03": dict(level="exploration", subs=["sessions", "paths", "large", "long", "huge"],
        rule="rapid draws a history with restarts 20 fake seconds after the last save; in paths, each session spells the folder's path in another way or finds it moved or copied; "
             "non-trivial: a field receives saves in two different sessions, with a restart between them"),
    "C04": dict(level="fault_enumeration", subs=["crash"],
        rule="rapid draws up to three lives of a process on one folder; the folder as it is before every file operation of each life "
             "(start-up, flush, merge), and with the operation's write torn, is one crash point, thinned evenly beyond 48 per life; each is "
             "reopened twice and compared with what was durable and what was ever saved; inner evaluations count crash points; "
             "non-trivial: at some crash point of the case some saves are durable and some are not"),
    "C05": dict(level="exploration", subs=["large", "records", "compression"],
        rule="rapid draws posting lists, document field maps, counts and metrics over arbitrary strings (any bytes, up to 9 kB) and 32-bit counts, "
             "and byte strings up to 9 MB, plain or packed already (compression) and 160 MB (large); each goes through encode, compress, decompress, decode, and through every declared table with plain "
             "and size-prefixed roots; non-trivial: at least two terms, two fields and two counts (records), at least two bytes (compression), every case (large)"),
    "C06": dict(level="exploration", subs=["merge", "flush"],
        rule="rapid draws fragments (any number, overlapping, arbitrary terms and ids), merges, fragments that appear before the k-th file "
             "operation of a merge (merge), or entries sent to the background writer under a fake clock with merges and new processes between "
             "(flush); non-trivial: a merge of at least two fragments with a document in two of them (merge), at least two batches (flush)"),
    "C07": dict(level="exploration", subs=["small", "large"],
        rule="rapid draws a corpus and up to four lists of field queries (repeated and unknown terms and fields, up to 120 terms, boosts), searched "
             "in memory, on disk, after a flush and after a restart, with 1 to 4 processors; each result is compared with the reference ranking; "
             "inner evaluations count searches; non-trivial: at least two documents match"),
    "C10": dict(level="exploration", subs=["pipeline"],
        rule="rapid draws documents of two texts and queries from their words and others; results are compared with a reference chain and scores, "
             "and with those of rewritten queries (letter case, punctuation, stop words); inner evaluations count rewritten queries; "
             "non-trivial: a query finds a document"),
    "C15": dict(level="exploration", subs=["names"],
        rule="rapid draws a history with restarts over eight odd names (path parts, escapes, reserved words, arbitrary bytes, 60 to 66000 bytes long) used as ids and "
             "fields alike; every file operation is judged before it happens; non-trivial: a saved name has a special byte, is empty or reserved"),
    "C08": dict(level="exploration", subs=["laws"],
        rule="rapid draws corpus statistics (N up to 2^30, 0 <= df <= N, positive lengths), parameters k1 > 0, 0 <= b < 1, boosts >= 0 and a query; "
             "the score is compared with the formula and with scores of changed inputs; non-trivial: at least two distinct query terms, one of which occurs"),
    "C09": dict(level="exploration", subs=["tokens", "stages", "languages"],
        rule="rapid draws texts (words of many scripts, separators, arbitrary bytes) and token lists (stop words, stems, combining marks, up to 18 kB "
             "long words, invalid UTF-8); each stage is compared with a reference; non-trivial: at least two tokens (tokens), two different words "
             "(stages), a non-empty language name (languages)"),
    "C11": dict(level="exploration", subs=["flatten"],
        rule="rapid draws JSON objects nested up to four deep, and some up to 1500, with odd keys; objects with two leaves under one path are not judged; "
             "non-trivial: a nested object and at least two leaves"),
    "C12": dict(level="exploration", subs=["sequence", "concurrent"], race=True,
        rule="rapid draws a capacity and a sequence of puts and gets (sequence) or several of them for goroutines run under the race detector "
             "(concurrent); non-trivial: an entry is evicted (sequence), two goroutines put (concurrent)"),
    "C13": dict(level="exploration", subs=["sequence", "concurrent"], race=True,
        rule="rapid draws puts, gets, bursts and waits against either map under a fake clock and the race detector; non-trivial: a key is read "
             "after being overwritten (sequence), at least two goroutines (concurrent)"),
    "C14": dict(level="exploration", subs=["sequence", "concurrent"], race=True,
        rule="rapid draws a number of fragments (1..3000) and sets and gets of arbitrary keys, or several such scripts for goroutines under the "
             "race detector; non-trivial: several fragments in use and two keys in one (sequence), every case (concurrent)"),
    "C16": dict(level="exploration", subs=["between", "goroutines", "midfile"], race=True,
        rule="rapid draws scripts of saves, reads and searches for up to six goroutines on one store, waking at the ticks of the background work under "
             "a fake clock and the race detector (goroutines), or saves placed before chosen reads of one search (between); every read is judged by what "
             "was finished before it started and what had started before it ended; non-trivial: at least one saving and another goroutine (goroutines), "
             "a save takes place inside the search (between)"),
    "C17": dict(level="exploration", subs=["session", "races", "restarts"], server=True,
        rule="rapid draws sessions of requests (documents, bad and odd requests, queries, several at the same time) against the real server binary, ended "
             "by a kill in half of the cases (session), or with restarts 21.5 real seconds after the last post (restarts, six servers side by side), or of requests sent at the same time to a "
             "server built with the race detector (races); "
             "answers are compared with a reference analysis and ranking; inner evaluations count judged queries; non-trivial: a query has at least two matches"),
    "C18": dict(level="exploration", subs=["resave"],
        rule="rapid draws histories that save fields again, with waits and restarts, for both stores, compared after every operation; "
             "non-trivial: a field is saved twice"),
    "C19": dict(level="fault_enumeration", subs=["onestep", "concurrent"],
        rule="rapid draws folders with helper-like names and saves of contents up to 200 kB, some with a failing file operation; the file is judged "
             "before every file operation and in the middle of writes to it (onestep; inner evaluations), or read all the time while several "
             "goroutines save (concurrent); non-trivial: existing contents are replaced by others (onestep), several savers (concurrent)"),
    "C21": dict(level="exploration", subs=["index", "large"],
        rule="rapid draws documents of several fields, lookups of up to 100 terms, waits and restarts, run on both stores; inner evaluations count "
             "lookups; non-trivial: a lookup finds at least two documents"),
    "C23": dict(level="exploration", subs=["reads", "large"],
        rule="rapid draws phases of saves and then reads by every route whose results (and argument lists) are then overwritten; everything is "
             "compared after every read and after restarts, and so are the answers that the caller kept; non-trivial: a result is overwritten and at least two saves were made"),
    "C20": dict(level="exploration", subs=["file"],
        rule="rapid draws batches of documents over arbitrary valid UTF-8 texts (line breaks, quotes, control characters, up to 9 MB); "
             "non-trivial: at least two documents and a text with a line break or a quote"),
    "C22": dict(level="exploration", subs=["sets"],
        rule="rapid draws additions and removals of single elements and of up to 70 000 on three sets, and copies; non-trivial: an element that is present is removed"),
    "C24": dict(level="fault_enumeration", subs=["faults"],
        rule="rapid draws up to three lives of a process on one folder and, for each, which file operations fail (kind, path, how many succeed "
             "before, how many fail, error number, how much of a failing write is done), while opening too or only after it; whatever the life came to, "
             "the folder is then opened twice without failures; non-trivial: operations failed and some saves had to survive that"),
    "C25": dict(level="exploration", subs=["feed"],
        rule="rapid draws up to four answers of the feed service: feeds of 0 to 3000 entries, of up to 5 MB, written in all the ways XML allows (references, CDATA, "
             "comments, namespace prefixes, order, extra elements), delivered in pieces of any size, and failures (no connection, cut off, not "
             "well-formed, another document); non-trivial: a feed of at least two entries, or a failure after a feed with entries"),
    "C26": dict(level="exploration", subs=["at once", "stores"],
        rule="rapid draws two to four stores of one process (in memory and on neighbouring folders), a history for each over a common small pool of "
             "ids and fields, and how the histories interleave, with restarts; all stores are compared with their own records; "
             "non-trivial: two stores save the same field of the same document (stores), two stores have different histories (at once: a goroutine for each store)"),
    "C27": dict(level="exploration", subs=["leftovers", "bounded"],
        rule="rapid draws a store, a history, and a mix of searches, lookups, reads and saves that is repeated 20 to 60 times; goroutines, open files, files "
             "in the folder (after 35 idle fake seconds, and again after 140) and memory taken by questions about unknown names are measured before "
             "and after (leftovers); or many large documents in a store of small capacity, saved and read, and the memory it takes then (bounded); non-trivial: the history saves something (leftovers), "
             "all documents would take more than twice what is allowed (bounded)"),
    "C28": dict(level="exploration", subs=["memory", "disk", "together"], race=True,
        rule="rapid draws histories that mix saves, additions to the index alone, reads and searches, on either store with waits and restarts, compared "
             "with the record after operations (memory, disk), or scripts of several goroutines under the race detector, compared when all are done and after "
             "a restart (together); non-trivial: the history both saves and adds to the index (memory, disk), at least two goroutines (together)"),
    "C29": dict(level="fault_enumeration", subs=["damage"],
        rule="rapid draws a history and damage to one to three of the files it left (bits flipped, bytes cut off, overwritten, inserted, deleted or appended); then "
             "the folder is opened and everything is read; non-trivial: a file is damaged elsewhere than in the parts of its gzip header that mean nothing"),
    "C30": dict(level="exploration", subs=["format", "large"],
        rule="rapid draws a history; an encoder of the harness writes what its first operations saved into a folder, in one of the ways that the format "
             "allows; the rest runs on a store there, and after every session a decoder of the harness reads the folder; "
             "non-trivial: at least two saves are written by the harness and two by the store"),
}
