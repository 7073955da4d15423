#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

# ---------------------------------------------------------------- apt
prop("A01", "Matching a file descriptor checks path, size and every recorded digest",
 "A file descriptor matches another only if the paths are equal, the sizes are equal, and every digest (MD5, SHA-1, SHA-256) recorded in the expected descriptor is equal to the one of the other. When all of these agree they do match.",
 ["inputs"], "all pairs of descriptors, including ones with some digests absent",
 "TestFileInfo/Same samples ten pairs; most combinations of present, absent and differing digests never occur in a test.",
 ["apt/fileinfo.go"], [("FileInfo.Same", "apt/fileinfo.go")],
 [("FileInfo", "path, size, three optional digests", "apt/fileinfo.go")], ["result of Same"])
prop("A02", "Computed descriptors describe exactly the bytes that were copied",
 "The descriptor computed while copying a stream carries the given path, the number of bytes copied, and each digest computed with its own algorithm over exactly the bytes that were delivered to the destination; if the copy fails no descriptor is produced. Calculating the checksums of a block of data in memory likewise sets the size and all three digests from that data.",
 ["inputs", "fault_sequences"], "all streams, read and write failures at any point",
 "The test copies one short string without failures.",
 ["apt/fileinfo.go"], [("CopyWithFileInfo", "apt/fileinfo.go"), ("CalcChecksums", "apt/fileinfo.go")])
prop("A03", "Each digest of an index entry comes from its own checksum field",
 "When Release, InRelease, i18n Index, Packages or Sources files are parsed, the MD5, SHA-1 and SHA-256 digests, the size and the path of an entry come from the fields the Debian repository format defines for them, and never from a field of another kind. The by-hash location of a digest is in the by-hash directory of that digest's kind and next to the file itself.",
 ["inputs"], "all index files of every kind, with any subset of checksum fields present",
 "Tests compare a handful of entries in four sample files.",
 ["apt/meta.go", "apt/fileinfo.go"], [("getFilesFromRelease", "apt/meta.go"), ("getFilesFromPackages", "apt/meta.go"), ("getFilesFromSources", "apt/meta.go"), ("MD5SumPath/SHA1Path/SHA256Path", "apt/fileinfo.go")])
prop("A04", "Saved descriptors are restored unchanged",
 "A descriptor encoded to JSON and decoded again has the same path, size and digests, each digest in its own kind; a digest that was absent is still absent afterwards. Malformed JSON or malformed digests are reported as errors.",
 ["inputs"], "all descriptors, including ones with absent digests",
 "The test round-trips a single descriptor with all digests.",
 ["apt/fileinfo.go"], [("MarshalJSON", "apt/fileinfo.go"), ("UnmarshalJSON", "apt/fileinfo.go")])
prop("A05", "A damaged index is an error, never a shorter list",
 "Extracting the entries of an index reports an error whenever decompression, reading, or parsing of any part fails: an I/O error, an over-long or malformed line, a missing mandatory field, a malformed size or digest. It never returns a list of entries without an error in such a case.",
 ["inputs", "fault_sequences"], "all byte streams, with read errors at any point",
 "Tests only parse well-formed sample files; no test has a truncated, malformed or failing stream.",
 ["apt/parser.go", "apt/meta.go"], [("Parser.Read", "apt/parser.go"), ("ExtractFileInfo", "apt/meta.go")])
prop("A06", "No entry listed in a well-formed index is dropped",
 "Every file listed in an index is in the list extracted from it, except that a Release file's entries for Release, Release.gpg and InRelease in its own directory are ignored. Extraction goes through all paragraphs of the file and all lines of all checksum fields.",
 ["inputs"], "all index files of any length and shape",
 "Tests count the entries of a few fixed sample files.",
 ["apt/meta.go"], [("getFilesFromRelease", "apt/meta.go"), ("getFilesFromPackages", "apt/meta.go"), ("getFilesFromSources", "apt/meta.go")])
prop("A07", "The control-file parser accounts for every line",
 "Each line of a control file is a comment, an empty line that separates paragraphs, part of the PGP armor, a new field, or a continuation of the latest field of the same paragraph; anything else is an error, and the values of every field are kept in order. End of file is reported only when the input has ended, no matter how many empty lines separate paragraphs, and never when reading has failed.",
 ["inputs"], "all byte streams",
 "Tests parse three well-formed files with single separators.",
 ["apt/parser.go"], [("Parser.Read", "apt/parser.go")],
 [("lastField", "field that continuation lines belong to", "apt/parser.go")])
prop("A08", "Index recognition, compression support and decoding agree",
 "Every file name that is recognized as an index with a supported compression is decoded with the decompressor of its extension and by the parser of its base name; the other compressions are recognized as indices but reported as unsupported, and extracting from them or from a non-index is an error.",
 ["inputs"], "all combinations of index base name, compression extension and directory",
 "TestIsMeta samples some names; support and decoding tables are tested with three extensions in all.",
 ["apt/meta.go"], [("IsMeta", "apt/meta.go"), ("IsSupported", "apt/meta.go"), ("ExtractFileInfo", "apt/meta.go")])

# ---------------------------------------------------------------- cacher
prop("K01", "The cache serves only items that match the known checksum",
 "A cached file is handed to a client with status 200 only if the stored item matches the checksum information currently known for the requested path. Items whose checksums are not calculated yet are calculated from the stored file itself before the comparison, and what is handed out is the file stored for that very path.",
 ["inputs", "histories"], "all requests after any history of downloads, refreshes, evictions and restarts",
 "No test exercises Get or Lookup with a mismatching or uncalculated checksum.",
 ["cacher/cacher.go", "cacher/storage.go"], [("Cacher.Get", "cacher/cacher.go"), ("Storage.Lookup", "cacher/storage.go")],
 [("info", "known checksum information by path", "cacher/cacher.go"), ("cache", "stored items by path", "cacher/storage.go")])
prop("K02", "Only complete and verified downloads enter the cache",
 "An item is put in the cache only if the upstream answered 200 to the request for that item, the whole body was copied without error and flushed to disk, and the copied data match the expected checksum whenever the requester gave one. The item is stored under its own path with the checksums computed from the copied data, in the metadata store if and only if it is an index.",
 ["inputs", "fault_sequences", "histories"], "all upstream responses and I/O failures",
 "There are no tests of downloading at all.",
 ["cacher/cacher.go"], [("download", "cacher/cacher.go")])
prop("K03", "An index and the checksums it lists take effect together",
 "When an index is cached, all the entries extracted from it become the known checksums of the files they name, under the prefix of the repository the index belongs to, in the same critical section in which the index itself is stored and becomes servable. Entries that would refer to items outside the prefix have no effect.",
 ["schedules", "inputs"], "all interleavings of requests with index downloads; all index contents",
 "No test downloads an index or interleaves requests with one.",
 ["cacher/cacher.go"], [("download", "cacher/cacher.go"), ("addPrefix", "cacher/cacher.go")],
 [("info", "known checksum information by path", "cacher/cacher.go")])
prop("K04", "A download never replaces a newer known checksum with an obsolete one",
 "If the checksum known for a path has changed while a download for it was in progress, the downloaded data are stored and become the known ones only if they match the checksum known at that time. The periodic refresh of Release files is the exception, as it exists to replace what is known.",
 ["schedules"], "all interleavings of item downloads with index downloads",
 "No test runs downloads concurrently.",
 ["cacher/cacher.go"], [("download", "cacher/cacher.go")])
prop("K05", "Cache size accounting is exact and the capacity is enforced",
 "The total size the cache keeps always equals the sum of the sizes of the items it holds: each insertion, replacement, deletion and eviction changes the total, the index of items and the eviction queue together and by that item's size. After every insertion and after loading, items are evicted, along with their files, until the total is within the capacity, and capacity zero means no eviction.",
 ["histories"], "all sequences of load, insert, lookup, delete and evict",
 "Storage tests run two or three short fixed sequences.",
 ["cacher/storage.go"], [("Storage.Insert", "cacher/storage.go"), ("Storage.Delete", "cacher/storage.go"), ("Storage.maint", "cacher/storage.go"), ("Storage.Load", "cacher/storage.go")],
 [("used", "total size", "cacher/storage.go"), ("cache", "items by path", "cacher/storage.go"), ("lru", "heap of items", "cacher/storage.go")])
prop("K06", "Eviction takes the least recently used item first",
 "Every insertion and every successful lookup makes that item the most recently used one, and eviction always removes the item used the longest ago. The position each item records for itself in the eviction queue is always right.",
 ["histories"], "all sequences of insert, lookup, delete and evict",
 "One test checks a single eviction order.",
 ["cacher/storage.go"], [("Storage.Less/Swap/Push/Pop", "cacher/storage.go"), ("Storage.Lookup", "cacher/storage.go")],
 [("lclock", "logical clock", "cacher/storage.go"), ("atime", "last use of an item", "cacher/storage.go")])
prop("K07", "Shared state is accessed only under its lock",
 "Every access to state that the cache server or a mirror shares between goroutines (known checksums, ongoing downloads, results, connection slots, the item index, its queue, clock and total, a mirror's stored-file table) happens while the lock of that state is held, and every modification while it is held exclusively.",
 ["schedules"], "all interleavings of requests, downloads, refreshes and maintenance",
 "The race detector only sees the schedules of tests, and no test runs the cacher or a mirror concurrently.",
 ["cacher/cacher.go", "cacher/storage.go", "mirror/storage.go"], [("fiLock, dlLock, hostLock", "cacher/cacher.go"), ("Storage.mu", "cacher/storage.go"), ("Storage.mu", "mirror/storage.go")])
prop("K08", "Locks are always released and never held while waiting",
 "Every lock acquired in an operation is released on every way out of it, no lock is acquired twice or in an order that can deadlock with another operation, and no operation waits for the network, for a timer, for a download to end, or for a connection slot while it holds a lock.",
 ["schedules", "fault_sequences"], "all paths through all operations, including failures",
 "A leaked or inverted lock only shows on error paths and interleavings that no test takes.",
 ["cacher/cacher.go", "cacher/storage.go", "mirror/storage.go"], [("fiLock, dlLock, hostLock", "cacher/cacher.go"), ("Storage.mu", "cacher/storage.go"), ("Storage.mu", "mirror/storage.go")])
prop("K09", "One download per item at a time, and all waiters are released",
 "At most one download is in progress for a path, and every other request for the path waits for that one. However a download ends, its result is recorded, the path becomes available for a new download, and every waiter is released exactly once, in this order.",
 ["schedules", "fault_sequences"], "all interleavings of requests for the same path; all ways a download can end",
 "No test starts a download.",
 ["cacher/cacher.go"], [("Download", "cacher/cacher.go"), ("download", "cacher/cacher.go")],
 [("dlChannels", "ongoing downloads by path", "cacher/cacher.go"), ("results", "recent results by path", "cacher/cacher.go")])
prop("K10", "Connections to an upstream host never exceed the configured limit",
 "While the cacher has an upstream response of a host open it holds one of the connection slots of that host, of which there are exactly as many as configured; every slot that is taken is given back exactly once, however the download ends. With the limit set to zero nothing waits for a slot.",
 ["schedules", "fault_sequences", "configurations"], "all interleavings and ends of downloads, all limits",
 "No test starts a download or configures a limit.",
 ["cacher/cacher.go"], [("acquireSemaphore, releaseSemaphore", "cacher/cacher.go")],
 [("hostSem", "slots by host", "cacher/cacher.go")])
prop("K11", "A failed download gives its waiters an error status, not a retry loop",
 "When a download ends without the item being cached, the status recorded for it is not 200: it is the upstream's status if that was not 200 and an internal error otherwise, and requests get that status without another upstream request until the configured period has passed, after which the record is removed. Status 200 is recorded only when the item was stored, or discarded in favour of a newer checksum.",
 ["fault_sequences", "histories"], "all ways a download can fail",
 "No test has a failing upstream.",
 ["cacher/cacher.go"], [("download", "cacher/cacher.go"), ("Get", "cacher/cacher.go")],
 [("results", "recent results by path", "cacher/cacher.go")])
prop("K12", "Requests are mapped to the right HTTP answers",
 "Only GET and HEAD are served and other methods get 501; a path under no registered prefix and an index with an unsupported compression get 404 without contacting the upstream or the cache; an error is answered with its error status and never with a body of the item. HEAD answers carry the size of the item and no body, and the file is closed after each answer.",
 ["inputs"], "all methods, paths and outcomes",
 "There are no tests of the HTTP handler.",
 ["cacher/handler.go", "cacher/cacher.go"], [("ServeHTTP", "cacher/handler.go"), ("Get", "cacher/cacher.go")])
prop("K13", "No request or index can reach outside the cache directories",
 "Every file that the cacher creates, opens or removes for an item lies under the configured cache or metadata directory, whatever path a client requests: request paths are reduced to clean relative paths that cannot go up, and storing under a path that is not such a path is refused before anything is touched. An empty or oddly slashed request path is answered like any other.",
 ["inputs"], "all request paths",
 "Tests try four bad paths on insertion and none on the handler.",
 ["cacher/handler.go", "cacher/storage.go"], [("ServeHTTP", "cacher/handler.go"), ("Storage.Insert", "cacher/storage.go")])
prop("K14", "A restart recovers the cache and what it knew",
 "On start the cacher loads every cached item with its path and size, learns again all the checksums listed in every cached index, under the prefix of that index, and resumes refreshing the cached Release files whose checksum no index lists. A cached index that cannot be parsed does not keep it from starting, while a failure to read the cache does.",
 ["histories", "crash_points"], "all cache contents left by any earlier run",
 "TestStorageLoad loads three files; no test restarts a cacher.",
 ["cacher/cacher.go", "cacher/storage.go"], [("NewCacher", "cacher/cacher.go"), ("Storage.Load", "cacher/storage.go")])
prop("K15", "Release files are refreshed periodically, and only they unconditionally",
 "Once a Release or InRelease file whose checksum no index lists is cached, it is downloaded again at every check interval until shutdown, Release together with its detached signature, without requiring that its contents stay the same. No other download is started without the checksum that is known for the item.",
 ["histories", "schedules"], "all histories of requests and intervals",
 "No test runs the refresh.",
 ["cacher/cacher.go"], [("maintMeta, maintRelease", "cacher/cacher.go"), ("Get", "cacher/cacher.go")])
prop("K16", "Temporary files, response bodies and file handles do not leak",
 "Every temporary file is closed and removed by the operation that opened it or received it with a result, every upstream response body is closed and every opened file is closed or handed over to the caller, on every path including errors and retries, both in the cacher and in the mirror. Results that a failed mirror run does not receive are left in the new tree, which the next run cleans up.",
 ["fault_sequences", "histories"], "all paths, failures and retries",
 "Leaks show on error paths and after long runs; no test looks for them.",
 ["cacher/cacher.go", "cacher/storage.go", "cacher/handler.go", "mirror/mirror.go", "mirror/dirsync.go", "mirror/storage.go"], [("deferred cleanups", "cacher/cacher.go"), ("closeAndRemoveFile, closeRespBody", "mirror/mirror.go")])
prop("K17", "Upstream requests go only to the configured upstream of the prefix",
 "A path is mapped to the upstream registered for its first component, by resolving the rest of it as a path relative to that URL, so that no request can choose another scheme or host. Registration accepts only valid prefixes and makes the base a directory; only http and https upstreams are accepted.",
 ["inputs", "configurations"], "all request paths and mappings",
 "TestURLMap tries a few well-formed paths.",
 ["cacher/urlmap.go", "cacher/cacher.go", "mirror/config.go"], [("URLMap.URL", "cacher/urlmap.go"), ("URLMap.Register", "cacher/urlmap.go"), ("MirrConfig.Resolve", "mirror/config.go")])

# ---------------------------------------------------------------- mirror
prop("M01", "A published mirror is switched atomically",
 "The public name of a mirror changes only by renaming, over it, a fresh symbolic link that leads to the directory of the new tree; it is never removed, written in place or pointed elsewhere. Until that rename clients see the previous tree unchanged.",
 ["crash_points", "schedules"], "a crash or a reader at any point of an update",
 "No test updates a mirror.",
 ["mirror/mirror.go"], [("replaceLink", "mirror/mirror.go")])
prop("M02", "A mirror is published only if everything it needs succeeded",
 "The switch to a new tree happens only if every suite was processed, every download, store, extraction and sync on the way succeeded, and the list of stored files was saved. Any failure, including cancellation, leaves the previously published tree in place and is reported to the caller.",
 ["fault_sequences"], "a failure of any single step of an update",
 "No test makes any step of an update fail.",
 ["mirror/mirror.go", "mirror/storage.go", "mirror/control.go"], [("Update", "mirror/mirror.go"), ("downloadFiles", "mirror/mirror.go"), ("Storage.Save", "mirror/storage.go")])
prop("M03", "A published mirror survives a crash",
 "Before the public name is switched, every newly downloaded file, the saved list of files and every directory of the new tree, including the one that holds the new symbolic link, have been synced to disk without error; after the switch the directory that holds the public name is synced too. A file is synced after its last write and before it is linked into the tree.",
 ["crash_points"], "a crash at any point of an update",
 "Tests cannot crash the machine; they only check that syncing a directory returns no error.",
 ["mirror/mirror.go", "mirror/storage.go", "mirror/dirsync.go"], [("Storage.Save", "mirror/storage.go"), ("DirSyncTree", "mirror/dirsync.go"), ("replaceLink", "mirror/mirror.go")])
prop("M04", "A mirror stores only verified files",
 "A downloaded file enters a mirror only if the server answered 200, its whole body was received and synced, and it matches the checksum that the index gave for it; a file is taken over from the previous tree only if the checksums recorded there match. The checksums recorded for a stored file are those computed from its contents, and a retry never reports data of an earlier attempt.",
 ["inputs", "fault_sequences"], "all server responses and failures, all previous trees",
 "No test downloads anything.",
 ["mirror/mirror.go", "mirror/storage.go"], [("download", "mirror/mirror.go"), ("handleResult", "mirror/mirror.go"), ("reuseOrDownload", "mirror/mirror.go")])
prop("M05", "Only one mirror process works on a directory at a time",
 "Nothing in the mirror directory other than the lock file is created, changed or removed unless the exclusive lock of the directory is held, and the lock is held until all updates and the clean-up have ended. If the lock is taken by another process the run fails immediately without touching anything.",
 ["schedules"], "all interleavings of two processes",
 "TestFlock checks the lock itself, not what it protects.",
 ["mirror/control.go", "mirror/flock.go"], [("Run", "mirror/control.go"), ("Flock.Lock", "mirror/flock.go")])
prop("M06", "Clean-up never removes a published tree",
 "The clean-up removes only entries of the mirror directory that are not the lock file, not a symbolic link, and not the directory that a symbolic link there leads to; if any link cannot be resolved, nothing is removed. It runs only after all updates of the run have ended.",
 ["histories", "fault_sequences"], "all contents of the mirror directory, including ones left by crashes",
 "There is no test of the clean-up.",
 ["mirror/control.go"], [("gc", "mirror/control.go")])
prop("M07", "A published mirror has every file that its indices list",
 "Every matching index that a Release file lists is fetched, every file listed in the fetched matching indices of every configured suite is fetched or taken over, and each of them is stored in the tree before it is published. What is tolerated is a variant of a Release file that the server answers with a 4xx status and an index that it answers with 404; a missing non-index file is an error.",
 ["inputs", "fault_sequences"], "all repositories and server responses",
 "No test mirrors a repository.",
 ["mirror/mirror.go"], [("updateSuite", "mirror/mirror.go"), ("extractItems", "mirror/mirror.go"), ("downloadFiles", "mirror/mirror.go"), ("recvResult", "mirror/mirror.go")])
prop("M08", "A mirror's concurrent downloads never exceed max_conns",
 "Each download of a mirror holds one of exactly max_conns connection slots from before its request until its response is closed, and gives it back exactly once however it ends; a cancelled wait for a slot ends the update. With max_conns zero downloads do not wait.",
 ["schedules", "fault_sequences", "configurations"], "all interleavings, retries and limits",
 "No test downloads anything.",
 ["mirror/mirror.go"], [("acquireSemaphore, releaseSemaphore", "mirror/mirror.go"), ("download", "mirror/mirror.go")],
 [("semaphore", "connection slots", "mirror/mirror.go")])
prop("M09", "Files of the published tree are never modified",
 "An update never writes, truncates, changes the mode of, renames or removes anything in the previously published tree; files taken over from it are hard-linked. Everything an update writes is a new file in its own new directory, and a file is never written again after it was linked into the tree.",
 ["crash_points", "histories"], "all updates, at any point",
 "No test updates a mirror over an existing one.",
 ["mirror/mirror.go", "mirror/storage.go"], [("StoreLink", "mirror/storage.go"), ("TempFile", "mirror/storage.go")])
prop("M10", "No index can make a mirror write or read outside its tree",
 "Every path at which a mirror stores, looks up or opens an item lies under the tree of that mirror, whatever paths a remote index contains. Mirror IDs that are not plain names are refused.",
 ["inputs"], "all remote index contents",
 "Tests store well-behaved paths only.",
 ["mirror/storage.go", "mirror/mirror.go"], [("Storage.fullpath", "mirror/storage.go"), ("NewMirror", "mirror/mirror.go")])
prop("M11", "By-hash repositories are mirrored with all their by-hash files",
 "By-hash is used for a suite only if every fetched Release or InRelease file of it says so. Then each stored index is available at its by-hash location for all three digests, and at its canonical path unless another version of it already is; without by-hash support two different checksums for one path are an error.",
 ["inputs"], "all Release contents and orders of arrival",
 "TestStorage stores one file with by-hash; the decision is not tested.",
 ["mirror/mirror.go", "mirror/storage.go"], [("handleReleaseResults", "mirror/mirror.go"), ("addFileInfoToList", "mirror/mirror.go"), ("StoreLinkWithHash", "mirror/storage.go")])
prop("M12", "Bad configurations are refused before anything is done",
 "A mirror without URL or suites, with mixed flat and non-flat suites, with sections or architectures for a flat repository, with an unknown or invalid ID or a negative connection limit, and a cacher with a non-positive interval or capacity, a negative connection limit, relative or equal directories or a bad mapping are refused with an error before anything is downloaded. Both commands exit with an error status if their configuration is invalid or has unknown keys.",
 ["configurations"], "all configurations",
 "Config tests parse good configurations; few rejections are tested.",
 ["mirror/config.go", "mirror/mirror.go", "cacher/cacher.go", "cmd/go-apt-mirror/main.go", "cmd/go-apt-cacher/main.go"], [("MirrConfig.Check", "mirror/config.go"), ("NewMirror", "mirror/mirror.go"), ("NewCacher", "cacher/cacher.go"), ("main", "cmd/go-apt-mirror/main.go")])
prop("M13", "Download retries are bounded and can be interrupted",
 "A download is attempted a bounded number of times for each location, only transient failures (connection errors, server errors, broken bodies) and checksum mismatches with another location left are retried, and each attempt begins by checking for cancellation and is made under the cancellable context.",
 ["fault_sequences"], "all sequences of failures",
 "No test has a failing server.",
 ["mirror/mirror.go"], [("download", "mirror/mirror.go")])
prop("M14", "Every download that a mirror starts delivers exactly one truthful result",
 "Every download that was started delivers exactly one result, delivered before its connection slot is released, the consumer receives results until all downloads have ended, and the update as a whole succeeds only if the producer and the consumer both did. A failed download's result always carries its error or a status that is not 200.",
 ["schedules", "fault_sequences"], "all interleavings and ends of downloads",
 "No test downloads anything.",
 ["mirror/mirror.go"], [("download", "mirror/mirror.go"), ("reuseOrDownload", "mirror/mirror.go"), ("recvResult", "mirror/mirror.go")])

# ------------------------------------------------- outside of the technique
prop("N01", "Clients always see a consistent set of indices and packages",
 "A client that updates its package lists through the cacher while the upstream repository changes sees Release, index and package files that belong together.",
 ["schedules", "histories"], "all interleavings of client requests with upstream updates",
 "It quantifies over histories of several requests and over upstream behaviour.",
 ["cacher/cacher.go"], [("Get", "cacher/cacher.go"), ("maintRelease", "cacher/cacher.go")])
prop("N02", "Exactly the configured sections and architectures are mirrored",
 "An index is selected exactly if its path denotes one of the configured sections and architectures of the suite.",
 ["inputs", "configurations"], "all paths and configurations",
 "Tests sample a few paths.",
 ["mirror/config.go"], [("MatchingIndex", "mirror/config.go")])
prop("N03", "Time limits hold",
 "Upstream requests are ended within thirty minutes, refreshes happen once per interval and bad results are kept for the cache period, in wall-clock time.",
 ["schedules"], "all timings",
 "No test measures time.",
 ["cacher/cacher.go"], [("download", "cacher/cacher.go"), ("maintRelease", "cacher/cacher.go")])
prop("N04", "Items are delivered byte for byte",
 "The bytes that a client receives, or that are in the published tree, are the bytes that the upstream sent, for items of any size, at any disk or network speed.",
 ["inputs", "fault_sequences"], "all contents and sizes",
 "Tests copy short strings.",
 ["apt/fileinfo.go", "cacher/handler.go"], [("CopyWithFileInfo", "apt/fileinfo.go"), ("ServeHTTP", "cacher/handler.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
ids = set()
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["id"] not in ids
        ids.add(p["id"])
        f.write(json.dumps(p) + "\n")
print(len(P))
