#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the hand-written property list lives here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

H, PG, PP, HF = "filehash/ffdb_hash.c", "filehash/ffdb_page.c", "filehash/ffdb_pagepool.c", "filehash/ffdb_hash_func.c"
API = ["ffdb_dbopen / db->put / db->get / db->cursor / db->sync / db->close return values and buffers"]

prop("C01", "A lookup returns exactly the value most recently stored under the key",
 "Within one session, after any sequence of stores and lookups, looking up a key that was stored returns success and exactly the bytes and length most recently stored under it by a store that reported success, and looking up a key never stored reports not-found. This holds for every key content, every value content and every assignment of hash values to keys.",
 ["inputs", "histories", "configurations"], "all histories of put/get with arbitrary keys, values, lengths and hash values",
 "The programs store generated word lists under one hash function; they never reach adversarial collisions, prefix-related keys, or the key-length and page-fill boundaries.",
 [H, PG], [("bucket computation", "filehash/ffdb_hash.c _ffdb_call_hash"), ("find/add item", "filehash/ffdb_page.c ffdb_find_item, ffdb_add_pair"), ("data get", "filehash/ffdb_page.c _ffdb_get_data")], API)

prop("C02", "Everything stored is still there, unchanged, after close and reopen",
 "After a successful close, opening the same file again (read-write or read-only, with any cache size) yields exactly the pairs that were stored, with the same bytes and lengths, and no others. This holds however many sessions wrote the file.",
 ["inputs", "histories", "configurations"], "all store histories split into sessions, page sizes, bucket counts and cache sizes",
 "Tests reopen a handful of generated files; loss needs a particular dirty page to be skipped at close or a header field to be stored wrongly for particular sizes.",
 [H, PG, PP], [("flush at close", "filehash/ffdb_pagepool.c ffdb_pagepool_close/ffdb_pagepool_sync"), ("header save/restore", "filehash/ffdb_hash.c _ffdb_hash_close, __ffdb_hash_open"), ("page in/out filters", "filehash/ffdb_page.c ffdb_pgin_routine/ffdb_pgout_routine")], API)

prop("C03", "Values of every size are returned byte-exact, at every page boundary",
 "For every value length, including zero and lengths that end just before, at or just after a page boundary or span several pages, the value read back has the stored length and bytes. The library never reads outside the caller's input buffers nor writes outside the buffer the caller supplied for the result.",
 ["inputs", "configurations"], "all value lengths and contents, caller buffer sizes, page sizes",
 "Value lengths in the tests are a few samples; the defects live in a 20-byte window per page boundary and in reads past the caller's buffer that no test observes.",
 [PG], [("chunked data write", "filehash/ffdb_page.c _ffdb_add_data"), ("chunked data read", "filehash/ffdb_page.c _ffdb_get_data")], API)

prop("C04", "Table growth keeps every key reachable",
 "However many buckets are added, however keys collide and however long collision chains become, every stored key remains reachable with its own value after each expansion, and pages released by an expansion and reused later never disturb other data.",
 ["inputs", "histories", "configurations"], "all hash-value assignments, bucket counts (including one bucket), fill levels and split sequences",
 "Tests use one hash function and word list; eight recorded failures already show lost keys with one initial bucket. Distribution-dependent loss needs chosen hash values.",
 [H, PG], [("linear-hash expansion", "filehash/ffdb_hash.c _ffdb_hash_expand_table"), ("split", "filehash/ffdb_page.c ffdb_split_bucket"), ("overflow allocation and free list", "filehash/ffdb_page.c ffdb_add_ovflpage, ffdb_delete_page/ffdb_free_page")], API)

prop("C05", "A full cursor walk visits every stored pair exactly once",
 "Walking from the first pair to the end, or from the last pair backwards to the beginning, yields each stored pair exactly once with its own value, and then reports not-found, also when asked again; on an empty database the walk reports not-found at once.",
 ["inputs", "histories", "configurations"], "all database contents and shapes (empty buckets, overflow chains, multi-page values), both directions",
 "Tests count keys of a few databases in the forward direction; backward walks, walks past the end and walks over sparse or overflowing buckets are not exercised.",
 [H, PG], [("cursor", "filehash/ffdb_hash.c _ffdb_cursor_get (hash cursor)"), ("cursor step", "filehash/ffdb_page.c ffdb_cursor_find_by_key / ffdb_get_item")], ["cursor->get return value, key and data"])

prop("C06", "Replacing a value affects only that key, and no-overwrite stores never modify",
 "Storing under an existing key a value that is not longer than the stored one replaces it by exactly the new bytes and length; a longer one is refused and leaves the old value in place. Either way every other pair is unchanged and no second entry appears. Storing with the no-overwrite flag fails if and only if the key exists, and then leaves the old value in place.",
 ["inputs", "histories"], "all old/new length combinations, contents, neighbours and flags",
 "Tests replace with a couple of sizes; data-page reuse when a value shrinks or grows across page boundaries next to other values is not covered.",
 [H, PG], [("replace in place", "filehash/ffdb_page.c _ffdb_replace_data, ffdb_replace_pair"), ("flags", "filehash/ffdb_hash.c _ffdb_hash_put")], API)

prop("C07", "Requests that fail leave the database fully intact, now and after close",
 "A store or lookup that reports failure (key too long, unsupported flag, destination buffer too small, key missing, key already present, write to a read-only handle) changes no stored pair. Everything stored before or after the failed request is still returned in this session and after close and reopen.",
 ["inputs", "histories"], "all positions of a failing request inside a history, all failure kinds",
 "Tests do not issue failing requests between successful ones and then check durability.",
 [H, PG, PP], [("error paths releasing pages", "filehash/ffdb_hash.c _ffdb_hash_access / ffdb_release_item"), ("flush at close skips pinned pages", "filehash/ffdb_pagepool.c ffdb_pagepool_sync")], API)

prop("C08", "The size of the page cache is invisible",
 "Any history of operations, including stores and lookups made while a cursor is open, gives the same results with the smallest cache as with one that holds the whole file.",
 ["inputs", "histories", "configurations"], "all histories and cache sizes; eviction at every possible point",
 "Tests use caches much larger than the file; eviction and re-reading of modified pages hardly occur.",
 [PP, PG], [("eviction and write-back", "filehash/ffdb_pagepool.c _ffdb_pagepool_new_bkt / page lookup"), ("pinning", "filehash/ffdb_pagepool.c ffdb_pagepool_get_page/put_page")], API)

prop("C09", "Rearranging pages on close is invisible over any number of sessions",
 "With page rearrangement enabled, a file closed, reopened, modified and closed again any number of times, in any mixture with sessions that do not rearrange, contains exactly the stored pairs in every session, and the file never loses pages that are still in use.",
 ["histories", "configurations", "inputs"], "all session sequences with rearrangement on or off, all table shapes",
 "Tests use rearrangement in one fixed sequence; the mapping of moved pages depends on which buckets are unused at close.",
 [H, PG, PP], [("move pages on close / back on open", "filehash/ffdb_hash.c, filehash/ffdb_page.c ffdb_rearrange_pages_on_close / on_open"), ("renumbering cached pages", "filehash/ffdb_pagepool.c ffdb_pagepool_change_page")], API)

prop("C10", "Files stay interchangeable: the on-disk format is the fixed, documented one",
 "Every file the library writes can be read by an independent reader of the published layout (big-endian checksummed header, checksummed pages, per-item checksums, standard CRC-32, fixed default hash), and such a reader finds every stored pair under its key's bucket chain. A well-formed file produced by that layout is read back correctly by the library.",
 ["inputs", "configurations", "histories"], "all stored contents and file shapes within the bounds",
 "Tests write and read with the same build, so a consistent change to both sides (checksum polynomial, hash function, field order) goes unnoticed while every existing data file becomes unreadable.",
 [H, PG, HF, "filehash/ffdb_hash.h", "filehash/ffdb_page.h"], [("CRC", "filehash/ffdb_hash_func.c __ffdb_crc32_checksum"), ("default hash", "filehash/ffdb_hash_func.c __ffdb_log2/__ffdb_hash4"), ("layout macros", "filehash/ffdb_page.h")], ["bytes of the file after close"])

prop("C11", "Synced data survives a crash",
 "If the process stops at any moment after a successful sync and before the next store, or part way through the writes of closing the database (without page rearrangement), reopening the file succeeds and finds every pair that had been stored before the sync, with its value.",
 ["crash_points", "histories"], "all histories followed by sync and a stop without close",
 "Tests always close the database; the state of the file between sync and close is never looked at.",
 [H, PP], [("sync", "filehash/ffdb_hash.c _ffdb_hash_sync"), ("write back", "filehash/ffdb_pagepool.c ffdb_pagepool_sync")], ["file contents at the stop point, reopened with ffdb_dbopen"])

prop("C12", "Read and write failures are reported, never passed off as success",
 "If the operating system reports an error or a short transfer for a write while data is being stored, synced or closed, then either one of the store, sync or close calls reports failure (or the process stops), or everything stored is nonetheless on disk. A failed read never turns into a not-found answer or wrong data.",
 ["fault_sequences", "histories"], "every single read or write call failing with an error or short count",
 "The tests run on a healthy disk; no fault is ever injected.",
 [PP, H], [("page read/write", "filehash/ffdb_pagepool.c _ffdb_pagepool_load/ write page"), ("error propagation", "filehash/ffdb_hash.c _ffdb_hash_close/_ffdb_hash_sync")], ["return values of put/get/sync/close and the file afterwards"])

prop("C13", "Corruption is never returned as valid data",
 "If up to four adjacent bytes of a stored file are altered, a lookup or cursor step afterwards either stops the process, reports an error or returns exactly what was originally stored; it never silently returns altered data or loses an item without an error.",
 ["inputs", "fault_sequences"], "every alteration of up to 32 consecutive bits of a page in use, header included",
 "No test damages a file.",
 [PG, H, HF], [("page checksum", "filehash/ffdb_page.c ffdb_pgin_routine"), ("item checksum", "filehash/ffdb_page.c _ffdb_get_data"), ("header checksum", "filehash/ffdb_hash.c __ffdb_hash_open")], ["db->get results after reopening the altered file"])

prop("C14", "Opening refuses files it cannot serve and never damages them",
 "Opening fails with an error (and leaves the file's bytes alone) when the file is not a database, is cut short within its header, user-information or configuration pages, or is of a wrong version, when the supplied hash function is not the one the file was made with, or when the parameters are invalid; creating with an existing file honours the create, truncate and read-only flags.",
 ["inputs", "configurations"], "all file prefixes and header contents, flag combinations and parameters",
 "Tests only open valid files with matching parameters.",
 [H, "filehash/ffdb_db.c"], [("open validation", "filehash/ffdb_hash.c __ffdb_hash_open"), ("parameter checks", "filehash/ffdb_db.c ffdb_dbopen")], ["ffdb_dbopen result, errno, bytes of the file"])

prop("C15", "User information round-trips and never disturbs stored pairs",
 "A user-information string of any content and length up to the configured maximum is returned unchanged in the same session and after reopening, the latest one wins, longer ones and too-small result buffers are refused without effect, and stored pairs are unaffected.",
 ["inputs", "histories", "configurations"], "all contents, lengths, page counts and interleavings with stores",
 "Tests store one string that fits one page.",
 [PG, H], [("user info pages", "filehash/ffdb_page.c ffdb_set_uinfo/ffdb_get_uinfo")], ["ffdb_get_user_info / ffdb_set_user_info"])

prop("C16", "Configuration records round-trip individually and as a set",
 "Each configuration record written (number, index, insertion state, type, modification time, file name) is returned unchanged, individually and in the full list, in the same session and after reopening; writing one never changes another or any stored pair, and a record whose number and index are not those of a listed configuration is refused.",
 ["inputs", "histories", "configurations"], "all record contents, indices, counts (crossing page boundaries) and orders",
 "Tests write records in order with fixed values and few per page.",
 [PG, H], [("config pages", "filehash/ffdb_page.c ffdb_set_config_info/ffdb_get_config_info/all variants")], ["ffdb_get_config / ffdb_get_all_configs"])

prop("C17", "Files written on a machine of the other byte order read identically",
 "A database file whose pages were written on a machine of the opposite byte order is opened and returns exactly the same pairs, user information and configuration records, and after being modified and closed it still does.",
 ["inputs", "configurations"], "all contents and shapes, converted to the opposite byte order",
 "Tests never see a file from another architecture.",
 [PG, H, "filehash/ffdb_page.h"], [("page byte swapping", "filehash/ffdb_page.c ffdb_pgin_routine / ffdb_pgout_routine swap functions")], API)

prop("C18", "Concurrent lookups are correct and never deadlock",
 "Any number of threads looking up keys or walking cursors on one open database all finish, each seeing exactly the stored values, in every interleaving and with any cache size.",
 ["schedules", "configurations"], "all interleavings at synchronisation points",
 "The threaded test runs a handful of uncontrolled schedules with a large cache.",
 [PP, H], [("pool lock and page pinning", "filehash/ffdb_pagepool.c wait queues"), ("table lock", "filehash/ffdb_hash.c FFDB_LOCK")], API)

prop("C19", "Concurrent stores are all kept and never deadlock",
 "Threads storing and looking up different keys on one open database all finish, every successful store is visible afterwards and after reopening, and every lookup returns either not-found or a value stored under that key, in every interleaving.",
 ["schedules", "histories"], "all interleavings at synchronisation points, including around a table expansion",
 "No test writes from two threads.",
 [PP, H], [("table lock around put", "filehash/ffdb_hash.c _ffdb_hash_put"), ("page pinning", "filehash/ffdb_pagepool.c")], API)

prop("C20", "Read-only use never alters the file",
 "Opening an existing database read-only, looking things up, walking it and closing it leaves every byte and the length of the file unchanged, whatever the contents; opening read-write and closing without storing loses nothing.",
 ["inputs", "histories", "configurations"], "all file shapes (including rearranged and synced-only files) and read histories",
 "No test compares file bytes before and after reading.",
 [H, PG, PP], [("read-only guards", "filehash/ffdb_hash.c _ffdb_hash_close; filehash/ffdb_pagepool.c")], ["file bytes before open and after close"])

prop("C21", "Serialised keys and records decode to what was encoded; bad input is refused",
 "Encoding a string key, a text record or a float-vector record and decoding the result yields an equal object for every content and length; decoding a truncated, oversized or mistyped buffer raises a serialisation error and never reads outside the buffer.",
 ["inputs"], "all contents and lengths, and all byte strings as decoder input",
 "Tests round-trip a few values through the same process; malformed and boundary inputs are not tried.",
 ["src/DBString.cpp", "src/DBString.h", "src/VFloatData.cpp", "src/VFloatData.h", "src/Serializable.h", "src/FileDB.cpp", "src/FileDB.h"],
 [("StringKey/UserData", "src/DBString.cpp readObject/writeObject"), ("VFloatData", "src/VFloatData.cpp"), ("byte order helpers", "src/HashFunc.cpp, src/FileDB.cpp")], ["writeObject/readObject results"])

prop("C22", "The typed single-configuration store is a faithful map",
 "Inserting typed keys and records, then getting one, testing existence, listing keys, and listing keys with data give exactly the inserted set with the last record for each key, in the same session and after reopening, for binary as well as typed access.",
 ["inputs", "histories"], "all key/record contents, insertion orders and sessions",
 "Tests insert generated sequences of one record type once.",
 ["src/ConfDataStoreDB.h", "src/ConfDataStoreDBSimple.h", "src/DBFunc.h", "src/DBFunc.cpp", "src/DBCursor.h", "src/DBCursor.cpp"],
 [("typed access", "src/DBFunc.h insertData/getData/keyExist"), ("listing", "src/DBCursor.h, src/DBFunc.h allKeys/allPairs")], ["ConfDataStoreDB / ConfDataStoreDBSimple methods"])

prop("C23", "In an ensemble store each configuration's record stays with its configuration",
 "A vector of records stored under a key is returned element for element, updating one configuration's element changes only that element of that key, and the configuration list set at creation is returned unchanged; requests with a wrong number of elements, an index out of range or an element of another size are refused without effect.",
 ["inputs", "histories"], "all element contents and sizes, keys, indices and update orders",
 "Tests use equal-sized generated vectors and valid indices.",
 ["src/AllConfStoreDB.h", "src/AllConfStoreDB.cpp", "src/DBFunc.h"],
 [("insert/update", "src/AllConfStoreDB.h insert, update"), ("get", "src/AllConfStoreDB.h get"), ("configuration info", "src/AllConfStoreDB.h, filehash/ffdb_page.c")], ["AllConfStoreDB methods"])

prop("C24", "Merging puts every configuration's record in its slot under the right key",
 "Merging single-configuration files into an ensemble store produces, for every key, the vector whose i-th element is the record that the i-th configuration's file held for that key, for any memory limit and any number of passes; a configuration without a file leaves the other configurations' records in their slots.",
 ["inputs", "configurations", "histories"], "all memory limits, numbers of files, key counts and record contents",
 "The merge test uses one fixed memory limit and a few files.",
 ["src/ConfDataDBMerger.h", "src/AllConfStoreDB.h"], [("merge passes", "src/ConfDataDBMerger.h merge, iterateSize")], ["AllConfStoreDB::get after merge"])

prop("C25", "Stores spread over several files act as one",
 "A multi-file store opened over several files answers a lookup with the record of the first file, in the order given, that holds the key, reports failure only if no file holds it, and reports a key as existing exactly when some file holds it.",
 ["inputs", "configurations"], "all distributions of keys and contents over the files",
 "The multi-file stores have no test beyond compilation.",
 ["src/AllConfStoreMultipleDB.h", "src/ConfDataStoreMultipleDB.h"], [("fan-out", "src/AllConfStoreMultipleDB.h, src/ConfDataStoreMultipleDB.h")], ["get/keys/... of the multi-file classes"])

prop("C26", "An item longer than 4 GiB is never taken for a shorter one",
 "In a file that holds an item whose length does not fit in 32 bits, a lookup or cursor step into a shorter buffer is refused without touching the buffer, the item's recorded length survives lookups, stores of other keys, table growth and reopening, replacing it by a shorter value leaves exactly the new length and bytes (and a later longer value is refused), and every other pair stays intact.",
 ["inputs", "histories"], "all 40-bit lengths above 2^32, replaced by shorter ones, with other keys around them",
 "The huge test programs are not part of the suite, and no test can hold every 40-bit length.",
 [PG, "filehash/ffdb_page.h"], [("length split", "filehash/ffdb_page.h REAL_DATA_LEN, INSERT_LEN_TO_PGOFFSET, INSERT_LEN_TO_STATUS; _ffdb_get_data, _ffdb_replace_item_on_page, _ffdb_replace_data")], API)

prop("C27", "A value longer than 4 GiB is stored with its full length",
 "Storing a value whose length does not fit in 32 bits keeps every byte and the full length.",
 ["inputs"], "all lengths between 4 GiB and 1 TiB",
 "The huge test programs are not part of the suite.",
 [PG, "filehash/ffdb_page.h"], [("length split", "_ffdb_add_data")], API)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
