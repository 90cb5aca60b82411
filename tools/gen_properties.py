#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Kept so the property texts can be edited in one readable place."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("D01", "The key-value store is an ordered map under every operation history",
 "After any sequence of put, delete, get, commit, abort and reopen on a database, every lookup and every full scan returns exactly the pairs that the same sequence would leave in an ordinary ordered map, for keys up to about a quarter of a page and pairs up to about a page. A refused operation (oversized key or pair, key already put in the same transaction, full map) changes nothing, and an aborted transaction leaves no trace.",
 ["histories", "inputs"], "all operation sequences, insertion orders, transaction boundaries and key/value sizes",
 "Tests insert a few hundred equal-sized keys in one or two orders; losing a key needs a particular order, size mix and transaction boundary at a page split.",
 ["src/napr_db.c", "src/napr_db_tree.c", "src/napr_db.h"],
 [("insert, page split and divider propagation", "napr_db_put, put_in_tree, make_room, insert_divider, push_down_root, db_split_leaf, db_split_branch"), ("page search, insert, delete", "db_page_search, db_page_insert, db_page_delete"), ("delete", "napr_db_del")],
 "napr_db_get / napr_db_cursor_get results")

prop("D02", "Cursors visit exactly the stored keys, in order, in both directions",
 "At every position of any tree, first/last/next/previous, exact-match and range positioning return the same key and value as the sorted list of the stored pairs, and report not-found exactly at its ends. This includes trees in which deletions have emptied pages, single-key trees and empty trees.",
 ["histories", "inputs"], "all reachable tree shapes and all cursor operation sequences on them",
 "Tests iterate over freshly built trees; wrong answers need emptied leaves, range keys falling in gaps between pages, or direction changes at page borders.",
 ["src/napr_db_cursor.c", "src/napr_db_tree.c"],
 [("cursor movement", "napr_db_cursor_get and its per-operation helpers"), ("descent", "db_find_leaf_page_with_path")],
 "napr_db_cursor_get results")

prop("D03", "A crash at any point leaves exactly the last committed database",
 "If the process or the machine stops at any instant, with any subset of the not yet synced writes on disk, reopening the database yields exactly the state of the last commit that returned success, or of the commit in progress, never a mixture, and the database accepts further transactions. A new database interrupted during creation can be opened again.",
 ["crash_points", "histories"], "all crash points of every commit, with every subset and sector-torn pattern of unsynced writes",
 "Tests never crash: they close the database normally and reopen it in the same process.",
 ["src/napr_db.c", "src/napr_db_tree.c"],
 [("two meta pages, highest transaction id wins", "commit_meta_page, select_live_meta"), ("data pages written and synced before the meta page", "napr_db_txn_commit, write_dirty_pages_to_disk"), ("copy-on-write relocation", "cow_path, relocate_dirty_pages")],
 "database contents after reopening the crash image")

prop("D04", "A reader keeps its snapshot whatever is committed after it began",
 "A read transaction returns, for its whole life and through lookups and cursors alike, exactly the pairs that were committed when it began, no matter how many later transactions update, delete, split pages, reuse freed space or abort. Values it handed out stay unchanged until it ends.",
 ["histories"], "all histories of overlapping readers and commits up to the reader limit",
 "Tests hold one reader across one commit; breaking a snapshot needs page reuse or in-place modification several commits later.",
 ["src/napr_db.c", "src/napr_db_tree.c"],
 [("reader table and oldest reader", "napr_db_txn_begin, db_get_oldest_reader_txnid"), ("page reclamation", "db_reclaim_page_from_free_db, populate_free_db, db_page_alloc"), ("copy-on-write", "cow_path, relocate_dirty_pages")],
 "reads in the old transaction after later commits")

prop("D05", "Concurrent transactions are isolated under every thread interleaving",
 "With any number of threads beginning, reading, writing, committing and aborting on one environment, every read transaction sees one committed state in full, at most one write transaction is active at a time, committed updates are never lost, and no schedule deadlocks.",
 ["schedules"], "all interleavings of reader and writer threads at shared-memory access granularity, up to a preemption bound",
 "The suite's concurrency tests sample a few schedules of the OS; a torn snapshot needs a preemption between two particular memory accesses.",
 ["src/napr_db.c"],
 [("snapshot capture and reader registration", "napr_db_txn_begin"), ("publication of the new meta page", "commit_meta_page"), ("writer lock", "db_writer_lock, db_writer_unlock")],
 "reads of each transaction, order of commits")

prop("D06", "A failing write, sync or seek never damages the database",
 "When any file operation of a commit or of opening a database fails, the call reports an error, the database (in the same process and after reopening) holds exactly the state before or the complete state after that transaction, no lock is left held, and later transactions work. Success is only reported when all data and the commit record were written and synced.",
 ["fault_sequences", "histories"], "every single and double failure (error or short write) of every I/O call in a history",
 "The suite has no fault injection: error returns from writes and syncs are never exercised.",
 ["src/napr_db.c"],
 [("commit error paths", "napr_db_txn_commit, extend_database_file, write_dirty_pages_to_disk, commit_meta_page"), ("open error paths", "napr_db_env_open")],
 "status codes and later reads")

prop("D07", "Freed space is reused and the map limit is respected",
 "Overwriting or deleting and re-inserting the same data again and again does not make the database file grow without bound, as long as no old reader pins the space. When the configured map size is exhausted, writes are refused with an error, the committed data stays intact and readable, and aborting leaves the database usable.",
 ["histories", "configurations"], "all bounded update workloads and all map sizes from the minimum up",
 "Tests run at most a few transactions in a map far larger than the data.",
 ["src/napr_db.c", "src/napr_db_tree.c"],
 [("free page database", "populate_free_db, db_reclaim_page_from_free_db"), ("page allocation", "db_page_alloc")],
 "file size, status codes, contents")

prop("C01", "The cache returns what was last committed for a path",
 "For every sequence of cache transactions, a lookup returns the metadata and checksum most recently stored for exactly that path in a committed transaction (or earlier in the same one), reports not-found for any other path, and survives closing and reopening. Aborted transactions leave no trace; a commit that fails leaves the contents as they were before or, all of it, as committed.",
 ["histories", "inputs"], "all sequences of upserts, lookups, commits, aborts and reopens over small path sets",
 "Tests store a handful of entries, each once, in a single order.",
 ["src/napr_cache.c", "src/napr_cache.h"],
 [("upsert and lookup", "napr_cache_upsert_in_txn, napr_cache_lookup_in_txn"), ("transaction wrappers", "napr_cache_begin_read, napr_cache_begin_write, napr_cache_commit_txn")],
 "lookup results")

prop("C02", "Sweeping removes exactly the entries not marked as visited",
 "After a sweep, the cache holds exactly the entries whose path was marked as visited since the cache was opened or last swept, with unchanged contents, whatever the number, order and size of entries and whichever threads did the marking. Marking from several threads at once loses no mark. A sweep that fails leaves the contents as before or as after a sweep and keeps the marks, so that it can be repeated.",
 ["histories", "schedules"], "all subsets of marked entries over trees of several pages, and all interleavings of concurrent marks",
 "Tests sweep one small fixed population on a single page.",
 ["src/napr_cache.c"],
 [("visited set", "napr_cache_mark_visited"), ("sweep", "napr_cache_sweep")],
 "lookups after the sweep and after reopening")

prop("C03", "One process at a time owns a cache, and its end releases it",
 "While one process has a cache open, opening it from another process fails and changes nothing; after the owner closes it, fails to open it, exits or is killed, it can be opened again and its committed contents are intact.",
 ["histories", "fault_sequences"], "all interleavings of open, close, exit and kill of two or three processes, and every failing step of open",
 "Tests cover one parent/child pair in one order.",
 ["src/napr_cache.c"],
 [("lock file", "napr_cache_open, napr_cache_close")],
 "status of open in each process")

prop("T01", "Every queued task runs exactly once before wait returns",
 "For any number of tasks and worker threads and under every schedule, including spurious wake-ups, each task handed to the thread pool is executed exactly once, and waiting on the pool returns only when all tasks added before it have finished.",
 ["schedules"], "all interleavings up to a preemption bound, with spurious wake-ups, for all small task and thread counts",
 "The suite runs the pool under the schedules the OS happens to produce.",
 ["src/napr_threadpool.c"],
 [("task list and worker loop", "napr_threadpool_loop, napr_threadpool_add"), ("completion", "napr_threadpool_wait")],
 "executions per task at the return of wait")

prop("T02", "Pool operations never deadlock and shutdown always ends all workers",
 "Under every schedule, adding tasks, waiting repeatedly, and shutting down terminate; after shutdown no worker runs and no task executes later, whether or not wait was called first.",
 ["schedules"], "all interleavings up to a preemption bound of producers, workers and shutdown",
 "A lost wake-up needs a preemption in a window of a few instructions that tests do not hit.",
 ["src/napr_threadpool.c"],
 [("shutdown", "napr_threadpool_shutdown"), ("worker loop", "napr_threadpool_loop")],
 "termination of all threads")

prop("F01", "Files reported as duplicates are byte-identical",
 "Any two files that the text report puts in one group have exactly the same bytes, for every tree of files, sizes, contents and option settings, including checksum-equal but different files and empty files. A file never appears in more than one group.",
 ["inputs", "configurations"], "all small trees over an alphabet of contents and all relevant option combinations",
 "Tests run a few fixed fixture directories; a false duplicate needs a particular combination of sizes, contents and group structure.",
 ["src/ft_process.c", "src/ft_report.c", "src/ft_file.c", "src/napr_hash.c"],
 [("grouping by size and checksum", "categorize_files, hashing_worker_callback"), ("final comparison", "compare_and_report_pair, filecmp")],
 "standard output of ftwin")

prop("F02", "All identical files in scope are reported together, exactly once",
 "Every set of two or more identical in-scope files is reported as one group that lists each of them exactly once, and files without a twin are not listed, for any number of files, sizes, contents and directory layouts. Groups of different sizes or contents are never merged or lost, and a path reached through several arguments counts once.",
 ["inputs", "configurations"], "all small trees over an alphabet of contents, and large same-size populations",
 "Tests check a few fixed fixture trees; a missed twin needs a particular group structure.",
 ["src/ft_traverse.c", "src/ft_process.c", "src/ft_report.c", "src/napr_heap.c"],
 [("traversal", "ft_traverse_path"), ("grouping", "categorize_files, collect_hashing_results"), ("report loop", "ft_report_duplicates")],
 "standard output of ftwin")

prop("F03", "The result does not depend on threads, scheduling or scan order",
 "For a given tree and options, the set of reported groups is the same for every number of hashing threads, every interleaving of the workers and every order in which directories list their entries or arguments are given.",
 ["schedules", "configurations"], "all worker interleavings up to a preemption bound, all thread counts, all directory orders of small trees",
 "Tests compare two thread counts under whatever schedule occurs.",
 ["src/ft_process.c", "src/napr_threadpool.c", "src/ft_traverse.c"],
 [("parallel hashing", "dispatch_hashing_tasks, hashing_worker_callback"), ("collection", "collect_hashing_results")],
 "standard output of ftwin")

prop("F04", "The JSON report is valid and agrees with the file system",
 "For every tree, the JSON output is one well-formed document whose groups are exactly the sets of identical files, with absolute paths, true byte sizes, the XXH3-128 checksum of the contents and the true modification time in UTC. This holds for any valid UTF-8 file name, including quotes, backslashes, control characters and non-ASCII.",
 ["inputs"], "all small trees, contents, sizes and names over an alphabet of awkward characters",
 "One test validates the JSON of a fixed fixture.",
 ["src/ft_report_json.c", "src/ft_process.c"],
 [("JSON groups", "ft_report_json, find_and_report_duplicates"), ("formatting", "ft_hash_to_hex, ft_format_time_iso8601_utc")],
 "standard output of ftwin --json")

prop("F05", "Filters select exactly the files the options describe",
 "Minimum and maximum size (inclusive), ignore regex, whitelist regex, case-insensitivity, ignore list, hidden-file handling, no-recursion and symlink options include and exclude exactly the files their documentation says, alone and in combination: the ignore regex, ignore list and hidden-file rule also exclude whole directories, the whitelist applies to files, arguments themselves are exempt from name rules, and a followed link back into a directory being traversed is not entered again. Files outside the selection never influence the report.",
 ["inputs", "configurations"], "all combinations of filter options over a tree with one file per equivalence class",
 "Tests exercise single options on a fixed fixture; wrong boundaries and interactions need particular combinations.",
 ["src/ft_traverse.c", "src/ft_config.c", "src/human_size.c"],
 [("selection", "process_file, process_directory, process_directory_entry"), ("option parsing", "ft_config_parse_args")],
 "standard output of ftwin")

prop("F06", "Ignore files follow gitignore pattern rules",
 "A file or directory is skipped exactly when the gitignore rules say so: the last matching pattern decides, negation re-includes, a leading slash anchors to the directory of the ignore file, a trailing slash matches directories only, a star does not cross slashes, a double star does, character classes, question marks and escapes work, ignore files apply to their own subtree only and those in deeper directories take precedence, and the documented default patterns apply below every argument unless an ignore file re-includes. No pattern makes the program crash.",
 ["inputs"], "all patterns over a small alphabet up to a length bound, all short lists of patterns, against all paths over a small alphabet",
 "Tests try one example per feature.",
 ["src/ft_ignore.c", "src/ft_ignore.h", "src/ft_traverse.c"],
 [("pattern translation", "ft_ignore_add_pattern_str"), ("matching", "ft_ignore_match")],
 "ft_ignore_match result and files scanned by ftwin")

prop("F07", "Read errors, vanishing and changing files never cause false reports",
 "If opening, mapping, reading or examining a file fails at any step, or a file has shrunk, grown or disappeared by the time it is opened again, ftwin does not crash, never lists a file whose content it could not fully compare as a duplicate, and still reports the unaffected groups correctly, including the other members of a group of which one file cannot be read at all. Only an argument that itself cannot be examined or listed may end the run with an error and no report.",
 ["fault_sequences"], "every single failure, short read and truncation at every file operation of a run",
 "The suite injects no I/O failures beyond one permission test.",
 ["src/ft_file.c", "src/ft_process.c", "src/ft_report.c", "src/ft_report_json.c", "src/ft_traverse.c"],
 [("comparison", "filecmp"), ("checksum", "checksum_file"), ("skipping", "compare_and_report_pair, perform_file_comparison")],
 "standard output and exit of ftwin under injected faults")

prop("F08", "Comparison and checksum are exact for every size and I/O strategy",
 "Comparing two files gives equal exactly when their bytes are equal, and the checksum equals XXH3-128 of the bytes, for every file size, every position of a difference, and whether the file is memory-mapped, read in blocks because of its size, or read in blocks because mapping failed, with reads of any granularity.",
 ["inputs", "fault_sequences"], "all sizes around every buffer boundary, all difference positions at the boundaries, all strategies and read granularities",
 "Tests compare a few small files with one strategy.",
 ["src/ft_file.c"],
 [("comparison", "filecmp"), ("checksum", "checksum_file")],
 "result of filecmp and checksum_file")

prop("F09", "Scanning never changes the scanned tree and cleans up after itself",
 "No run, with any options and under any failing file operation, creates, deletes, renames, truncates or writes any file of the scanned tree or changes its metadata (other than access times); temporary files made for archive members are removed, and no file descriptor or mapping stays in use per processed file.",
 ["configurations", "fault_sequences"], "all option combinations and every single failing call",
 "Tests never compare the tree before and after a run.",
 ["src/ft_file.c", "src/ft_archive.c", "src/ft_process.c", "src/ft_report.c"],
 [("temporary extraction", "ft_archive_untar_file"), ("cleanup", "cleanup_comparison_paths, hashing_worker_callback")],
 "file system calls and tree state")

prop("F10", "Files under the priority path are listed first in their group",
 "In every reported group, files whose path starts with the priority path come before all others, so that a cleanup script taking the first entry removes only prioritised files; the option does not change which files are grouped.",
 ["inputs", "configurations"], "all small groups with every subset of prioritised members, all thread counts and report formats",
 "Tests only parse the option.",
 ["src/ft_traverse.c", "src/ft_report.c"],
 [("priority flag", "process_file"), ("ordering", "ft_chksum_cmp, ft_report_duplicates")],
 "order of names in the report")

prop("F11", "An archive member is extracted exactly or not at all",
 "Asking for a member of a tar archive, plain or compressed, produces a file with exactly that member's bytes whatever its position, size and the other members; a missing member, a member that is not a regular file, an archive that is cut off or has a damaged header, or a failing file operation gives an error (or still the exact bytes) and leaves no temporary file, no open descriptor and the file creation mask as it was. The temporary file can be read by the caller and by nobody else.",
 ["inputs", "fault_sequences"], "all small archives over an alphabet of names and contents, every truncation of an archive, every failing call",
 "Tests extract one member of a few fixed archives.",
 ["src/ft_archive.c"],
 [("extraction", "ft_archive_untar_file")],
 "extracted file")

prop("F12", "Image mode reports every similar pair once and nothing else",
 "In image mode, every group is an image followed by the images similar to it, and every pair of readable images whose signature distance is below the chosen threshold is reported exactly once that way, no other pair is; the files in scope are those named like pictures; identical pictures are always reported together; unreadable images are skipped without affecting the others.",
 ["inputs", "configurations"], "all small multisets of images over an alphabet of pictures and every threshold",
 "One test compares a fixed set of pictures.",
 ["src/ft_image.c"],
 [("signature computation in parallel", "compute_image_vectors, compute_vector"), ("pairwise comparison", "compare_image_vectors")],
 "standard output of ftwin -I")

prop("F13", "Options mean the same in every spelling and order; wrong ones give no report",
 "An option gives the same report whether written short or long, with its value attached, joined by '=' or separate, and in any position among the other options; of a repeated or contradicting option the last one decides, and ignore lists add up; the verbose, dry-run and memory options and output to a terminal do not change what is reported (apart from colour codes). A command line with an unknown option, a missing or invalid value (size, number of threads outside 1 to 256, image threshold outside 1 to 5, malformed regular expression) or without files ends with an error status and without any report; help and version print only that.",
 ["configurations"], "all pairs and triples of options in all spellings and orders, all wrong words at every position",
 "Tests parse a couple of fixed command lines.",
 ["src/ft_config.c"],
 [("option table, parsing and validation", "ft_config_parse_args, process_options, print_usage_and_exit")],
 "standard output and exit status of ftwin")

prop("S01", "The hash table finds exactly the elements stored in it",
 "After any sequence of insertions and removals, including growth and colliding keys, searching finds an element exactly if it was inserted and not removed since, iteration visits each stored element exactly once, and every operation terminates.",
 ["histories"], "all operation sequences up to a bound over colliding and non-colliding keys, across growth",
 "Tests insert a fixed list of strings.",
 ["src/napr_hash.c", "src/key_hash.c"],
 [("insert, search, remove, growth", "napr_hash_set, napr_hash_search, napr_hash_remove, napr_hash_rebuild")],
 "results of search and iteration")

prop("S02", "The heap always yields the largest remaining element",
 "For any sequence of insertions and extractions, extraction returns an element that is maximal among those present, every inserted element comes out exactly once, indexing reaches each stored element once, and an empty heap reports empty.",
 ["histories"], "all insertion and extraction sequences up to a bound, with ties and growth",
 "Tests use one ordered and one unordered list.",
 ["src/napr_heap.c"],
 [("insert and extract", "napr_heap_insert, napr_heap_extract")],
 "extraction order")

prop("S03", "Human-readable sizes are parsed and printed exactly",
 "A size argument is accepted exactly when it is a non-negative decimal number with an optional unit suffix (B, K, M, G or T, either case) whose value fits in a file size, and then means that number times the unit, without the fraction of a byte; anything else is rejected. Printing a size gives the documented binary-prefix text for every value.",
 ["inputs"], "all strings over the relevant alphabet up to a length bound, all values around each unit boundary",
 "Tests try a dozen strings.",
 ["src/human_size.c", "src/ft_config.c"],
 [("parsing", "parse_human_size"), ("formatting", "format_human_size")],
 "return values")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
