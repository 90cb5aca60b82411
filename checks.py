"""What each check runs: harness parts, deciding technique, bounds and assumptions (used by run.py and tools/gen_manifest.py)."""
CHECKS = {}
def check(prop, level, technique, parts, bounds, rule="", note="", assumptions=()):
    CHECKS[prop] = dict(level=level, technique=technique, parts=parts, bounds=bounds, rule=rule, note=note, assumptions=list(assumptions))

check("S02", "model_checking", "exhaustive enumeration of operation sequences on the real heap against a list model",
      [dict(harness="h_heap", flavour="asan", what="all op sequences, all insertion orders, all short sequences around array growth")],
      {"quick": "all sequences of length 8 over {insert 0,1,2, extract} + drain; all insertion orders of 6 (every extraction point) and 8 elements; all 64 3-op sequences from heaps of 254..257 and 510..513 elements in 5 fill patterns; heaps of 1000..300000 elements filled, refilled and drained in 5 patterns; max- and min-order; plain and _r variants",
       "thorough": "length 11; orders of 9; growth at 1024 as well"},
      note="Bounds as in the evidence file; values outside the three-letter alphabet and sequences longer than the bound are covered only through the permutation and prefill families.")

check("S01", "model_checking", "exhaustive enumeration of operation sequences on the real hash table against an array model",
      [dict(harness="h_hash", flavour="plain", what="all toggle sequences under adversarial hash functions; growth families")],
      {"quick": "all insert/remove toggle sequences of length 5 over 8 keys and length 9 over 3 keys, for 5 hash functions (all equal, low bits equal, two values, high bits, spread) x 3 initial sizes x 4 bucket capacities; every search and a full iteration after each step; string tables up to 4000 keys and size tables of 2000 keys through several growths; strings of 1..1100 characters differing in one of them; tables of up to 300000 strings; up to 5000 elements with one hash value",
       "thorough": "length 7 over 8 keys, length 12 over 3 keys; same families"},
      note="Exhaustive within the listed lengths; keys beyond the 8-key alphabet only in the growth families.")

check("S03", "model_checking", "exhaustive enumeration of inputs over a small alphabet against an exact integer reference parser/printer",
      [dict(harness="h_size", flavour="asan", what="all strings, all boundary numbers, all sizes in range")],
      {"quick": "every string of length 0..5 over the 14-letter alphabet \"019.KmTB e-xgf\"; 2^p-3..2^p+3 for p=0..66 with 28 suffixes; 400k decimal fractions/integers; printer: every size below 2.2 million, every size within 600 of a power of two up to 2^62, and every tenth-of-unit boundary of every unit",
       "thorough": "strings up to length 6, 4 million decimals, every size below 20 million"},
      note="Inputs beyond the alphabet and length bound are covered only by the boundary families; leading blanks or '+', and blanks after the suffix, are left open by the property.",
      assumptions=["locale C or C.UTF-8 (decimal point is '.')"])

check("F08", "model_checking", "exhaustive enumeration of sizes, difference positions and kernel answers on the real comparison and checksum code",
      [dict(harness="h_file", flavour="plain", what="all sizes x difference positions x mmap refusals x read granularities x failing read positions")],
      {"quick": "21 sizes from 0 to 262145 around the 4 KiB page and 64 KiB block limits; every difference position for files up to 31 bytes, all block-boundary positions above; mmap refused for neither/first/second/both; size threshold below/equal/above; read granularities {full,1,7,1000,4096,30000,65535} for each file independently; interrupted reads; an error at every single read; checksum for every length 0..2600; files that are shorter or longer than stated; files of 0.3..64 MB with differences around every block end or power of two",
       "thorough": "1- and 7-byte granularities also for files up to 70000 bytes; checksum for every length up to 20000"},
      note="XXH3-128 reference is the system libxxhash (independent of the vendored copy).",
      assumptions=["files larger than 256 KiB behave like those with four blocks"])

DB = [dict(harness="h_db", flavour="plain", what="operation histories on the real store, compared with an ordered map after every step")]
DBB = [dict(harness="h_dbbig", flavour="plain", what="databases beyond 8-, 16- and 32-bit borders of transaction numbers, page numbers and file offsets")]
DBN = "Exhaustive within the listed lengths, alphabets and size profiles; larger trees only in the listed families."
check("D01", "model_checking", "exhaustive enumeration of operation histories on the real store against an ordered-map model",
      DB + DBB, {"quick": "all sequences of put/delete/commit/abort/reopen of length 5 (4 keys, 1300-byte values, three start states), 5 (page-sized values), 4 (keys of ~1000 bytes), 3 (16 one-byte-different keys); all insertion orders of 6..7 keys in 7 size profiles with deletion and reinsertion orders; all pairs of operations on trees of 18..24 keys in 4 build orders x transaction groupings, all single operations on 60..80-key trees; all contiguous ranges and all subsets of 8..9 keys deleted and put back; 36 large-tree families up to 3000 keys; all key/value sizes at the limits; conditional deletes for every pair of sizes and with values differing in one byte; 16 keys behind 1..985 equal bytes, trees of such keys; databases of 70000, 540000 (2.2 GB) and 1060000 pages (4.3 GB); reopening after every transaction around transactions 128, 256, 32768 and 65536; keys and values passed on as a lookup or a cursor of the same transaction returned them, for all pairs of keys; pages filled to the last byte with one pair growing or shrinking; refused operations followed by accepted ones",
           "thorough": "sequences to length 6..7, all orders of 8 keys, triples of operations, subsets of up to 16 keys, trees of 4000 keys"},
      note=DBN + " Acceptance is required for keys up to 1000 bytes and pairs up to 4000 bytes; a refusal of anything larger must change nothing.")
check("D02", "model_checking", "exhaustive enumeration of reachable trees and cursor operation sequences on the real store against a sorted list",
      DB + DBB, {"quick": "the D01 histories with, at each look, every cursor position: first/last, exact and range positioning at every stored key, every absent key and every neighbour, then full walks and direction changes in both directions; histories one step shorter than for D01; full walks over databases of 70000, 540000 and 1060000 pages",
           "thorough": "D01's thorough lengths"}, note=DBN)
check("D04", "model_checking", "exhaustive enumeration of histories of overlapping readers and committing writers on the real store against snapshots",
      DB, {"quick": "all sequences of length 5 over {update first/middle/all, delete, delete all, abort, begin/end reader 0/1, look} with two readers from 5 start trees, length 4 with ~1000-byte keys; all sequences of length 8 of {commit, begin/end of three readers} followed by five more commits; reader begun after i and held over j cyclic updates for all i, j up to 24; up to the maximal number of simultaneous readers with begins and ends in every order family, and all but one of them ending; readers around transactions 64..512, 32768 and 65536; values handed out before are compared again at the end; 20..700 transactions piled up behind one or two readers that then end in either order",
           "thorough": "length 6 (5 with long keys); three-reader sequences of length 9; i, j up to 60"}, note=DBN)
check("D07", "model_checking", "exhaustive enumeration of update workloads and map sizes on the real store against a file-size bound and an ordered-map model",
      DB + DBB, {"quick": "7 cyclic workloads x 4 size profiles x 7 reopening and reader modes (held, overlapping, short, ended by commit or abort), 700 cycles each (70000 for six of them), file size bounded by a multiple of the live data; every map size of 1..32 pages x 4 ways of filling x 5 batch sizes x 4 size profiles: contents after each refusal, after abort, after deletes and after reopening; maps of 33000, 66000 and 540000 pages filled until refused; 300 and 1000 of 68000 page-sized pairs rewritten 80 to 200 times",
           "thorough": "3000 cycles; map sizes up to 64 pages"}, note=DBN)
CR = [dict(harness="h_crash", flavour="plain", what="disk images after a crash at every file operation; failing file operations")]
CRA = ["a 512-byte sector is written whole or not at all", "a change of the file size takes effect at once", "a failed sync may or may not have written any of the pending data", "syncing the database file makes its directory entry durable"]
check("D03", "model_checking", "exhaustive enumeration of crash points and lost/torn write patterns of the real store's write log, each image reopened with the real code",
      CR, {"quick": "all histories of two transactions out of 9 kinds x 4 size profiles, the last transaction of all histories of three, and of 8..14-transaction alternations (page reuse), of 3..9-transaction alternations while a reader holds an older state or has just ended, and after 80..280 transactions piled up behind readers; at every file operation: every subset of up to the bound of pending writes (all prefixes, all single losses, all single survivors), every sector-torn write; after recovery one further transaction, also with a map just as large as the file so that it must reuse freed pages; a second crash in the transaction after recovery; transactions rewriting up to 700 pages with chosen crash points and loss patterns; every crash point of the transactions around transactions 256, 32768 and 65536",
           "thorough": "alternations up to 30 transactions, all histories put-all + 4 transactions, every kind of transaction after each recovery with full patterns"},
      note="Exhaustive within the listed histories and loss patterns.", assumptions=CRA)
check("D06", "model_checking", "exhaustive enumeration of single, double and persistent file-operation failures on the real store",
      CR, {"quick": "every commit of 8 transaction kinds x 4 size profiles x 4 histories (new, 1, 3, 14 transactions before), and every open of a new and existing database: each file operation failing, half-done or short; every pair of failing operations; everything failing from each operation on; two and three failing commits in a row; commits of up to 550 pages with chosen operations failing; afterwards same-process contents, crash images, reopening and further transactions",
           "thorough": "the same space with all loss patterns"},
      note="Exhaustive within the listed histories.", assumptions=CRA)
SC = [dict(harness="h_sched", flavour="sched", extra_src=["schd.c"], ld=["-Wl,--wrap=XXH3_128bits", "-Wl,--wrap=XXH3_128bits_update", "-Wl,--wrap=XXH3_128bits_reset", "-Wl,--wrap=XXH3_128bits_digest"], what="schedules of threads over the real code")]
CA = [dict(harness="h_cache", flavour="plain", what="cache histories on the real code against a map")]
check("C01", "model_checking", "exhaustive enumeration of cache transaction histories on the real code against a map model",
      CA, {"quick": "all sequences of length 7 over {upsert 3 paths, commit, abort, reopen, lookup}, length 3 over 12 tricky paths (prefixes, one-byte differences, high bytes, empty), length 4 over long paths; 8 paths agreeing in their first 1..980 characters; paths of 960..70000 characters, stored or refused; entries stored as a lookup of the same transaction returned them: all sequences of length 4..5 over put, copy and commit, all pairs among 10..24 paths; populations up to 3000 paths in 3 orders and several transaction sizes; every write, sync and truncate of a commit failing",
           "thorough": "lengths 8, 4, 5; 6000 paths"}, note=DBN)
check("C02", "model_checking", "exhaustive enumeration of stored and marked subsets on the real code against a set model; exhaustive exploration of the schedules of marking threads",
      CA + SC, {"quick": "every subset stored x every subset marked of 4..5 paths, marked before/after/around storing, two or three sweeps in a row; 8 paths agreeing in their first 1..980 characters; paths of 960..70000 characters; 13 mark patterns x 3 orders x 3 modes on 5..900 paths (up to many pages); every write, sync and truncate of a sweep failing, then swept again; all schedules of 2..4 threads marking 1..4 paths each, up to 3 preemptions; 5..600 marking threads under four deterministic policies",
           "thorough": "5..6 paths; 3000 paths; up to 4 preemptions"}, note=DBN)
check("C03", "model_checking", "exhaustive enumeration of interleavings of several processes and of kill and failure points on the real code",
      CA, {"quick": "owner life cycles of 5 kinds: an intruder opening at every file operation of the owner, the owner killed at every file operation, failing opens followed by another process; contents compared after each; 2 processes x 1..2 rounds and 3 processes: all interleavings at the operations on names and locks with up to 3..4 preemptions and one process killed at any of them, at all file operations with 2 preemptions",
           "thorough": "one more preemption"}, note="Interleaving points are the owner's file operations; lock conflicts between processes only (same-process double opening is not claimed).")
SCN = "Exhaustive within the listed programs and preemption bounds: every synchronisation operation and every racy memory access is a scheduling point, executions reaching a program state visited before with at least the same budget are cut."
SCA = ["sequentially consistent memory", "states are compared by a 64-bit hash of program data, heap, stacks, registers, synchronisation objects and mapped files", "scheduling points inside library functions are their synchronisation operations"]
check("T01", "model_checking", "stateless model checking of the real thread pool under a controlled scheduler with preemption bound and state cache",
      SC, {"quick": "1..2 workers x 0..3 tasks x second round of none,0..2 tasks x 1..2 waits in a row: all schedules with up to 2 preemptions, 1 spurious wake-up, 1 other choice of the woken thread; 2 workers with preemption inside tasks (3 preemptions), 3 workers with 2 and 4+1 tasks, two producers with 1..2 tasks each, failing tasks, tasks adding tasks, two threads waiting at once; 1..4 workers with up to 1100 tasks without preemption; sizes: 24 numbers of workers 5..600 x 3 numbers of tasks and 1 or 4 workers x 11 numbers of tasks 255..70000, with and without waiting, each under four deterministic policies (run until blocked, round robin, youngest first, oldest first)",
           "thorough": "up to 3 workers and 4 tasks, one more preemption"}, note=SCN, assumptions=SCA)
check("T02", "model_checking", "stateless model checking of the real thread pool under a controlled scheduler with preemption bound and state cache",
      SC, {"quick": "shutdown with 1..3 workers x 0..3 tasks, waited for or not, with and without preemption inside tasks: all schedules with up to 3 preemptions (2 with three workers), 1 spurious wake-up, 1 other choice of the woken thread; pools used twice and waited for twice; sizes: 24 numbers of workers 5..600 and 11 numbers of tasks 255..70000, each under four deterministic policies; deadlock and non-termination are detected by the scheduler",
           "thorough": "up to 4 preemptions"}, note=SCN, assumptions=SCA)
check("D05", "model_checking", "stateless model checking of threads using the real store under a controlled scheduler with preemption bound and state cache",
      SC, {"quick": "19 programs of 2..3 threads of updating, aborting, empty and reading transactions (up to 4 transactions per thread) x 3 tree shapes x fresh or used database x in-process and process-shared lock: all schedules with up to 1..3 preemptions; every reader looks by lookup, cursor and lookup again; 1..126 readers with 0..20 writers at once, also around transaction 256, under four deterministic policies",
           "thorough": "all combinations, one more preemption"}, note=SCN, assumptions=SCA)

TR = [dict(harness="h_tree", flavour="plain", perturb=True, ld=["-Wl,--wrap=XXH3_128bits", "-Wl,--wrap=XXH3_128bits_digest"], what="the whole program on enumerated trees and options, compared with an independent computation")]
TRN = "Every run is the real ftwin_main in a child process on a real scratch tree; exhaustive within the listed alphabets, layouts and options."
TRA = ["sizes and contents outside the alphabet are treated like those in it (F08 covers the comparison itself for all sizes)", "fresh heap memory is filled with a non-zero pattern"]
TR_CONT = {"quick": "all assignments of 5 contents (empty, two 1-byte, two 2-byte) to 1..4 files in 3..4 directory/argument layouts, of 9 contents up to 70000 bytes to 3 files, of 3 same-size contents to 5..6 files, of 2 to 7; zero-byte, newline, page- and block-sized contents; each in up to 7 modes (text and JSON, block comparison forced by -x, 1-2 threads, checksum narrowed to 0 or 1 bit so that different files collide); trees of up to 500 files of 1..60 contents x 1..9 copies x 3 size mixes x 3 layouts; scale: sparse files of 2^31 and 2^32 bytes and around, 70000 files, 6000 arguments, paths hundreds of levels deep",
           "thorough": "5 contents on 5 files, 9 on 4, 3 on 7, 2 on 8 in all layouts"}
BG = [dict(harness="h_big", flavour="plain", what="huge sparse files, very many files, very deep paths, very many arguments")]
check("F01", "model_checking", "exhaustive enumeration of small trees, contents and modes, run through the real program; every reported group is checked byte for byte", TR + BG, TR_CONT, note=TRN, assumptions=TRA)
check("F02", "model_checking", "exhaustive enumeration of small trees, contents and modes, run through the real program; the report is compared with the partition of the files in scope by content", TR + BG,
      {"quick": TR_CONT["quick"] + "; every choice of 2..3 overlapping arguments out of 7 x 4 contents x text/JSON", "thorough": TR_CONT["thorough"] + "; the same overlaps"}, note=TRN, assumptions=TRA)
check("F03", "model_checking", "exhaustive enumeration of directory listing orders, argument orders and thread counts, run through the real program and compared with the order-independent result; exhaustive enumeration of worker schedules of the whole program", TR + SC,
      {"quick": "every order (120 each) in which directories list 5 files, in 6 content assignments x flat/nested layouts x 1..4 threads x text/JSON; every order of 5 arguments; every thread count 1..24 on 18 files; 6 trees of 3..6 files x 1..3 threads x text/JSON x mapped/block reading (of the first 4): all schedules of the whole program with up to 2 preemptions (1 with three threads or more than 4 files); 10 thread counts 4..256 under four deterministic policies", "thorough": "6 files (720 orders), 1..64 threads; one more preemption"}, note=TRN, assumptions=TRA)
check("F04", "model_checking", "exhaustive enumeration of names, times, path forms and trees, the JSON output parsed strictly and compared with the model of the tree", TR + BG,
      {"quick": "names containing each ASCII character 1..127, 23 further code points at every encoding-length boundary, every pair of 17 special sequences, as file and as directory name; 24 modification times (epoch, leap days, 2038, negative) x 3 fractions in a non-UTC time zone; 6 forms of the argument; names up to 205 bytes, nested paths of 40..600 bytes of plain, escaped and multi-byte characters; trees of up to 500 files; groups with colliding checksums; scale: sparse files of 2^31 and 2^32 bytes and around, 70000 files, 6000 arguments, paths hundreds of levels deep", "thorough": "additionally every code point below U+3000"}, note=TRN, assumptions=TRA)
check("F05", "model_checking", "exhaustive enumeration of filter option combinations over trees with one file per equivalence class, run through the real program and compared with an independent selection", TR + BG,
      {"quick": "two mirrored 28-file trees with hidden, linked, empty, odd-named files: 9 ignore regexes x 8 whitelists x 7 ignore lists x 11 size windows (pairs and half of the triples) x hidden x case x recursion x links; every size window over files of 0..6 bytes; every subset of hidden components on three-level paths; every subset of 6 kinds of links (chains, loops, outside); regexes with up to 200 groups; ignore lists of 1..300 names of 5..250 characters; filters deciding at the end of paths of 30..600 characters; size windows from 2^31 to 2^33 bytes on sparse files; 6 link names x 9 link targets x 8 rules x hidden, following and recursion, found in a directory or given as argument; inode numbers and devices that agree in all but some bits", "thorough": "all combinations of all filters"}, note=TRN + " Regexes are matched with the same PCRE library.", assumptions=TRA)
check("F10", "model_checking", "exhaustive enumeration of groups, priority paths, listing orders and checksum collisions, run through the real program", TR,
      {"quick": "all assignments of 3 contents to 6 files x 10 priority paths x case sensitivity, JSON with 5 absolute priority paths; every listing order of 6 files x 3 contents x 4 collision modes x 3 priority paths; priority paths of 12..400 characters around powers of two differing in the last one x case x text/JSON; groups among 7..400 files with every 1st..64th on the priority path; 6 separators with and without size lines", "thorough": "7 files"}, note=TRN, assumptions=TRA)

check("F13", "model_checking", "exhaustive enumeration of option pairs and triples in every spelling and order, and of wrong command lines, run through the real program and compared with an independent selection", TR,
      {"quick": "27 options with values: every ordered pair in every spelling (short, long, value joined or separate, flags joined, with or without --), half of the ordered triples, all at once in every rotation, each with and without a terminal; 42 wrong words before, after and between each other option; every missing value and missing argument; help and version at every position; both with errors ending the process and returning", "thorough": "all triples in 8 spellings"}, note=TRN, assumptions=TRA)

FA = [dict(harness="h_fault", flavour="plain", perturb=True, what="the whole program with a failing call or a changing file at every position")]
check("F07", "model_checking", "exhaustive enumeration of failing calls and of file changes at every position of real runs, the report compared with what the readable files require", FA,
      {"quick": "8 trees (pairs, hashed groups, nested directories, 70000-byte and empty files, files as arguments) x text/JSON x mapped/block reading: every open, map, read, stat, directory and close call failing once with every of 1..4 error codes; every path failing persistently in each of 7 kinds of calls; each file emptied, cut, extended, rewritten, replaced, deleted or turned into a directory before each of its openings (11 changes); every pair of files x 121 pairs of changes between scan and first opening; every pair of failing calls on the two basic trees; 6^3 file modes x 5 directory modes x 4 ownerships (own, group, supplementary group, other) as an ordinary user",
       "thorough": "pairs of changes and pairs of failing calls on all trees and modes"}, note=TRN, assumptions=["changes happen between openings, not while a file is mapped"])
check("F09", "model_checking", "exhaustive enumeration of option subsets and failing calls on real runs; the complete state of the tree, created files, descriptors and mappings compared before and after", FA,
      {"quick": "all 2048 subsets of 11 flags on a tree with hidden, linked, empty, large and ignored files, plus subsets with filters and image mode; every call failing once on 8 trees x 4 modes; 3..200 files with descriptor limits of 16..46, all, none or half of the mappings refused; archive members (7 sets, text and JSON) with every call failing",
       "thorough": "every error code for every call"}, note=TRN, assumptions=["access times are not part of the compared state"])
IG = [dict(harness="h_ignore", flavour="asan", what="patterns, pattern lists and ignore files against the gitignore reference")]
check("F06", "model_checking", "exhaustive enumeration of patterns, pattern lists, ignore files and paths; the real matcher and the real program compared with a reference of the gitignore rules that was itself compared with git", IG + TR,
      {"quick": "matcher: every pattern of up to 5 characters out of 13 (letters, wildcards, brackets, slash, backslash, '!', blank) against 69 paths as file and as directory; every class of up to 4 characters out of 12 and of 5..6 out of 6, every named class in 14 forms, every escaped and literal byte, against every byte; every path of up to 4 components out of 11 with and without leading and trailing slash; every list of up to 3 patterns out of 24 spread over 3 levels; every ignore file of up to 3 lines out of 14 with either line end; lines of 1..2^20 characters; files of up to 66000 patterns; up to 300 levels of patterns; 8 base directories. program: every default pattern as file and directory on 3 levels with near misses and re-inclusion in 4 argument forms; ignore files on 3 levels with lines out of 24, on two levels of chains of up to 45 directories, and with many lines",
       "thorough": "patterns of 6 characters out of 10, classes of 6, paths of 5 components, all lists and all level combinations"}, note="The reference was compared with git check-ignore on all patterns up to length 4 (tools/gitref_vs_git.py). " + TRN,
      assumptions=["left open: blanks at the start of a pattern, two or more stars after other characters of a component (git and its documentation disagree), patterns with exponential matching time, ignore files above the arguments"])
AR = [dict(harness="h_arch", flavour="plain", what="extraction of archive members")]
check("F11", "model_checking", "exhaustive enumeration of archives, cuts, damages and failing file operations, the real extraction compared with the bytes put into the archive", AR,
      {"quick": "tar archives of 1..3 members of 8 sizes (0..70000) in 4 formats x 6 compressions (a third to a half of the combinations of 2..3 members); 12 names in all ordered pairs; links, directories, fifos and devices at every position; 74 member modes x 4 masks x root and ordinary user; members with holes; names agreeing in their first 8..1000 characters; members of up to 9.4 MB and behind up to 300 others; archives cut at every byte (compressed) or around every block end and every 24th byte (plain); every header byte damaged in 3 ways; 12 extractions with every file operation failing once or from then on with 4 error codes, short reads and writes",
       "thorough": "all combinations, all cuts, 8 damages, all modes"}, note="Exhaustive within the listed alphabets.", assumptions=["damage inside member data of an uncompressed archive cannot be noticed and is left open", "which of several members of the same name is taken is left open"])
IM = [dict(harness="h_image", flavour="plain", perturb=True, what="image mode on all similarity relations (table-driven distances) and on real pictures")]
check("F12", "model_checking", "exhaustive enumeration of similarity relations, unreadable files, thresholds and names, run through the real program with the picture library's answers taken from a table; plus all subsets of a set of real pictures with the real library", IM + SC,
      {"quick": "1..4 pictures: all assignments of below, at and above the threshold to the pairs x all sets of unreadable files x 6 thresholds (with 4: one threshold per unreadable set); 5 pictures: all relations with none or one unreadable; chains of 5; every 5th subset of 12 file names x hidden x recursion; subsets of 11 real pictures (PNG, JPEG, GIF, resized, cut, empty) of up to 5 and a quarter of the larger ones x 1..2 thresholds; 12..520 pictures x 7 relations x 4 patterns of unreadable ones; every pair of 17 other options before and after -I; all schedules of the four workers on 2..4 pictures with one preemption",
       "thorough": "all unreadable sets, thresholds, names and subsets; two preemptions"}, note=TRN, assumptions=["the distance between two pictures is what libpuzzle computes", "fresh heap memory is filled with a non-zero pattern"])
