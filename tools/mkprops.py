#!/usr/bin/env python3
"""Writes properties.jsonl (source of truth for the property list)."""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mech]}
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q),
                  why_tests_cant=why, anchors=a))
E="dnstable/entry.c"; Q="dnstable/query.c"; M="dnstable/merge.c"; R="dnstable/reader.c"; QM="dnstable/query_mtbl.c"
NB="The only test that runs here is a table of checksum vectors; the dnstable suites need libmtbl/libwdns and a handful of fixed data files. "

p("C01","Decoding a stored record reproduces exactly what was stored",
  "Decoding a well-formed stored record (rrset, rrset-name, rdata, rdata-name, time-range, version or source-info) reproduces exactly the owner name, bailiwick, record type, every rdata in stored order, observation count and first/last times that were stored, together with the right entry type. Fields a kind of record does not carry are reported as absent, a count of zero reads as one, an absent last-seen time reads as the first-seen time, and an index past the last rdata is refused.",
  ["inputs"],"every well-formed key/value of the seven record kinds, all names, types, times, counts",
  NB+"Their data files sample a few dozen records and never vary varint widths, slices or rdata counts.",
  [E,"dnstable/triplet.c","dnstable/dnstable-private.h","libmy/varint.c"],
  [("record decoding","entry.c: dnstable_entry_decode, decode_val"),("accessors","entry.c: dnstable_entry_get_*"),("triplet/pair unpacking","triplet.c")],["dnstable_entry_get_* results"])
p("C02","Malformed stored records are rejected and never read out of bounds",
  "Decoding any byte string as a stored record yields the entry it encodes if the string is well-formed under the record grammar and no entry otherwise; it never reads outside the key or value and never crashes. An iterator over a table holding malformed records skips exactly those and still delivers every well-formed record.",
  ["inputs"],"every key and value byte string, including every truncation and corruption of well-formed records",
  NB+"No test feeds a truncated or corrupted record.",
  [E,"dnstable/triplet.c","dnstable/iter.c"],
  [("length checks while decoding","entry.c: dnstable_entry_decode"),("skip on failed decode","iter.c / reader.c / query.c next functions")])
p("C03","The type index on a name record answers membership exactly",
  "For a name-index record with a well-formed index, asking whether a record type is present answers yes exactly for the types the stored index lists (one type, two-byte type, or bitmap form), and listing the types yields them all, ascending, once each. A record without an index reports no list, and then membership answers yes for any type on an owner-name record and only for name-bearing types on an rdata-name record.",
  ["inputs"],"every set of 16-bit types in every index form, every queried type, corrupt indexes",
  NB+"Only a few type sets appear in the fixtures.",
  ["dnstable/entry.c",M,"dnstable/dnstable-private.h"],
  [("bitmap test","entry.c: rrtype membership"),("bitmap unpack","rrtype_union_unpack")])
p("C04","Merging observations keeps earliest, latest and total count",
  "Merging any number of stored observations of the same rrset or rdata yields one stored value whose first-seen number is the least, whose last-seen number is the greatest, and whose count is the sum of the inputs' counts (below 2^64). The result does not depend on the order or grouping in which the observations are merged.",
  ["inputs","histories"],"all multisets of observations of one key, all merge orders and groupings, 64-bit values",
  NB+"Merging is exercised on one pair of files.",
  [M,"dnstable/triplet.c"],[("triplet merge","merge.c: dnstable_merge_func"),("encoding","triplet.c: triplet_pack")])
p("C05","Merging index and metadata records unions types and widens ranges",
  "Merging name-index records yields an index of exactly the union of the listed types, and a record without an index (meaning all types) absorbs the others; merging time-range records yields the smallest range covering all inputs; merging version records keeps the lowest version. Every such merge is independent of order and grouping, an empty value absorbs, and merging source-info records keeps one of them unchanged.",
  ["inputs","histories"],"all sets of 16-bit types in every stored form, all ranges and versions, all merge orders",
  NB+"The fixtures never merge large bitmaps or boundary types.",
  [M],[("bitmap union","merge.c: merge_rrtype_bitmaps"),("version/time-range","merge.c: dnstable_merge_func")])
p("C06","An rrset lookup returns exactly the matching records",
  "A lookup of an owner name returns every stored rrset with that owner and no other; adding a record type or a bailiwick narrows the result to records with that type or bailiwick, and asking for ANY does not narrow it. Each matching stored record is returned once, with its own data.",
  ["inputs"],"every store content, owner name, type and bailiwick",
  NB+"A few names in a few fixed stores are looked up.",
  [Q],[("key prefix construction","query.c: query_init_rrset"),("filters","query.c: filter_rrtype, filter_bailiwick")])
p("C07","Wildcard rrset lookups return exactly the names under the pattern",
  "A lookup for `*.suffix` returns exactly the rrsets whose owner is the suffix or lies below it, and `prefix.*` exactly those whose owner starts with the prefix labels; with `+` in place of `*`, exactly those with one label in its place. Type and bailiwick narrowing applies to wildcard lookups as to exact ones, and matching is always on whole labels.",
  ["inputs"],"every store content and wildcard pattern, including names whose labels look like each other's prefixes",
  NB+"Only a few patterns are sampled; label-boundary collisions are not.",
  [Q],[("left wildcard","query.c: query_init_rrset_left_wildcard"),("right wildcard","query.c: query_init_rrset_right_wildcard"),("single label","query.c: filter_single_label")])
p("C08","An rdata name lookup returns exactly the records naming that name",
  "A lookup of a name in rdata returns exactly the stored rdata records of the name-bearing types whose searchable data begins with that name (for types whose data is one name: equals it), narrowed by record type when one of those types is given; wildcard patterns match target names by whole labels as for owner names. Every matching record is returned once and records whose target merely ends or starts with the same characters are not returned.",
  ["inputs"],"every store content, target name, wildcard, type and bailiwick",
  NB+"A few target names are sampled.",
  [Q],[("rdata name","query.c: query_init_rdata_name*"),("type filters","query.c: filter_rrtype_rdata*")])
p("C09","An address lookup returns exactly the addresses in the asked range",
  "A lookup of an IPv4 or IPv6 address, prefix or range returns exactly the address records (A for IPv4, AAAA for IPv6) whose address lies in the inclusive range, and no record of another type or family. Results come in ascending address order.",
  ["inputs"],"every store content, address, prefix length 0..32/0..128 and range",
  NB+"A few prefixes are sampled; range ends and short keys are not.",
  [Q,"libmy/ip_arith.h"],[("range bounds","query.c: dnstable_query_set_data_rdata_ip"),("seek filter","query.c: filter_rrtype_ip")])
p("C10","A raw rdata lookup returns exactly the records with those bytes",
  "A raw rdata lookup returns exactly the stored rdata records whose searchable form (rdata, then type, then owner name, as stored) begins with those bytes, narrowed by record type when given. In particular every record whose complete rdata equals the bytes is returned, each once, and no record whose rdata differs within the given bytes is.",
  ["inputs"],"every store content and rdata byte string",
  NB+"Two raw lookups are sampled.",
  [Q,E],[("raw rdata","query.c: query_init_rdata_raw"),("length trailer","entry.c rdata decoding")])
p("C11","Time fences select exactly the records whose times satisfy them",
  "Each of the four time bounds (first seen before/after, last seen before/after) is inclusive and applied to the record as merged over the whole store, so adding bounds returns exactly the unbounded result filtered by them. This holds however the observations (each with first no later than last) are divided among the files of a set, including when whole files lie outside the bounds.",
  ["inputs","configurations"],"every store content, division into files, subset of bounds and values",
  NB+"One fixed set of small files is sampled.",
  [Q,"dnstable/query_mtbl.c","dnstable/util.c"],
  [("record filter","query.c: filter_time"),("pre-filtering by file","query.c / query_mtbl.c: time prefilter, ljoin, remove")])
p("C12","Unaggregated results list each file's observations separately",
  "With aggregation turned off, a lookup on a set of files returns one record per matching observation in each file, unmerged, and all other restrictions apply to each of them separately. The merged multiset of these results equals the aggregated result when no time bounds are given.",
  ["inputs","configurations"],"every division of observations into files and every query kind",
  NB+"One test file set is sampled.",
  [Q,R],[("no-merge source","query.c: aggregate handling"),("dup source","mtbl fileset options")])
p("C13","An offset skips exactly that many results",
  "A lookup with offset k returns exactly the result list of the same lookup without offset with its first k entries removed, whatever other restrictions are set. The same query object can be executed again and gives the same answer.",
  ["inputs","histories"],"every query, store and offset, repeated execution",
  NB+"Offsets are sampled on one store; re-execution is not.",
  [Q],[("offset","query.c: filter_offset")])
p("C14","Timeouts end a lookup early and never lose or invent results",
  "When a query's time limit passes the iterator reports a timeout instead of the end of results, every record returned before that belongs to the answer in order, and no record is skipped: continuing after a timeout yields the remaining records exactly. A lookup that finishes within its limit reports the complete answer and never a timeout.",
  ["schedules","histories"],"every point in a scan at which the clock passes the limit, every query kind",
  NB+"Timeouts are exercised once with a real sleep.",
  [Q],[("clock wrapper","query.c: timeout iterator"),("result codes","query.c: query_iter_next")])
p("C15","Answers do not depend on how data is split or ordered among files",
  "For every query, the answer from a set of files equals the answer from a single file holding the merged records, whatever the division of records into files, the order files are listed in and the order equal keys are merged in. Results arrive in stored-key order, each distinct record once.",
  ["configurations","schedules"],"every division of a record multiset into files and merge order",
  NB+"A single division is sampled.",
  [Q,R,M],[("merging source","reader.c: setfile reader, mtbl merger"),("merge function","merge.c")])
p("C16","Names match without regard to letter case unless case is kept",
  "Unless case sensitivity is requested, a query gives the same answer whatever the letter case of the name or bailiwick it was given. With case sensitivity the name is matched byte for byte while bailiwick is still matched without regard to case.",
  ["inputs"],"every name, every assignment of letter case, all name query kinds",
  NB+"One mixed-case query is sampled.",
  [Q],[("downcasing","query.c: dnstable_query_set_data, set_bailiwick")])
p("C17","Filtering an entry by a query agrees with running the query",
  "Testing a single entry against a query accepts it exactly when its record type, bailiwick and times satisfy the restrictions set in that query. An entry returned by running the query is always accepted by testing it against the same query.",
  ["inputs"],"every query and entry", NB+"The function is only called on results that match.",
  [Q],[("filter","query.c: dnstable_query_filter")])
p("C18","A full scan by record kind yields exactly the records of that kind",
  "Scanning a reader for rrsets, owner names, rdata or rdata names yields every stored record of that kind, in key order, once, and nothing else, for a single file and for a set of files (merged). A scan of everything yields all kinds.",
  ["inputs","configurations"],"every store content and file division",
  NB+"Scans are exercised on one file.",
  [R,"dnstable/iter.c"],[("prefix scans","reader.c: dnstable_reader_iter_*")])
p("C19","JSON rendering is valid and carries exactly the record",
  "Rendering an entry as JSON always yields one valid JSON object carrying exactly the record's name, type, bailiwick, rdata, count and times, with numbers unrounded and all strings escaped so they read back to the original text. Rendering options change only the presentation they name (date format, always-array rdata, raw rdata in hexadecimal).",
  ["inputs"],"every entry, including names and rdata with arbitrary bytes, and every option combination",
  NB+"A few entries' JSON is compared to fixed text.",
  [E,"libmy/my_format.c"],[("JSON formatting","entry.c: dnstable_entry_to_json / formatter")])
p("C20","Text rendering carries exactly the record",
  "Rendering an entry as text shows the record's bailiwick, count, first and last seen times (labelled as zone times when the iterator says so) and one line per rdata with owner, type and value, in stored order, in the fixed master-file layout; rdata entries render as one line. A time with no calendar form is shown as seconds.",
  ["inputs"],"every entry and option combination", NB+"A few entries' text is compared.",
  [E],[("text formatting","entry.c: dnstable_entry_to_text")])
p("C21","Statistics counters count what the lookup really did",
  "The counters of a lookup report how many entries were examined, filtered and produced at each stage: every produced entry was counted as examined, every entry a stage discarded is counted at that stage, and a lookup that discards nothing counts nothing. Counters never decrease while iterating, reading them never changes the lookup, and stage and category names are distinct, stable and parse back.",
  ["inputs","histories"],"every query, every prefix of the result stream",
  NB+"Counters are printed for a few queries.",
  [Q,"dnstable/dnstable.h.in"],[("counters","query.c: counter arrays, dnstable_iter_get_count")])
p("C22","Iterator combinators compute filter, difference and join exactly",
  "The filter, set-difference and left-join iterators yield exactly the left entries accepted by the predicate, exactly the left entries whose key is absent on the right, and exactly the left entries combined with the equal-key right entry when there is one. After seeking to any key, in any direction and at any time, iteration continues exactly with the entries at or after that key.",
  ["inputs","histories"],"all sorted inputs and all interleavings of next and seek",
  NB+"The combinators are only reached through a few queries and never sought backwards.",
  [QM],[("filter","query_mtbl.c: filter_mtbl"),("difference","query_mtbl.c: remove_mtbl"),("join","query_mtbl.c: ljoin_mtbl")])
p("C23","A reader of a set file follows it",
  "After a reader made from a set file is told to reload, its scans and lookups answer from exactly the files the set file then names (those that exist, in any order, each once), merged as for any list of files; until it is told, from those it had. A query object executed again after a reload answers from the new files. An iterator opened earlier goes on delivering exactly what the files of its own beginning hold, and never a mixture of two lists.",
  ["histories"],"every sequence of replacing the set file, reloading, opening, reading part of and closing scans and lookups",
  NB+"No test reloads a set file.",
  ["dnstable/reader.c",Q],[("reader over a set file","reader.c: dnstable_reader_init_setfile, dnstable_reader_reload_setfile, reader_iter_*"),("lookups over a set file","query.c: dnstable_query_iter_fileset")])
p("C24","Unusable query parameters are refused and explained",
  "Setting a parameter that is malformed or does not apply to the kind of query is refused and leaves an explanation; setting a valid one succeeds and clears none of the others. A refused setting never makes a later execution of the query crash.",
  ["inputs","histories"],"every sequence of parameter settings with every kind of query and argument",
  NB+"Only valid settings are tested, and a few refusals.",
  [Q],[("setters","query.c: dnstable_query_set_*")])
p("C25","The lookup tool answers with the library's records for its arguments",
  "The lookup command prints exactly the records that the query its arguments describe selects, in the requested format, interpreting time arguments in every documented form and applying strict time mode, offset, limit, case and aggregation options as documented. Invalid arguments are refused with a non-zero exit and no results.",
  ["inputs"],"every combination of options, time expressions and stores",
  NB+"The command-line suite samples fixed commands.",
  ["src/dnstable_lookup.c"],[("argument handling","dnstable_lookup.c: main, parse_time"),("output loop","dnstable_lookup.c: do_dump")])
p("C26","The dump tool prints every record of the selected kind once",
  "The dump command prints every decodable record of the one selected kind (rrset, rdata, rrset names, rdata names, time range, version, source info) in the given file, once, in key order, in the requested format (text, JSON, or JSON with raw rdata), and nothing of another kind. Command lines it documents as invalid (no kind, two kinds, raw without JSON or for another kind, no file or several, a file that cannot be opened) are refused with a failure status and print no records.",
  ["inputs"],"every store and option combination", NB+"The command-line suite samples fixed commands.",
  ["src/dnstable_dump.c"],[("scan and print","dnstable_dump.c: do_dump")])

p("C27","The merge command passes its arguments on and writes the full merge",
  "The merge command, given at least an input and an output, runs the table merger exactly once with exactly the arguments it was given (each file name intact, whatever characters it contains) and the library's merge function, and ends with the merger's status. After a successful run the output table holds every key of any input, once, in ascending order, with the merge of the values the inputs hold for it; merging in several runs, in any grouping, gives a table of the same meaning as one run over all. Command lines without an input or output are refused with a failure status and touch nothing.",
  ["inputs","histories"],"every argument list, file name, set of tables and sequence of merge runs", NB+"No test in this environment runs the command; upstream it is run on fixed plain file names.",
  ["src/dnstable_merge.sh.in","dnstable/merge.c","dnstable/libdnstable.sym"],[("argument check and hand-over","dnstable_merge.sh.in"),("merge function","merge.c: dnstable_merge_func")],["output table","exit status"])

# libmy
p("C28","What the caller holds stays as it is; all that was taken is given back",
  "An entry handed out by an iterator belongs to the caller: whatever is done meanwhile to its iterator, query, reader, set file or other entries, it reads the same until it is destroyed, and so do texts made from it. Arguments passed to the library may be overwritten or freed after the call. Once everything the caller took (readers, queries, iterators, entries, texts) has been given back, the memory and open files in use are what they were before, however often it is repeated, including refused settings, searches without result, searches cut short and malformed records.",
  ["histories","inputs"],"every order of taking, using and giving back readers, queries, iterators, entries and texts that the interface permits, on every kind of search",
  NB+"No test looks at an entry after moving on, none repeats a life, and leaks fail no assertion.",
  [Q,R,E,"dnstable/iter.c",QM],
  [("what an iterator owns","query.c: query_iter_free, dnstable_query_iter"),("replaced settings","query.c: dnstable_query_set_*, dnstable_query_destroy"),("entry copies","entry.c: dnstable_entry_decode, dnstable_entry_destroy"),("reader","reader.c: dnstable_reader_destroy")])
p("C29","Searches running at the same time do not disturb one another",
  "Any number of searches and scans may be open at once, on one reader or on several, advanced in any order, and readers, queries, iterators, entries and formatters that no two threads share may be used in different threads at the same time. Each search delivers, and each entry reads and is rendered as text and JSON, exactly as if it were the only one; no data is accessed by two threads without order.",
  ["schedules","histories"],"every interleaving of the steps of several searches, scans and renderings, within one thread and between threads",
  NB+"Every test runs one search at a time in one thread.",
  [Q,R,E,"dnstable/iter.c",QM,M],
  [("state of a search","query.c: struct query_iter, query_iter_next"),("walk keys","query.c: filter_single_label"),("joined values","query_mtbl.c: ljoin_iter_next"),("calendar times","entry.c: fmt_rfc3339_time_*"),("decoding","entry.c: dnstable_entry_decode")])
p("C30","The queue delivers every element once, intact and in order",
  "With one producer and one consumer running concurrently, every element whose insertion succeeded is removed exactly once, intact and in insertion order; insertion fails only when the queue is full and removal only when it is empty. The reported remaining space and element counts are accurate for the calling side, and a queue is only created for power-of-two sizes of at least two.",
  ["schedules","histories"],"every interleaving of producer and consumer steps and every operation history, for both implementations",
  "No test exercises the queue; a test samples a few of the interleavings a scheduler can produce.",
  ["libmy/my_queue_mb.c","libmy/my_queue_mutex.c","libmy/my_queue.c","libmy/my_memory_barrier.h"],
  [("copy, barrier, publish","my_queue_mb.c: insert/remove"),("lock","my_queue_mutex.c")],
  state=[("head/tail","next slot to fill / to drain","struct my_queue")])
p("C31","A file set tracks its list file exactly, loading each file once",
  "After a reload following a change of the list file (new inode or modification second), the set contains exactly the listed files that exist, in name order, each loaded once; files that stay listed keep their loaded value, files no longer listed are unloaded exactly once, and a reload without a change does nothing. Destroying the set unloads every remaining member exactly once.",
  ["histories","fault_sequences"],"every sequence of list edits, file creations and removals, and reloads",
  "No test exercises the file set.",
  ["libmy/my_fileset.c"],[("reload","my_fileset.c: my_fileset_reload")],
  state=[("entries","currently loaded files","struct my_fileset")])
p("C32","A spool directory hands out each file once and moves it atomically",
  "Each call hands out at most one file that was present in the incoming directory by moving it to the active directory under the same name, and every regular visible file is handed out exactly once, however many callers share the spool. Hidden files and non-regular files are never handed out, and an empty spool returns nothing.",
  ["schedules","histories","fault_sequences"],"every history of arrivals and calls, several callers, name collisions and failing moves",
  "No test exercises the spool directory.",
  ["libmy/spooldir.c"],[("scan and rename","spooldir.c: spooldir_next")])
p("C33","The rate limiter never runs faster than its ticks and never oversleeps",
  "Each call of the rate limiter returns no earlier than the next tick of its period unless that tick has already passed, and it never sleeps beyond that tick. Over any run the average rate is held close to the requested rate, with corrections of at most one percent each time the rate is re-evaluated, and re-evaluation happens exactly at the configured frequency.",
  ["histories"],"every sequence of call times, rates and frequencies",
  "No test exercises the rate limiter.",
  ["libmy/my_rate.c","libmy/my_time.h"],[("tick computation","my_rate.c: calc_next_tick, adjust_rate, my_rate_sleep")])
p("C34","A heap always yields its least element and loses nothing",
  "Whatever sequence of pushes, batched additions with a rebuild, replacements, clips and resets is applied, popping returns an element no greater than any other held, and the elements held are exactly those added and not yet removed. Peeking returns what the next pop would, and positional access returns nothing past the end.",
  ["histories"],"every operation history and every ordering, with duplicates",
  "No test exercises the heap.",
  ["libmy/heap.c"],[("sift","heap.c: siftup, siftdown, heap_heapify")])
p("C35","Balanced and splay trees behave as ordered sets",
  "After any sequence of insertions and removals, the balanced tree and the splay tree hold exactly the inserted and not removed elements, refuse duplicates by returning the present element, find, find-next, minimum, maximum and in-order traversal agree with the sorted order. The balanced tree keeps its height within the logarithmic bound of its balancing rules.",
  ["histories"],"every insertion/removal/lookup history",
  "No test exercises the trees.",
  ["libmy/tree.h"],[("rebalancing","tree.h: RB_GENERATE"),("splaying","tree.h: SPLAY_GENERATE")])
p("C36","Linked lists keep exactly the inserted order in both directions",
  "After any sequence of prepends, appends, inserts before or after a member, unlinks and list concatenations, forward traversal yields exactly the expected order and backward traversal its reverse, and removed elements are marked unlinked. Head, tail and emptiness always agree with that order.",
  ["histories"],"every operation history", "No test exercises the lists.",
  ["libmy/list.h"],[("link updates","list.h macros")])
p("C37","Growable vectors and byte buffers hold exactly what was put in",
  "After any sequence of adds, appends, extends, clips, resets, reservations, advances and detaches, a vector or byte buffer holds exactly the logical sequence of elements, its size reports their number, and writes through the reserved tail become part of the content. String helpers on byte buffers append, format, terminate and strip as specified without disturbing earlier content.",
  ["histories"],"every operation history over sizes crossing every growth boundary",
  "No test exercises them directly.",
  ["libmy/vector.h","libmy/ubuf.h"],[("growth","vector.h: VECTOR_GENERATE"),("string helpers","ubuf.h")])
p("C38","Variable-length integers round-trip and consume exactly their bytes",
  "Every 32-bit and 64-bit value encodes to the shortest base-128 form, whose length the length functions predict, and decodes to the same value consuming exactly those bytes, reading nothing beyond the terminating byte. A byte string without a terminating byte within the maximum length is reported as unusable.",
  ["inputs"],"every 64-bit value and every byte string up to the maximum encoded length",
  "No test exercises the codec.",
  ["libmy/varint.c"],[("codec","varint.c")])
p("C39","Base32 encoding and decoding follow the extended-hex alphabet exactly",
  "Encoding produces the unpadded RFC 4648 extended-hex form of the input, cut off at the given output size, and never writes past it. Decoding reverses it for either letter case, refuses characters outside the alphabet, and never writes past the given output size.",
  ["inputs"],"every byte string, character string and output size","No test exercises the codec.",
  ["libmy/b32_encode.c","libmy/b32_decode.c"],[("codec","b32_*.c")])
p("C40","Base64 encoding and decoding round-trip across any chunking",
  "Encoding a byte sequence fed in any division into chunks yields the RFC 4648 base64 text of the whole, and decoding that text fed in any division into chunks yields the bytes back. Characters outside the alphabet are skipped when decoding.",
  ["inputs","histories"],"every byte sequence, every chunking, every interspersed foreign character",
  "No test exercises the codec.",
  ["libmy/b64_encode.c","libmy/b64_decode.c"],[("streaming codec","b64_*.c")])
p("C41","Number and hexadecimal text conversions are exact and bounded",
  "Formatting bytes or numbers as hexadecimal or decimal text yields exactly their digits, terminated and within the given buffer; decoding hexadecimal text yields exactly its bytes or refuses it; reading an integer environment variable yields its value or refuses non-numbers. Nothing is ever written outside the caller's buffer.",
  ["inputs"],"every value, byte string, text and buffer size","No test exercises them directly.",
  ["libmy/my_format.c","libmy/hex_decode.h","libmy/getenv_int.h"],[("formatting","my_format.c"),("hex","hex_decode.h"),("environment","getenv_int.h")])
p("C42","Address arithmetic gives exact prefix bounds and successors",
  "For every IPv4 and IPv6 address and prefix length, the lower bound has all host bits cleared, the upper bound has all host bits set, and both keep the prefix bits. Incrementing an address yields the numerically next one, carrying across all bytes and wrapping after the last.",
  ["inputs"],"every address and prefix length","No test exercises it directly.",
  ["libmy/ip_arith.h"],[("mask arithmetic","ip_arith.h")])
p("C43","Command-line parsing sets exactly the options the arguments name",
  "Parsing a command line sets exactly the variables of the options given, to the values given, in any documented spelling (short, long, combined, with = or separate value), applies documented incompatibility, mandatory and array rules, and refuses unknown options and missing values. Options not given leave their variables unchanged.",
  ["inputs"],"every option table and argument vector","No test exercises the parser directly.",
  ["libmy/argv.c"],[("parser","argv.c: argv_process, do_list, string_to_value")])
p("C44","Text replacement and quoted printing are exact",
  "Replacing a substring yields the text with every non-overlapping occurrence, scanned left to right, substituted and everything else unchanged. Printing a byte string in quoted form escapes quotes and non-printable bytes and shows all others as they are.",
  ["inputs"],"every text, pattern and replacement; every byte string","No test exercises them.",
  ["libmy/string_replace.h","libmy/print_string.h"],[("replace","string_replace.h"),("print","print_string.h")])
p("C45","The checksum equals CRC-32C for every input in every implementation",
  "Every implementation of the checksum returns the CRC-32C (Castagnoli) of its input for every length, content and buffer alignment, and all implementations agree. It reads nothing outside the given bytes.",
  ["inputs","configurations"],"every byte string, length and alignment; both implementations",
  "Sixteen fixed vectors are tested with whichever implementation the machine selects.",
  ["libmy/crc32c.c","libmy/crc32c-slicing.c","libmy/crc32c-sse42.c"],[("slicing tables","crc32c-slicing.c"),("hardware","crc32c-sse42.c"),("dispatch","crc32c.c")])
p("C46","The string hash equals the published lookup3 function",
  "Each hash function returns the published Bob Jenkins lookup3 value for every key, length, seed and alignment, the word and byte variants agree where specified, and nothing outside the key influences the value.",
  ["inputs"],"every key, length, alignment and seed","No test exercises the hash.",
  ["libmy/lookup3.c"],[("mix/final","lookup3.c")])
p("C47","Reading a zone file yields its records in order and stops at the end",
  "Reading a zone file delivers its leading start-of-authority record first and then every other record in file order exactly once, skipping blank, comment, TTL and origin lines and stopping at a repeated start-of-authority record or the end of the file. A file whose name ends in .gz is read as what it decompresses to, whatever characters its name contains. The reported count, domain and serial are those of the zone, and a file not starting with a start-of-authority record is refused.",
  ["inputs","histories"],"every sequence of zone-file items","No test exercises the reader.",
  ["libmy/zonefile.c"],[("read loop","zonefile.c: read_soa, zonefile_read")])
p("C48","Time-span arithmetic is exact and stays normalised",
  "Adding, subtracting and comparing times with nanosecond parts gives exactly the integer result with the nanosecond part kept in range, and converting a non-negative span in seconds to a time and back preserves it to a nanosecond scale. Sleeping resumes after interruption until the whole span has passed.",
  ["inputs","fault_sequences"],"every pair of normalised times; every sequence of interruptions","No test exercises it.",
  ["libmy/my_time.h"],[("arithmetic","my_time.h")])
p("C49","Small concurrency and I/O helpers are exact under interference",
  "Threads that register obtain consecutive distinct numbers that stay theirs; the atomic counters and pointers apply every concurrent update exactly once and report the documented result; reading a given number of bytes either fills the buffer completely, across short reads and interruptions, or reports failure.",
  ["schedules","fault_sequences"],"every interleaving of threads; every sequence of short reads, interruptions and errors",
  "No test exercises them.",
  ["libmy/threadnum.c","libmy/atomic.h","libmy/atomic_64.h","libmy/atomic_ptr.h","libmy/read_bytes.h"],
  [("registration","threadnum.c"),("atomics","atomic*.h"),("read loop","read_bytes.h")])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
