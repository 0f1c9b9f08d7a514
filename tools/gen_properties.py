#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
BASE = "The 4 baseline tests only run the JSON tester programs, which assert nothing about this; "

p("C01", "Growable strings hold exactly what was written to them",
  "A string built by formatting, by length-delimited copy, by character append, by formatted append or by replacement holds exactly the bytes that printf-style formatting / concatenation defines, NUL-terminated, whatever the lengths involved and whether or not the buffer had to grow. A string created with a requested capacity offers at least that many bytes, and the end pointer is the terminator. No operation writes outside the string's block.",
  ["inputs","histories"], "every sequence of string operations, every content length relative to the block capacity, both growth strategies",
  BASE+"growth happens only at particular lengths relative to the rounded capacity, which sampled strings miss.",
  ["str.c","cee-resize.h"], [("formatted construction","str.c cee_str_mkv/mk_e"),("capacity rounding and growth","cee-resize.h, str.c cee_str_add/catf/replace")],
  ["cee_str_mk","cee_str_mkv","cee_str_mk_e","cee_str_strn","cee_str_add","cee_str_catf","cee_str_ncat","cee_str_replace","cee_str_end"])
p("C02", "Trimming and substring replacement are exact",
  "Right/left trimming removes all and only the trailing/leading white space. Offset replacement and replace-all return a fresh string equal to the textbook left-to-right non-overlapping replacement for every text, needle(s) and replacement, with the size reported where a size is returned. None of them reads or writes outside its buffers.",
  ["inputs"], "every text over a small alphabet up to a length bound, every needle/replacement (shorter, equal, longer, overlapping, absent, at either end)",
  BASE+"size estimates are wrong only for particular ratios of text, needle and replacement lengths.",
  ["str.c"], [("trim loops","str.c cee_str_rtrim/ltrim"),("buffer size estimate and copy loops","str.c str_replace_*")],
  ["cee_str_rtrim","cee_str_ltrim","str_replace_at_offset","str_replace_all","str_replace_all_ext"])
p("C03", "A list behaves as a sequence",
  "After any history of append, insert, remove, iterate and merge, a list holds exactly the elements, in exactly the order, that the same history applied to a mathematical sequence gives; size and capacity are consistent (size <= capacity), removal outside the range changes nothing, and iteration visits elements in order and stops at, and returns, the first non-zero result (zero when none). Growth never loses, duplicates or reorders elements.",
  ["histories","inputs"], "every operation sequence over all insertion/removal positions, from every initial capacity",
  BASE+"growth steps and shift boundaries (first, last, full) interact over sequences of operations.",
  ["list.c","cee-resize.h"], [("shift and growth","list.c"),("growth policy","list.c extend size")],
  ["cee_list_append","cee_list_insert","cee_list_remove","cee_list_size","cee_list_capacity","cee_list_iterate","cee_list_merge"])
p("C04", "A map behaves as a finite map",
  "After any history of add, find, remove, rename, iterate, keys, values, merge and clone, a map answers exactly as a finite map does: at most one value per key, add on an existing key replaces the value and returns the old one, remove returns the removed value, rename moves the value, size is the number of keys. Iteration, keys and values list each entry exactly once (in an unspecified order, the same for the key and the value list) and iteration stops at, and returns, the first non-zero callback result; the insertion-ordered key list follows the order in which present keys were first added. A NULL map is treated as documented.",
  ["histories","inputs"], "every operation sequence on every reachable tree shape over a small key alphabet",
  BASE+"rebalancing after removal depends on the tree shape; only whole families of histories reach all shapes.",
  ["map.c","musl-tsearch.c"], [("AVL insert/delete","musl-tsearch.c"),("key/value pairs and insertion order","map.c")],
  ["cee_map_add","cee_map_find","cee_map_remove","cee_map_rename","cee_map_iterate","cee_map_keys","cee_map_values","cee_map_insertion_ordered_keys","cee_map_merge","cee_map_clone","cee_map_size"])
p("C05", "A set behaves as a mathematical set",
  "After any history of add, find, remove, clear, values, iterate and union, a set answers exactly as a mathematical set under its comparator: an element equal to a present one is not added a second time, the size is the number of distinct elements, remove returns the element removed (NULL when absent) and clear empties it and leaves it usable. Values and iteration enumerate each element exactly once, in an unspecified order. A NULL set is treated as documented.",
  ["histories","inputs"], "every operation sequence on every reachable tree shape over a small element alphabet",
  BASE+"sets are not exercised by them at all.",
  ["set.c","musl-tsearch.c"], [("AVL insert/delete","musl-tsearch.c"),("size and element bookkeeping","set.c")],
  ["cee_set_add","cee_set_find","cee_set_remove","cee_set_clear","cee_set_size","cee_set_empty","cee_set_values","cee_set_iterate","cee_set_union_set"])
p("C06", "Map and set operations stay logarithmic",
  "However elements are added and removed, the search tree behind a map or set stays height-balanced: a find or add on n elements, and a set removal, never makes more comparisons than the height of the worst AVL tree with n nodes allows (an add may search twice). No history of insertions and removals makes lookups degrade towards linear time.",
  ["histories"], "every tree shape reachable by insertions and removals up to a node bound, plus long monotone histories",
  BASE+"answers stay right when balancing is broken, so no functional test notices.",
  ["musl-tsearch.c","map.c","set.c"], [("AVL rebalancing","musl-tsearch.c balance/rebalance steps")],
  ["comparator call counts"])
p("C07", "A dictionary finds every inserted key and nothing else",
  "After any history of insertions, a dictionary returns for each key the value of its first insertion and NULL for every key never inserted, regardless of hash collisions and of how often the table has grown past its declared size. Keys are compared by content, not by address.",
  ["histories","inputs"], "every insertion sequence over an alphabet with colliding hashes, from every declared size, across table growth",
  BASE+"dictionaries are not exercised by them; collisions after growth need chosen keys.",
  ["dict.c","musl-hsearch.c"], [("open addressing and growth","musl-hsearch.c"),("key ownership","dict.c")],
  ["cee_dict_add","cee_dict_find"])
p("C08", "A stack is a bounded LIFO",
  "After any history of pushes and pops, a stack of capacity n holds the pushed-but-not-popped elements in LIFO order: top(k) is the k-th from the top and NULL beyond the bottom, pop returns and removes the top (NULL when empty), push fails without effect exactly when n elements are present, and empty/full/size agree with the content.",
  ["histories"], "every push/pop/top sequence for every small capacity",
  BASE+"boundary transitions (full to not full, empty to not empty) need sequences.",
  ["stack.c"], [("bounds checks","stack.c")],
  ["cee_stack_push","cee_stack_pop","cee_stack_top","cee_stack_empty","cee_stack_full","cee_stack_size"])
p("C09", "Boxed numbers preserve their values and their type",
  "A boxed number of any supported width gives back exactly the value boxed, prints exactly as the documented printf conversion of its type, reports the number of bytes that printing needs and never writes more than the size given. Reading a box through the wrong width or signedness traps instead of returning a reinterpreted value.",
  ["inputs"], "every type pair, every boundary value of each width, every buffer size around the printed length",
  BASE+"boundary values per width and the full matrix of typed reads are not enumerated by tests.",
  ["boxed.c"], [("type tag check","boxed.c cee_boxed_to_*"),("printing","boxed.c cee_boxed_snprint")],
  ["cee_boxed_from_*","cee_boxed_to_*","cee_boxed_snprint"])
p("C10", "Product, tagged and raw blocks hold what they were built from",
  "Tuples, triples, quadruples, n-tuples, tagged values, singletons and raw blocks give back exactly the components, tags, sizes and (zeroed or initialised) bytes they were constructed with, for every arity and size, and distinct objects never share storage.",
  ["inputs","configurations"], "every arity 1..16, every block size across allocation rounding, every deletion-policy combination",
  BASE+"these types are not exercised by them.",
  ["tuple.c","triple.c","quadruple.c","n_tuple.c","tagged.c","block.c","singleton.c"], [("constructors","*_mk / *_mk_e")],
  ["cee_tuple_mk","cee_triple_mk","cee_quadruple_mk","cee_n_tuple_mk","cee_tagged_mk","cee_block_mk","cee_block_size","cee_singleton_init"])
p("C11", "Deletion policies release each element exactly as declared",
  "When a container of any kind is deleted: under the reference-counting policy each element loses one reference and is freed exactly when that was the last one; under the delete policy each element is freed immediately; under the no-op policy no element is touched. Whatever containers share elements, and in whatever order they are deleted, no element is freed twice, freed while still referenced by a reference-counting container, or left behind by its last owner; an element removed from a container is no longer counted by it.",
  ["histories","configurations"], "every container kind and policy (also mixed per component), every sharing pattern, every order of insertions, removals and deletions",
  BASE+"they never delete a container on its own; double frees and leaks are invisible to functional tests.",
  ["cee-common.c","list.c","map.c","set.c","dict.c","stack.c","tuple.c","triple.c","quadruple.c","n_tuple.c","tagged.c"], [("in-degree counting and follow-delete","cee-common.c cee_incr_indegree/cee_decr_indegree/cee_del_e, each *_trace")],
  ["cee_del","cee_del_ref","cee_del_e","cee_get_rc","allocator events"])
p("C12", "Deleting a state frees everything it owns, exactly once",
  "Deleting a state frees every object ever allocated from it that is still live, exactly once, whatever was built, grown, shared, deleted individually, collected or not made for want of memory before; no allocation of the library outlives it. States are independent: using or deleting one never changes or frees objects of another.",
  ["histories","configurations"], "every build/grow/delete/collect history over all object kinds, with one and two states, every deletion order",
  BASE+"the testers neither delete their states nor check for leaks.",
  ["state.c","cee-common.c","cee-resize.h"], [("allocation chain","state.c, cee-resize.h chain/de-chain")],
  ["cee_state_mk","cee_del","allocator events"])
p("C13", "Garbage collection never frees reachable objects",
  "A collection leaves every object reachable from the roots, the contexts or the state's own stack alive with its content unchanged, through every kind of container and any sharing or cyclic pointer structure, however many collections have run before. After the collection all kept containers remain fully usable.",
  ["histories","configurations"], "every object graph up to a size bound over all container kinds, every root set, every interleaving of allocation, rooting, un-rooting and collection",
  BASE+"no collection is ever run by them.",
  ["state.c","cee-common.c","list.c","map.c","set.c","closure.c","env.c"], [("mark phase per object kind","each *_trace with CEE_TRACE_MARK"),("sweep","state.c sweep/cee_state_gc")],
  ["cee_state_gc","cee_state_add_gc_root","cee_state_remove_gc_root","cee_state_add_context","allocator events"])
p("C14", "Garbage collection reclaims what is unreachable, and terminates",
  "Each collection terminates and frees every object that is not reachable from the roots, contexts or stack at that moment, including cyclic garbage and objects created between earlier collections; an un-rooted object is gone after the next collection.",
  ["histories","configurations"], "every object graph up to a size bound, every interleaving of allocation, rooting, un-rooting and repeated collection",
  BASE+"no collection is ever run by them; the mark value alternates, so single collections cannot show it.",
  ["state.c","cee-common.c","cee-resize.h"], [("mark alternation and sweep","state.c cee_state_gc"),("trace chain maintenance","cee-resize.h")],
  ["cee_state_gc","allocator events"])
p("C15", "Environments look names up lexically and closures see their own environment",
  "Looking a name up in an environment finds the binding of the innermost enclosing environment that has one, and NULL when none has, for every nesting depth and any pattern of shadowing and of environments without variables. Calling a closure passes exactly the given arguments, count and the captured environment, and returns its result.",
  ["inputs","configurations"], "every chain of environments up to a depth bound, every assignment of names to levels",
  BASE+"not exercised by them.",
  ["env.c","closure.c"], [("outward lookup","env.c cee_env_find"),("call forwarding","closure.c cee_closure_call")],
  ["cee_env_find","cee_closure_call"])
p("C16", "The JSON parser accepts exactly JSON",
  "The parser accepts every JSON text (RFC 8259) within its nesting limit and rejects every text that is not JSON; an unpaired surrogate escape is rejected. (Unspecified: a trailing comma before a closing bracket or brace, malformed UTF-8 inside strings, nesting beyond MAX_JSON_DEPTH.) With the end-of-input requirement on, anything but white space after the value is rejected. A rejected text yields no value.",
  ["inputs"], "every byte/token sequence over a JSON-covering alphabet up to a length bound, and every nesting depth around the limit",
  "The bundled JSON testsuite is a fixed list of ~300 documents and the testers do not assert its outcome.",
  ["cee-json/parser.c","cee-json/tokenizer.c"], [("state machine","cee-json/parser.c parse loop"),("lexer","cee-json/tokenizer.c")],
  ["cee_json_parsex"])
p("C17", "Parsed values equal what the JSON text denotes",
  "For every accepted text, the value tree equals the one the text denotes: literals, strings with every escape (including surrogate pairs, encoded as UTF-8), integers exactly over the signed and unsigned 64-bit range, other numbers as the nearest double, array order, object members with the last of duplicate names winning.",
  ["inputs"], "every \\u escape and surrogate combination, every number spelling over a digit alphabet with boundary values, every small nested document",
  "The testers print parsed values but never compare them.",
  ["cee-json/parser.c","cee-json/tokenizer.c"], [("escape decoding","tokenizer.c parse_string"),("number decoding","tokenizer.c parse_number"),("member insertion","parser.c")],
  ["cee_json_parsex and the value accessors"])
p("C18", "A failed parse reports the right line and leaves nothing behind",
  "When a text is rejected the reported error line is the number of line ends (LF and CR each count) before the first token that cannot continue a JSON text; on success and failure alike all memory stays owned by the state (and is released with it, or by the loader itself when it made the state), and a state in which a parse failed parses the next text correctly.",
  ["inputs","histories"], "every truncation and every single-token corruption of a set of documents, sequences of failing and succeeding parses on one state",
  "No test examines the error line, nor reuses a state after failure, nor checks for leaks.",
  ["cee-json/parser.c","cee-json/tokenizer.c","cee-json/value.c"], [("line counting","tokenizer.c"),("state stack use","parser.c")],
  ["cee_json_parsex error_at_line","cee_json_load_from_buffer","allocator events"])
p("C19", "Printing JSON round-trips and respects the size contract",
  "Printing any JSON value yields a valid JSON text that parses back to an equal value, in compact and in pretty form, for every string content, number and nesting depth the parser itself accepts (members keep the order in which present names were first added, numbers compare by value; undefined, NaN and blobs have no JSON form). The size announced with a null buffer is exactly the number of bytes printed, printing into a buffer never writes beyond the size given, and the allocating printer returns that same text NUL-terminated with its size.",
  ["inputs","configurations"], "every small value tree over all types, string contents over all byte classes, boundary numbers, every depth around the limits, every buffer size around the announced one",
  "The testers print documents but never parse the output back or vary the buffer size.",
  ["cee-json/snprint.c","boxed.c","cee-common.c"], [("size/print double pass","snprint.c"),("escaping","snprint.c str_append/json escape")],
  ["cee_json_snprint","cee_json_asprint","cee_json_save"])
p("C20", "The JSON object and array API edits the value as documented",
  "After any history of set, get, remove, rename, append, insert, concat, iterate and convert calls, a JSON object or array answers exactly as a finite map / sequence of values: set replaces, get returns the last value set or nothing, append turns an existing scalar into an array and extends it, rename moves the member, array index access outside the range yields nothing, iteration stops at and returns the first non-zero result. On a value of another kind the calls stop the process (renaming and converting a member answer false) and change nothing; setting a member of a NULL object does nothing.",
  ["histories","inputs"], "every operation sequence over a small key/value alphabet including every value type",
  BASE+"they call only a handful of these functions once.",
  ["cee-json/value.c","map.c","list.c"], [("object/array editing","cee-json/value.c")],
  ["cee_json_object_*","cee_json_array_*"])
p("C21", "Merging JSON documents is a deep overlay",
  "Merging a source value into a destination yields the deep overlay: members only in one of them are kept, objects present in both are merged recursively, arrays are combined and scalars are decided as documented, for every pair of shapes. The source keeps its value (the destination may share structure with it), and merging never fails silently, crashes or loses members.",
  ["inputs","histories"], "every pair (and chain) of small documents over all value types",
  "Merge is not called by the baseline tests at all.",
  ["cee-json/cee_json_merge.c","cee-json/value.c","map.c"], [("recursive merge","cee_json_merge.c"),("map merge","map.c cee_map_merge")],
  ["cee_json_merge","cee_json_merge_or_return","cee_json_merge_all"])
p("C22", "JSON selection and typed access find exactly the addressed value",
  "A selector path of member names and array indices returns exactly the value it addresses, or nothing when any step is missing, out of range or of the wrong type; deep key search returns a value stored under that key somewhere in the value whenever there is one. Typed accessors succeed exactly when the value has the requested type (the int accessor: an integer in the range of int), and then give the stored value; otherwise they report failure without touching the result.",
  ["inputs"], "every selector up to a length bound over a covering alphabet applied to every small document; every (type, accessor, boundary value) combination",
  BASE+"no test selects or converts.",
  ["cee-json/value.c"], [("selector interpreter","value.c cee_json_select"),("conversions","value.c cee_json_to_*x"),("deep search","value.c cee_json_has")],
  ["cee_json_select","cee_json_select_as_int","cee_json_has","cee_json_to_*"])
p("C23", "JSON file I/O is complete despite short and interrupted transfers",
  "Saving a value and loading it again gives an equal value however the operating system splits, shortens or interrupts the reads and writes. An I/O error or an incomplete file is reported as failure (never as a truncated success), and descriptors and memory are released on every path. (A path that names no file traps.)",
  ["fault_sequences","inputs"], "every sequence of environment answers (full, short, interrupted, error, end-of-file) to each system call, bounded in number of deviations",
  "Tests only see full reads and writes from regular files.",
  ["cee-json/value.c"], [("read/write loops","value.c cee_json_save*/cee_json_load_from_*")],
  ["cee_json_save_fileno","cee_json_save","cee_json_load_from_fileno","cee_json_load_from_FILE","cee_json_load_from_file_path"])
p("C24", "Parsing depends only on the bytes it was given",
  "The parser reads only the bytes of the buffer within the stated length and leaves them unchanged; its result is independent of whatever lies before or after them, for every cut of every text.",
  ["inputs"], "every prefix of every text of an enumerated family, followed by every kind of trailing byte or by an inaccessible one",
  "Tests parse NUL-terminated buffers, where reading too far goes unnoticed.",
  ["cee-json/tokenizer.c","cee-json/parser.c"], [("end-of-buffer checks","tokenizer.c")],
  ["cee_json_parsex"])
p("C25", "The standalone JSON string escaper is exact and bounded",
  "Escaping a byte string yields the JSON string content that decodes to the same bytes, consumes the whole input, reports the resulting length and never writes beyond the destination size; when the destination is too small an initial part is written, and the reported length, next position and remaining size describe what was written.",
  ["inputs"], "every byte string over all byte classes up to a length bound, every destination size around the required one",
  BASE+"the escaper is not called with these inputs.",
  ["cee-common.c","cee-json/snprint.c"], [("escape loop","cee_json_escape_string")],
  ["cee_json_escape_string"])
p("C26", "The SQLite binding stores and returns exactly the given values",
  "Values bound through the SQLite layer (integers, strings of any content including quotes and SQL fragments, blobs of any bytes, nulls) are stored as data and read back equal, in the column and row they belong to, through every query form the layer offers. Content never changes the statement executed. (Table and column names are trusted.)",
  ["inputs","histories"], "every value over a hostile alphabet in every column type, through every statement form",
  "No test touches the SQLite layer.",
  ["sqlite3/cee-sqlite3.c"], [("parameter binding","cee-sqlite3.c cee_sqlite3_bind_*"),("row conversion","cee-sqlite3.c select / to json")],
  ["cee_sqlite3_* functions","database content"])
p("C27", "SQLite insert, update, upsert and delete act on exactly the addressed rows",
  "After any history of the layer's insert, update, update-if-exists, update-or-insert, select-or-insert and delete operations, called with bound values or with JSON input, the table content equals that of a reference table on which the documented meaning of each operation was applied: the addressed row is created, changed, kept or removed, and no other row changes. The reported result tells which of these happened; updating a row that does not exist is reported as such.",
  ["histories"], "every operation sequence over a small key/value alphabet, with all results compared",
  "No test touches the SQLite layer.",
  ["sqlite3/cee-sqlite3.c"], [("select-then-insert-or-update","cee-sqlite3.c cee_sqlite3_update_or_insert etc.")],
  ["return codes, result JSON, database content"])
p("C28", "SQLite failures are reported, terminate and leak no statements",
  "When any step of an SQLite operation fails (bad SQL, missing or unbound parameter, constraint violation, busy or I/O error at any step), the call returns, reports the failure, and leaves no prepared statement behind, so the database can be closed and keeps its previous consistent content.",
  ["fault_sequences","histories"], "every operation with every engine call failing in turn, with every error code class",
  "Failures never happen in tests.",
  ["sqlite3/cee-sqlite3.c"], [("error paths and finalisation","cee-sqlite3.c")],
  ["return codes, result JSON, sqlite3_next_stmt, database content"])
p("C29", "String views slice text exactly, without copying or overrunning",
  "Every string-view operation (trim, chop by count, delimiter, predicate or sub-view, comparison, prefix/suffix test, search, number parsing) returns exactly the slice or answer its name defines, consumes exactly what it returns, and never reads outside the viewed bytes, for every text and argument including empty ones. (Numbers beyond 64 bits are unspecified; an empty separator chops nothing.)",
  ["inputs"], "every text and argument over a small alphabet up to a length bound, unterminated views included",
  "No test touches string views.",
  ["strview.c"], [("index arithmetic","strview.c sv_*")],
  ["sv_* functions"])
p("C30", "The search primitives keep their tables consistent",
  "The bundled search primitives (linear search with insertion, doubly linked queue insertion/removal, hash table, tree search/deletion/walk/destroy) behave as POSIX defines for every history: what was inserted and not removed is found, nothing else is, links stay consistent in both directions, and destruction visits every node once. Deleting the root returns a non-NULL value; a failing allocation leaves the table as it was.",
  ["histories"], "every operation sequence up to a depth bound over a small key alphabet, from every small table size",
  "No test drives them directly.",
  ["musl-lsearch.c","musl-insque.c","musl-hsearch.c","musl-tsearch.c"], [("table algorithms","musl-*.c")],
  ["musl_* functions"])
p("C31", "Database setup applies all of its statements or none",
  "Setting a database up in a transaction applies all of its statements or, when one fails (which stops the process) or the process dies at any point, none: the file keeps its previous content. After a successful setup the wanted handle refers to that database. A database that cannot be opened yields no handle and leaks nothing. Dropping all tables removes every table, index and trigger, all or none, and leaves an intact, usable database. Attaching makes exactly the named file, beside the main one, available under the given name, detaching ends that, and a failure is reported and changes nothing.",
  ["inputs","fault_sequences"], "every sequence of setup statements with the failing one at every position, every previous content, every engine call failing in turn",
  "No test touches the SQLite layer.",
  ["sqlite3/cee-sqlite3.c"], [("setup transaction","cee-sqlite3.c cee_sqlite3_init_db"),("reset","cee-sqlite3.c cee_sqlite3_drop_all_tables"),("attach","cee-sqlite3.c cee_sqlite3_attach_db")],
  ["cee_sqlite3_init_db","cee_sqlite3_drop_all_tables","cee_sqlite3_attach_db","cee_sqlite3_detach_db"])
p("C32", "A managed database is built and migrated by exactly the right scripts",
  "Opening a managed database (cee_dbm_db_init) makes its directory and the file when missing, applies the create script to a new or recreated database (whose tables were dropped), and to no other; then, for a new one that is to be restored, the insert script of its version (of the given prefix or its kind) and, when asked for, its customisation script; then the migration script of its version; each only if it is there, and once. It tells whether the database is new and which version it ends up with, records each step in order in the log, changes no other database and leaves nothing open. A failing script stops the process before anything later runs; when the process dies, the file is as after some number of (transactional) scripts, and can be opened again.",
  ["inputs","histories","crash_points"], "every combination of flags, versions, previous databases and present scripts; every history of openings; the process dying at every file operation",
  "No test touches the database manager; it is not even built.",
  ["sqlite3/cee_dbm.c","sqlite3/cee_dbm.h"], [("script selection","cee_dbm.c cee_dbm_db_init"),("script application and log","cee_dbm.c my_apply_script, add_log"),("directories","cee_dbm.c mkdir_p_ext")],
  ["cee_dbm_db_init","cee_dbm_db_exist","database files","cee_dbm_log.db"])
p("C33", "Managed databases are opened, attached and backed up exactly as configured",
  "Opening, attaching and backing up a managed database uses exactly the configured file: a missing file is never made (opening and attaching stop the process, a backup reports failure); an attached one is read-only under exactly the given name; a backup runs one command for that file and its version, tells and logs whether it succeeded, changes no database and leaves nothing open. $HOME at the beginning of a configured path is replaced by the home directory (a path that does not fit stops the process). The textual descriptions never write beyond the size given and hold the beginning that fits; where a size is returned it is that of the whole text.",
  ["inputs"], "every path, name, size and buffer length around the fixed-size buffers; every file present or missing",
  "No test touches the database manager.",
  ["sqlite3/cee_dbm.c","sqlite3/cee_dbm.h"], [("fixed-size path buffers","cee_dbm.c replace_home_env, cee_dbm_attach_db, cee_dbm_open_db"),("descriptions","cee_dbm.c *_snprint, *2str"),("backup","cee_dbm.c cee_dbm_db_backup")],
  ["cee_dbm_open_db","cee_dbm_attach_db","cee_dbm_db_backup","cee_dbm_path_info_normalize","cee_dbm_*_snprint","cee_dbm_*2str"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
