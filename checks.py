"""One entry per claimed property: harness sources, libraries, bounds and the text for MANIFEST.json."""
CHECKS = {}
def c(pid, src, technique, note, quick, thorough, **kw):
    d = dict(src=src if isinstance(src, list) else [src], technique=technique, note=note, bounds=dict(quick=quick, thorough=thorough))
    d.update(kw); CHECKS[pid] = d
TRUST = " Trusts: the compiler, AddressSanitizer for memory errors, the reference model in the harness. Assumes allocation succeeds and single-threaded use."
SEQ = "stateless exhaustive exploration of operation sequences on the real code against a reference model"

c("C03", "c03_list.cpp", SEQ, "All list histories within the bounds, on the real code, step-compared with a vector." + TRUST,
  "every sequence of 6 operations at every position from capacities 0..3; 2 operations from every prefill 0..70; every merge of sizes 0..5 incl. self; 6 operations over two lists; fills to 815 elements, drains to 6 levels at 3 places and refills, from 4 capacities",
  "7 operations; prefill 0..300 with 3 operations; merges to 12; 8 operations over two lists; fills to 2200",
  assumptions=["0 <= insert index <= size", "elements are opaque (no-op deletion policy); ownership is C11"])
c("C04", "c04_map.cpp", SEQ + " + explicit-state pruning on (tree shape, insertion order)", "All map histories within the bounds on the real code, step-compared with a finite-map model; every AVL shape as a start state." + TRUST,
  "all sequences of 4 operations (add/remove/rename/iterate-stop) over 4 keys; depth 7 over 5 keys with visited-state pruning; every AVL shape up to 10 nodes followed by every 2 add/remove; all merges over 4 keys x 4 merge functions; clones over 5 keys; 0..40 string keys; fills to 1025 entries in 4 orders x 4 partial removals x refill / rename / merge / clone; maps of 32767 to 70001 entries, built, cloned, thinned",
  "5 operations; depth 9; shapes to 14 nodes; merges over 5 keys; clones over 8 keys; 120 string keys; fills to 1160",
  assumptions=["values are non-NULL, keys non-NULL", "the order in which iteration, keys and values enumerate entries is unspecified (it is the tree's preorder today)", "insertion order of keys newly added by merge/clone is unspecified"])
c("C05", "c05_set.cpp", SEQ + " + explicit-state pruning on tree shape", "All set histories within the bounds on the real code, step-compared with a mathematical set; every AVL shape as a start state." + TRUST,
  "all sequences of 5 operations (add/remove/clear/re-add/remove-by-element) over 3 keys; depth 8 over 7 keys with visited-state pruning; every AVL shape up to 10 nodes followed by every 2 add/remove; unions and clones of all subsets of 5 elements, incl. with itself; fills to 2050 elements in 4 orders x 5 partial removals, twice; unions of up to 2050 elements; sets of 32767 to 70001 elements",
  "6 operations; depth 12; shapes to 14 nodes; unions over 7 elements; fills to 1740; unions of 897 + 897", assumptions=["elements are non-NULL", "enumeration order is unspecified"])
c("C06", "c06_balance.cpp", "explicit-state exploration of all AVL shapes with a comparison-count oracle on the real code", "Counts comparator calls on every reachable shape within the bound; the limit is the exact maximal AVL height." + TRUST,
  "every AVL shape up to 12 nodes followed by every 2 add/remove, for map and set; every insertion order of 8 keys; 5 removals from every 12-node shape; the sparsest AVL trees of height up to 22 (set) and 20 (map) x 3 leans x 3 edits; 96 long histories of 400 elements",
  "shapes to 15 nodes; insertion orders of 10 keys; 8 removals from every 14-node shape; long histories of 1500", assumptions=["an insertion may search twice (look up, then insert)", "map removal also scans the insertion-order list linearly: its comparisons are not bounded"])
c("C07", "c07_dict.cpp", SEQ, "All insertion histories within the bounds on the real code, compared with a first-wins map after every step." + TRUST,
  "6 insertions over 4 keys and 4 insertions over 10 keys (colliding hashes, empty and non-ASCII keys) from declared sizes 0,1,6; 0..140 keys of 3 families incl. fully colliding ones from 4 sizes; 13 sizes to 2049 keys of 4 families x declared sizes; keys of 1..300 bytes that differ at one place; 32769, 70001 and 140001 keys",
  "8 / 6 insertions; 256 keys; 9000 keys; keys of 1200 bytes", assumptions=["keys outlive the dictionary"])
c("C08", "c08_stack.cpp", SEQ, "All push/pop histories within the bounds on the real code, compared with a bounded LIFO after every step." + TRUST,
  "all sequences of 15 push/pop for capacities 0..5; every fill level of every capacity 0..40 plus 4 operations; two interleaved stacks, 8 operations; 18 capacities from 63 to 70000, filled, drained to 4 levels, refilled",
  "20 operations; capacities to 100; 10 interleaved operations")
c("C01", "c01_str.cpp", SEQ + " plus the full grid of lengths around the capacity rounding", "All construction lengths, all (existing, appended) length pairs and all operation sequences within the bounds on the real code, compared with a byte-string model; blocks are exact for ASan." + TRUST,
  "6 constructors x lengths 0..419 x requested sizes; all pairs of lengths 0..89 x {catf, replace, ncat} x {malloc, realloc} growth; 400 single-byte appends from every length 0..129; 3 operations from 12 lengths; existing x appended lengths on both sides of every power of two to 70000 x 4 operations x growth; 24 existing lengths x every length to 1500 x 3 operations; 8 ways of making and growing strings of 7 lengths from 100000 to over 1 MB",
  "lengths to 1200; pairs to 210; 1500 appends; 4 operations; two operations; 60 existing lengths x lengths to 4000", assumptions=["arguments do not alias the string being changed"])
c("C02", "c02_strops.cpp", "exhaustive enumeration of inputs within a length bound on the real code against a reference", "Every text, needle and replacement within the bounds, on the real code, in exactly sized buffers." + TRUST,
  "all texts of 0..6 over 4 white spaces and 2 letters; all offsets/counts of texts 0..6 x replacement lengths 0..6; texts 0..8 x needles 1..3 x replacement lengths 0..7; 0-2 pairs x texts 0..4; 15-20 pairs x texts 0..4; texts of 1..5000 matches x kinds x replacement lengths x 4 calls",
  "texts to 7/8/11/6/5; 70000 matches", assumptions=["needles are non-empty", "offset + count <= length of the text"])
INP = "exhaustive enumeration of inputs within stated bounds on the real code against a reference"
c("C09", "c09_boxed.cpp", INP, "The complete (boxed type x read type) matrix over boundary values, every 16-bit value in every type, and every print-buffer size, on the real code." + TRUST,
  "all 2^16 values in every type (all 8-bit ones in the 8-bit types); 90 boundary values x 10 types x buffer sizes 0..len+2; 10x10 typed reads x boundary values; 4 boxes of any types side by side",
  "5 boxes side by side")
c("C10", "c10_products.cpp", INP, "Every arity, sharing pattern and policy combination of products, tags, block sizes and singletons within the bounds, on the real code." + TRUST,
  "tuples/triples/quadruples x all component sharings x all policy vectors; n-tuples of 1..16 (17 traps); 3 tagged values over 8 tags x 3 contents x 4 policies; blocks of 0..699 bytes x 3 constructors; 3 singletons x 4 tags x 4 values; 15 block sizes from 1023 to 1 MB + 1; up to 420 products at a time",
  "blocks to 5000 bytes; 1400 products", assumptions=["components are cee objects (products) or NULL (tagged)", "cee_quadruple_mk and cee_n_tuple_mk_e are declared but not defined by the library"])
c("C11", "c11_ownership.cpp", SEQ + " of ownership, with allocator events as the observation", "Every container kind, policy vector, sharing pattern and deletion order within the bounds, and every add/remove/clear/delete history on pairs of containers, on the real code; after every step the set of live blocks equals the ownership model's." + TRUST,
  "all single containers of 10 kinds with up to 3 elements, all pairs with up to 2 (maps and dicts 1; also nested), all deletion orders, tags that are 0 and not; histories of 4 operations over 8 pairs of containers, of 5-7 with visited-state pruning; derived lists, unions and clones; 255..70000 references to one element; containers of up to 700 elements x policy x sharing x removals x deletion order",
  "5 operations; 6-9 with pruning; 1500 elements", assumptions=["an element of a CEE_DP_DEL container has no other owner when that container is deleted", "elements under RC/DEL are non-NULL cee objects", "a key that a map does not keep because an equal one is present is released by the map"])
GC = "stateless exhaustive exploration of object graphs and collector histories on the real code against graph reachability"
GCQ = "all graphs of 2 nodes over 16 kinds with at most one edge each x all anchor sets by root/context/stack, before and after earlier collections; all adjacency matrices of 3 lists/sets/maps x all root sets, un-rooted one by one; all histories of 7 operations (allocate/link/unlink/root/un-root/context/stack/collect) over 6 pairs of kinds and up to 4 objects with visited-state pruning; chains and rings of up to 200 of 13 kinds; containers of up to 700 elements; up to 300 roots, contexts and stack entries; up to 300 collections in a row; strings grown between collections"
GCT = "graphs of 3 nodes over 16 kinds; 4x4 adjacency matrices; histories of 8 operations"
GCA = ["every element of a container is a cee object (also under CEE_DP_NOOP) and context keys are cee strings: the marker dereferences them", "links are at most 60 deep: marking recurses"]
c("C13", "c13_gc_safety.cpp", GC, "Within the bounds, after every collection each object reachable in the model graph (and its helper objects) is live with its content unchanged and stays usable." + TRUST, GCQ, GCT, assumptions=GCA)
c("C14", "c14_gc_complete.cpp", GC, "Within the bounds every collection ends, frees every unreachable object and its helper blocks, and collecting everything returns to the block count of a fresh state." + TRUST, GCQ, GCT, assumptions=GCA)
c("C12", "c12_state.cpp", SEQ + ", with allocator events as the observation", "All histories over 15 constructions (every object kind, grown, shared, cloned) plus rooting, contexts, deletion and collection within the bounds; each state must free exactly the blocks allocated on its behalf." + TRUST,
  "4 steps of 19 kinds on one state, 2 steps of 19 kinds and 4 of 9 on two interleaved states, 5 of 9 on one; both deletion orders; up to 1500 objects x 7 deletion patterns x collections; 2..20 states x 4 orders; dictionaries whose table gets no memory between other objects", "5 / 3 / 5 / 7 steps; 4000 objects")
c("C15", "c15_env.cpp", INP, "Every environment chain and tree shape and binding pattern within the bounds, all argument counts, all deletion orders of shared environments, on the real code." + TRUST,
  "up to 4 environments (chain, shared or top-level parents) x all bindings of 2 names or no variables; 2 environments x 4 names; calls with 0..10 and up to 320 arguments; up to 3 environments sharing an outer one x all deletion orders; chains of up to 400 environments with one binding; up to 139 names in an environment", "5 environments; 3 with 4 names; 2000 environments, 399 names")
c("C16", "c16_grammar.cpp", INP + " (an RFC 8259 recogniser)", "Every text of the families within the bounds is accepted iff the independent recogniser accepts it, on the real code." + TRUST,
  "all words of up to 5 of 12 structural tokens, 5 of 10 object tokens, 6 of 8 number characters, 4 of 16 string characters, 4 of 13 escapes, 5 of 9 letters; all viable prefixes of 9 tokens x every next token; all 1- and 2-byte texts alone and in 5 contexts; every nesting depth 0..539 x 3 shapes x 5 endings; wide documents of 0..299 elements; with and without the end-of-input requirement; every byte after a backslash and in every place of 4 escapes; all 65536 code units in several places; 16 characters at the UTF-8 borders at every offset; 10+ shapes of text at sizes around every power of 2 to 65536; valid documents of 0..6 members in 6 shapes with each of 11 tokens inserted, substituted, any token dropped or doubled at every place",
  "words of 7/7/7/5/5/6; prefixes of 11 tokens; depth 1099; sizes to 1499; 11 members", libs=["core", "json"],
  assumptions=["trailing commas, malformed UTF-8 inside strings and nesting beyond MAX_JSON_DEPTH (500) may be accepted or rejected", "unpaired surrogate escapes are rejected"])
c("C17", "c17_values.cpp", INP + " (an RFC 8259 evaluator)", "Every accepted text of the families within the bounds evaluates to the value the independent evaluator gives, on the real code." + TRUST,
  "the text families of C16; all 65536 \\u escapes in 4 contexts; all 2^20 surrogate pairs; 4 high surrogates x all code units; 41 integers around every power of 2 to 2^69 and of 10 to 10^21 in 7 contexts; 3-digit mantissas x point x exponents -45..44 x spellings; every binary exponent x 7 mantissas in 4 to 5 spellings; numbers of 0..400 digits and 13 lengths from 511 to 70001; up to 5 members over 5 names incl. duplicates; all documents of up to 4 values; 13x13 pairs of values under one repeated name in several shapes; documents of 0..319 elements of 6 kinds; strings and names of 17 lengths from 255 to 2^20",
  "families of C16 thorough; exponents to +-350; 7 members over 6 names; documents of 5 values; documents to 1499", libs=["core", "json"], assumptions=["nearest double is that of the C library's strtod in the C locale"])
c("C18", "c18_failure.cpp", INP + ", with allocator events as the observation; " + "all sequences of texts on one state", "Every cut and corruption of 5 documents and every text of the families: the error line equals the reference's, and deleting the state frees every block." + TRUST,
  "every prefix and suffix, every token replaced/removed/doubled/preceded by each of 18, every byte replaced by all 256, every pair of token corruptions of 5 documents; all sequences of 3 of 16 texts and collections on one state; the self-owning loader on every cut x 4 tails; the text families of C16; 8 shapes with up to 70000 line ends, 1000 elements and depth 450",
  "sequences of 4; families of C16 thorough", libs=["core", "json"], redefine=["fprintf"], assumptions=["the point of failure is the start of the first token that cannot continue a JSON text; LF and CR each count as a line end"])
c("C24", "c24_bounds.cpp", INP + ", in exactly sized blocks and against inaccessible pages", "Every cut of every document and text of the families is parsed from a block of exactly its size (ASan), next to inaccessible pages, and surrounded by 21 kinds of bytes: verdict, line and value do not change, nor does the buffer." + TRUST,
  "13 documents: 4 starts x every end, x 21 tails; long tokens of 5 kinds to 149 bytes; every cut at both page borders, writable and read-only; the text families of C16 in exact blocks; 6 kinds of document of up to 4096 bytes, 24 cuts",
  "every start and end; tokens to 399; families of C16 thorough; 10000 bytes", libs=["core", "json"], assumptions=[])
c("C19", "c19_print.cpp", INP + " and round trip through an independent RFC 8259 evaluator and the library's parser", "Every value within the bounds prints to exactly the announced number of bytes of valid JSON denoting the same value, in both formats, into exactly sized blocks." + TRUST,
  "all trees of up to 4 values over 9 leaves, at every buffer size; all nestings of 6 levels over 6 shapes; all strings of two ASCII bytes or one and a multi-byte character as value, element and name, counted strings incl. NUL; lengths to 399 x 4 fillings and 10 from 4095 to 131072; member order after all histories of 5 sets and removes; every binary exponent x 9 mantissas x sign; k*10^p for k<1000, |p|<=20; integers around every power of 2 and 10; every depth to 512 in 4 shapes x 3 leaves; 7 documents at every buffer size; shared values; arrays and objects of up to 1000 elements of 3 kinds; of 32767 to 70001 elements; blobs, undefined, NaN and infinities in trees (size contract only)",
  "trees of 5 values; 8 levels; lengths to 1999; 5000 elements", libs=["core", "json"], redefine=["dprintf", "vdprintf"],
  assumptions=["undefined, NaN and blobs have no JSON form; strings are UTF-8", "equal means: the same number, whatever its representation (1.0 may come back as the integer 1)", "a string with a NUL (possible only in counted strings) is printed right; reading it back is C17's known finding"])
c("C20", "c20_api.cpp", SEQ, "Every history of the object and array calls within the bounds on the real code, step-compared with a value model; after each step every query, out-of-range index and iteration stop." + TRUST,
  "2 of 14 object operations over 3 keys x 11 values from 3 starts, 3 over 2 keys x 4 values; 4 over 2 keys x 5 values with visited-state pruning; 3 of 9 array operations from 3 capacities, 5 with pruning; 2 on two objects; conversions of all pairs of 17 texts, after failed ones and from 3 errno values; errors recorded in objects of up to 2 members of 9 values; blobs and counted strings of 12 sizes to 70001; 0..199 members; 7 values extended by others and edited 3 times; arrays of 14 x 14 sizes to 511 elements; objects of up to 119 members edited throughout; arrays of 0 to 70001 elements extended by 0 to 70001 in 3 ways; 12 values of a wrong kind x 24 calls, NULL objects",
  "3 / 3 (11 values) / 5 (8 values) / 4 / 7 / 3 operations; 599 members; 21 x 21 sizes to 4096 elements, 399 members", libs=["core", "json"],
  assumptions=["values are not shared between containers except scalars", "0 <= insert index <= length", "the object and array calls are given objects and arrays (they trap otherwise)", "text converted to an integer has no leading white space or plus sign"])
c("C21", "c21_merge.cpp", SEQ, "Every pair (and chain) of documents within the bounds, merged on the real code, equals the deep overlay; the source is unchanged and every block is accounted for." + TRUST,
  "all pairs of documents of up to 3 values over 3 names and 3 scalars; 4 values against 2 both ways; 6 scalar types; chains of 2 merges; merges followed by collections; NULL arguments; self-merges of 4 values; 0..59 members + 0..11; up to 260 levels; objects of up to 1025 members; arrays of 15 x 15 sizes to 1030 elements",
  "larger documents, chains of 3, 199+39 members; 900 levels; 897 + 899 elements", libs=["core", "json"], assumptions=["earlier sources share structure with the destination, so a later merge may show in them"])
c("C22", "c22_select.cpp", INP, "Every selector and accessor within the bounds, on the real code, compared with an independent evaluator." + TRUST,
  "all selectors of up to 4 steps over 19 and up to 3 over 34 (with arguments) on 8 documents; all selector strings of 5 characters over 11 on 3 documents (in bounds, nothing or a value of the document); 15 index spellings; names of 1..300 bytes; deep search of 5 keys in all documents of up to 5 values; 200 boundary values x 12 accessors; blobs of 0..99 bytes; paths of 300 steps; 300 elements and members; indices into arrays of up to 70001 elements",
  "5 and 4 steps; strings of 6 on 8 documents; documents of 6 values", libs=["core", "json"], assumptions=["member names in selectors are non-empty and at most 256 bytes", "the stars of a selector get arguments of the types they take"])
c("C25", "c25_escape.cpp", INP, "Every input and destination size within the bounds, on the real code, in exactly sized blocks." + TRUST,
  "all strings of 1 and 2 bytes at every destination size; all strings of up to 5 over 10 byte classes at every size; chained calls on 0..3 pieces; lengths to 299 x 3 fillings; 10 lengths from 999 to 70000 x 4 fillings",
  "strings of 6; lengths to 1499", libs=["core", "json"], assumptions=["when the destination is too small, which initial part is written is unspecified"])
c("C23", "c23_fileio.cpp", "deviation-bounded exhaustive exploration of environment answers to every system call of the real code", "Every sequence of full, short, interrupted, failing and end-of-file answers within the deviation bound, on the real code over scratch files." + TRUST,
  "7 documents x 2 formats x 2 saving calls with up to 3 deviating writes (7 answers); 15 texts x 3 loading calls x force_eof with up to 2 deviating reads (6 answers), fstat and fopen failures; save-then-load with 2; merging 1..3 files of 6 contents with 1 at any call; merging 1..70 files; 16 file sizes from 1023 to over 2 MB x 3 kinds of document x 5 constant answer modes x 3 calls",
  "5 / 4 / 4 / 2 deviations", libs=["core", "json"], redefine=["read", "write", "fstat", "fopen", "fclose", "fprintf", "perror"],
  assumptions=["files are regular and read from their beginning", "a FILE handed in has nothing buffered", "a missing file given by path traps, as the library documents for unusable arguments", "write never answers 0"])
c("C29", "c29_strview.cpp", INP, "Every text and argument within the bounds, on the real code, in exactly sized unterminated blocks; results must be the very slice of the caller's bytes." + TRUST,
  "all texts of up to 5 over 8 bytes and up to 6 over 6 digits and neighbours, every chop count and 6 huge ones; all bytes as text, delimiter and partner; texts of 6 over 5 x 4 delimiters; texts of 5 over 3 x partners of 4 over 3; texts of 9 x separators of 5 over 2 letters; 16 boundary numbers; histories of 4 of 9 operations on 5 texts; lengths to 299; 8 lengths from 255 to 70000 x 6 kinds; texts of 5 over 4 bytes with NULs x partners of 4",
  "texts of 6/7/7/6/11; histories of 5; lengths to 1999", libs=["core", "strview"], assumptions=["numbers beyond 64 bits are unspecified"])
c("C30", "c30_search.cpp", SEQ, "Every history of the four primitives within the bounds on the real code, step-compared with reference tables; links, returned elements, visits, allocations and failures of the allocator included." + TRUST,
  "lsearch/lfind: 8 widths x up to 3 elements x 4 operations; queues: 4 elements, 7 operations with visited-state pruning; hash tables: 5 entries of 12 (colliding) keys x 3 sizes, local and global, 400 keys of 6 families x 5 sizes, allocation failing at every growth; trees: 6 operations on 4 keys, 12 on 7 with pruning, every AVL shape of up to 10 nodes x every insertion and deletion, up to 199 keys in 5 orders; arrays of 240 elements of 13 widths to 70000; queues of 500 x 2 forms x 3 insertions x 5 removals; hash tables of 140000; trees of 3000",
  "5 operations; 5 elements, 8 operations; 6 entries, 3000 keys; 15 operations on 8 keys, shapes of 12, 999 keys; hash tables of 300000; trees of 20000", assumptions=["keys of trees and hash tables stay unchanged while in the table"])
SQL = dict(libs=["core", "json", "sqlite"], ldflags=["-lsqlite3"])
c("C26", "c26_sqlvalues.cpp", INP + ", through every writer and every reader; the stored cells are read through the engine itself", "Every value within the bounds is written through each of 16 forms and read back through 7, on the real code and a real database: the cells, and every other row, are compared; input blocks are exactly sized." + TRUST + " The SQLite engine itself is trusted.",
  "one parameter: 4 types x 5..7 values x data/default/NULL/absent x NOT NULL x 4 statements x 4 ways of calling; three parameters: all orders of table and statement x missing/anonymous/extra/repeated x 4 parameter spellings; 16 writers x 7 readers: texts of 2 over 15 hostile bytes, 22 phrases, 160 integers around powers of 2, blobs of every byte (and every pair for 16 of them), 24 lengths to 70000; counted texts with NULs; result shapes: 0..3 rows x 1..2 columns x 5 values x no_return x no_label x 9 forms; JSON input: 5 operations x 2 templates x row present x 4x4x4 members; 7^3x3 objects for bind_data_from_json; objects of 0..129 members; arrays of 0..4 of 6 elements; joins of 0..2 of 8 keys; query text to 160 bytes; 7 row ids x 6 forms; tables of up to 700 rows and calls of up to 700 parameters through 7 forms; JSON input lists given, absent and pre-filled; one unbound parameter of 20 counts to 300; white space and case of keywords; counted values to 1 MB; result-only entries anywhere; defaults x members x NOT NULL; near-miss member names; calls without a status; joins with a lookup that fails; 9 pragmas x 8 values x 5 lengths",
  "texts of 3; 60 lengths; 399 members; query text to 400; joins of 3; 2000 rows", redefine=["fprintf", "fputc", "fwrite"], assumptions=["table and column names come from the program, not from the data", "values have the type their table entry declares", "tables handed over are fresh for every call"], **SQL)
c("C27", "c27_sqlops.cpp", SEQ, "Every operation from every small table, and every history within the bounds (with visited-state pruning over table, transaction and connection counters), on the real code and a real database, step-compared with a reference table: rows, row ids, return code, reported status, other tables, statements left." + TRUST + " The SQLite engine itself is trusted.",
  "single: 3 schemas x all tables of up to 2 rows x 7 operations x 3 forms (values, JSON with fixed statements, JSON with composed statements) x 4 keys x 5 values x 3 kinds of status; histories of 4 operations on 2 keys x 3 values; of 4 on 1 key x 4 values with begin/end/rollback; all sequences of 3 without a status; numbering by next_int, 6 steps; 4 operations over two connections; tables of up to 70000 rows; statements composed for 5..300 columns with names of 4..300 bytes, conditions to 30 KB",
  "tables of 3 rows; histories of 5 and 6 with every status; 8 numbering steps; 5 over two connections", redefine=["fprintf", "fputc", "fwrite"], assumptions=["an insert without any column is not attempted", "an update_template with nothing to update needs a status"], **SQL)
c("C28", "c28_sqlfaults.cpp", "deviation-bounded exhaustive exploration of the engine's answers, and of failures inside it, around the real code", "31 operations (every function of the layer) x every engine call failing in turn with every code class, every engine allocation, every file operation and every interrupt point; then the report, table, statements, transaction, closing, memory, and the same operation again." + TRUST + " The SQLite engine itself is trusted.",
  "31 operations x 2..3 kinds of status: every call x 20 codes (1 and 2 deviations); all pairs of operations with 2 deviations x 2 codes; every engine allocation (once and from then on); every file operation (once/persistent x 2 codes), with reopening; interrupts after every virtual instruction; 3 locks held by another connection; 7 refusals (triggers, read-only, dropped table and column); every cut of 20 statements x 9 forms; values around the engine's length limit",
  "as quick", redefine=["fprintf", "fputc", "fwrite", "sqlite3_prepare_v2", "sqlite3_step", "sqlite3_bind_int", "sqlite3_bind_int64", "sqlite3_bind_null", "sqlite3_bind_text", "sqlite3_bind_blob", "sqlite3_exec"],
  assumptions=["the code written as SQLITE_OK, ROW or DONE is no failure", "get_pragma_variable answers 0 when it fails (it has no other report)", "an array handed to select as status cannot hold an error: the return code tells", "interrupted statements may have been committed by the engine"], **SQL)
c("C31", "c31_setup.cpp", "exhaustive enumeration of crash points, failing calls and failing file operations around the real code, in processes of their own", "Every setup script within the bounds, with the process killed (tearing the write) or a file operation failing at every point, and every engine call failing: the file then holds exactly the old or exactly the new content." + TRUST + " The SQLite engine itself is trusted.",
  "scripts of up to 2 of 8 statements x 3 previous contents x 3 handle modes x transaction; 7 scripts (one of them dropping everything) x 3 contents x 3 modes: killed at every file operation (up to 90), failing there once or for good; every engine call x 12 codes; 4 kinds of unusable path; dropping 80 combinations of 7 kinds of objects; attaching 5 files x 3 names x 3 main databases x 64 buffer sizes; attach/detach histories of 4; names of 0..69 and 0..139 bytes; scripts of up to 1500 statements",
  "scripts of 3; histories of 6", redefine=["fprintf", "fputc", "fwrite", "sqlite3_open", "sqlite3_close", "sqlite3_exec"], assumptions=["a failing setup stops the process, as the library documents for unusable arguments (cee_segfault)", "views are not dropped", "file and database names are trusted"], **SQL)
c("C32", "c32_dbm.cpp", SEQ + "; crash-point enumeration in processes of their own", "Every configuration of a managed database and every history of openings within the bounds, on the real code and real files, compared with a reference manager: scripts applied, versions, log, descriptors, blocks." + TRUST + " The SQLite engine is trusted; cee-utils (not in the repository) is replaced by a loader of whole files.",
  "one opening: 4 previous databases x 8 flags x 2 create versions x 3 ways of setting the version x prefix x 5 x 3 x 5 sets of scripts (with scripts of other kinds and places about) x file names; histories of 3 openings of two kinds; directories missing to depth 4; configured paths, kinds, file names (to 247 bytes) and prefixes (to 240) of every length class up to the limits; the mode of every directory made; the text of every log row; killed at every file operation; each script failing",
  "4 file names; histories of 4", redefine=["fprintf", "fputc", "fwrite", "perror", "system"], assumptions=["the create script exists", "configured paths fit the 127 bytes the interface has for them", "kinds, paths and file names come from the program"], libs=["core", "json", "sqlite", "dbm"], ldflags=["-lsqlite3"])
c("C33", "c33_dbmpaths.cpp", INP, "Every path, description and buffer size, file and name within the bounds, on the real code, in exactly sized blocks and scratch directories." + TRUST + " The SQLite engine is trusted; cee-utils (not in the repository) and system() are replaced by stand-ins that only record.",
  "paths of up to 3 of 8 pieces x 4 paddings x 12 lengths of the home directory x 3 fields; file names to the limit of the file system; 4 descriptions x 5x5x2 lengths x flags x 4 versions at every buffer size; 6 files (3 missing) in configured paths of up to 127 bytes opened under kinds of 0..69 bytes, attached under names of 1..230 bytes from paths of 8 lengths with and without URIs, backed up with 3 results",
  "as quick", redefine=["fprintf", "fputc", "fwrite", "perror", "system"], assumptions=["kinds, paths and file names come from the program", "configured paths fit the 127 bytes the interface has for them"], libs=["core", "json", "sqlite", "dbm"], ldflags=["-lsqlite3"])
