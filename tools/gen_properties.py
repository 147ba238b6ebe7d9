"""Writes properties.jsonl (kept as a script so the list is easy to maintain)."""
import json, os
L = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    L.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": list(observe), "hook_needed": hook}})
VM = "src/handlebars_vm.c"; CP = "src/handlebars_compiler.c"; HP = "src/handlebars_helpers.c"; ST = "src/handlebars_string.c"; VA = "src/handlebars_value.c"; MP = "src/handlebars_map.c"; SK = "src/handlebars_stack.c"
LX = "src/handlebars.l"; YY = "src/handlebars.y"; WS = "src/handlebars_whitespace.c"; AH = "src/handlebars_ast_helpers.c"; DL = "src/handlebars_delimiters.c"; SE = "src/handlebars_opcode_serializer.c"; SC = "src/handlebars_scanners.c"
RENDER = "text returned by handlebars_vm_execute (what handlebarsc prints)"
prop("P01", "Interpolated values are HTML-escaped exactly once, and only where asked",
 "A string, number or boolean written with {{expr}} appears in the output with each of & < > \" ' ` replaced by &amp; &lt; &gt; &quot; &#x27; &#x60; and every other byte (including bytes above 127) unchanged. {{{expr}}}, {{&expr}}, rendering with escaping disabled, and safe-string results reach the output byte for byte unescaped. Literal template text is never escaped and no value is escaped twice, wherever the expression stands (top level, blocks, helper results, partials).",
 ["inputs", "programs"], "every value content (all 256 byte values), every interpolation form, every position, escaping on or off",
 "Tests escape a few fixed strings; only a few of the 256 byte values, forms and positions are ever combined, and a dropped or doubled escape on one path is an injection hole.",
 [ST, VA, VM, CP], [("entity table and copy loop", "handlebars_string_htmlspecialchars_append in src/handlebars_string.c"), ("value to text", "handlebars_value_expression_append in src/handlebars_value.c"), ("escaped or raw opcode choice", "compiler mustache handling in src/handlebars_compiler.c"), ("append opcodes", "append_escaped/append in src/handlebars_vm.c")], [("safe-string flag", "value already escaped", "value flags")], [RENDER])
prop("P02", "Literal template text reaches the output byte for byte",
 "Text outside mustaches is copied to the output exactly, whatever bytes it contains; comments produce nothing; an escaped mustache (a backslash before {{) comes out as literal text without the backslash and a doubled backslash as one backslash followed by the evaluated expression; raw blocks {{{{x}}}}...{{{{/x}}}} hand their body through unparsed.",
 ["inputs"], "every byte string around and between tags, every placement of escapes, comments and raw blocks",
 "The grammar is a generated state machine with start conditions; tests feed it a handful of texts, the specification suite is not run by the build.",
 [LX, "src/handlebars.lex.c", YY, "src/handlebars_parser.c", AH, VM], [("scanner states mu, emu, com, raw", "src/handlebars.l"), ("comment stripping", "handlebars_ast_helper_strip_comment in src/handlebars_ast_helpers.c"), ("content opcode", "append_content in src/handlebars_vm.c")], [], [RENDER])
prop("P03", "Whitespace control and standalone lines follow the Handlebars rules",
 "A ~ next to a delimiter removes all whitespace on that side up to the next tag or text and nothing else. Block, else, partial, partial block, raw block and comment tags alone on a line disappear with their line (indentation and newline included), while tags sharing a line with other content and plain expressions keep all surrounding whitespace; with standalone handling disabled only ~ strips.",
 ["inputs", "configurations"], "every arrangement of spaces, tabs, newlines and text around block, else, comment, partial and expression tags, with and without ~",
 "Whitespace interacts across sibling and parent nodes; tests sample a few layouts, while an error needs a particular neighbour arrangement.",
 [WS, "src/handlebars_parser.c", YY], [("next/prev whitespace tests", "handlebars_whitespace_is_next_whitespace / is_prev_whitespace in src/handlebars_whitespace.c"), ("omit left/right", "handlebars_whitespace_omit_left/right in src/handlebars_whitespace.c"), ("scanners for line ends", "src/handlebars_scanners.c")], [("strip flags", "which sides of a tag strip", "ast node strip field")], [RENDER])
prop("P04", "Expressions resolve to exactly the addressed part of the input data",
 "a.b.c, a/b, this.x, segment literals [x y], array indexes, ../ parents, @root and other data variables, and block parameters each resolve to the value at that position of the current input, at any nesting of blocks. A missing step, or a step into a scalar, gives nothing and never the value of another key, another level or another context.",
 ["inputs", "programs"], "every key name and value, path length and parent depth, with present, missing and wrongly typed steps",
 "Lookup runs over hash tables and context stacks that depend on data shape and nesting; tests use a few fixed contexts.",
 [VM, CP, VA, MP, AH], [("context path opcode", "lookup_on_context in src/handlebars_vm.c"), ("data path opcode", "lookup_data in src/handlebars_vm.c"), ("block parameter opcode", "lookup_block_param in src/handlebars_vm.c"), ("path preparation", "handlebars_ast_helper_prepare_path in src/handlebars_ast_helpers.c")], [("context stack", "contexts from root to current", "vm contextStack")], [RENDER])
prop("P05", "Conditionals pick exactly one branch, by the documented truthiness",
 "{{#if v}} renders its main branch exactly when v is none of: missing, null, false, 0, 0.0, the empty string, the string \"0\", an empty list, an empty map (0 counts as true only with includeZero=true); {{#unless}} is its opposite; {{^v}} and plain {{#v}} sections render their inverse for the same empty values except that 0 renders a section's main branch. Exactly one branch is rendered, once, with the surrounding context, including through {{else if}} chains.",
 ["inputs", "programs"], "every value type and content, every conditional form and else chain",
 "Truthiness is spread over value kinds and helper variants; the suite tests a few values per helper.",
 [HP, VA, CP, VM], [("if/unless", "handlebars_builtin_if / handlebars_builtin_unless in src/handlebars_helpers.c"), ("emptiness", "handlebars_value_is_empty in src/handlebars_value.c"), ("sections", "handlebars_builtin_block_helper_missing in src/handlebars_helpers.c"), ("else chains", "handlebars_ast_helper_prepare_inverse_chain / prepare_block in src/handlebars_ast_helpers.c")], [], [RENDER])
prop("P06", "Iteration visits every element once, in order, with the right loop variables",
 "{{#each}} and sections over lists and objects render the body once per element, in list or insertion order, with this, block parameters, @index, @key, @first and @last describing that element, and the outer loop's variables unchanged inside and after nested loops; an empty or non-iterable input renders the else branch once. {{#with}} renders its body with the given value as context, and the else branch for a missing value.",
 ["inputs", "programs"], "every list/object size and content up to the bound, nesting, loop-variable use and block parameters",
 "Loop state lives in shared maps copied on write; a wrong flag or a stale value shows only for particular sizes and nestings.",
 [HP, VM, VA, MP], [("each", "handlebars_builtin_each in src/handlebars_helpers.c"), ("with", "handlebars_builtin_with in src/handlebars_helpers.c"), ("iterator", "handlebars_value_iterator_* in src/handlebars_value.c")], [("loop data", "index/key/first/last of the current element", "vm data")], [RENDER])
prop("P07", "Partials render the named template in the right context",
 "{{> name}} renders the partial registered under that name (or named by a subexpression) as if inlined with the current context, with a context argument replacing it and hash arguments added without leaking out; on its own line every line of its output is indented like the tag (in Mustache compatibility mode the lines of its template text are). Hash arguments are added when the context is a map or missing; errors inside a partial are reported to the caller. A partial block supplies the fallback when the partial is missing and the content of {{> @partial-block}} when present; a missing partial without fallback is an error, except in Mustache compatibility mode where it renders nothing.",
 ["inputs", "programs"], "every partial content, name form, context/hash argument, nesting and indentation",
 "Partials nest whole template executions; the suite runs a handful of combinations.",
 [VM, CP, ST], [("partial invocation", "invoke_partial in src/handlebars_vm.c"), ("nested execution", "execute_template in src/handlebars_vm.c"), ("partial block closure", "invoke_partial_block_closure in src/handlebars_vm.c"), ("indent", "handlebars_string_indent_append in src/handlebars_string.c")], [("partial block stack", "fallback content in force", "vm partialBlockStack")], [RENDER])
prop("P08", "Helpers are dispatched by the documented precedence with exact arguments",
 "A registered helper wins over a context field of the same name, built-ins are found by exact name only, and a callable context value is called like a helper, helperMissing is consulted only when nothing was found, and a call with arguments to an unknown name is an error naming it. A helper receives its positional arguments in order, its hash arguments by name, the current context, and for blocks its main and inverse bodies; subexpressions are evaluated first and their results passed as typed values. String, number, boolean, null and undefined literals arrive with that type and value; in a string only the escaped quote is special.",
 ["inputs", "programs"], "every helper name, argument list, literal and subexpression nesting within bounds",
 "Argument marshalling goes through several stacks and opcode operands; tests use fixed small argument lists.",
 [VM, CP, HP, SE], [("dispatch", "invoke_ambiguous / invoke_helper / invoke_known_helper in src/handlebars_vm.c"), ("argument marshalling", "setup_options in src/handlebars_vm.c"), ("compilation of arguments and hash", "src/handlebars_compiler.c"), ("built-in names", "src/handlebars_helpers_ht.h")], [], ["arguments seen by a registered helper", RENDER])
prop("P09", "Mustache mode and custom delimiters behave like the default tags",
 "In compatibility mode {{=<% %>=}} changes the delimiters for the rest of that template only and the template then renders exactly as the same template written with {{ }}; old delimiters become plain text. In that mode a name missing in the current context is found in the nearest enclosing one.",
 ["inputs", "programs"], "every delimiter pair, placement and following text within bounds; every depth of enclosing contexts",
 "Delimiters are rewritten by a separate byte scanner before parsing; tests cover two or three pairs.",
 [DL, VM, CP], [("delimiter rewriting", "handlebars_preprocess_delimiters in src/handlebars_delimiters.c"), ("outer lookup", "depthed_lookup in src/handlebars_vm.c")], [], ["text returned by handlebars_preprocess_delimiters", RENDER])
prop("P10", "Rendering is repeatable and leaves its inputs unchanged",
 "Rendering a compiled template with given data yields the same text every time, on a fresh or reused interpreter, directly after compiling or after other renders and after failed ones, and two templates or contexts in one process do not influence each other. The data, helpers and partials handed in are the same after rendering as before.",
 ["histories", "inputs", "programs"], "every sequence of renders (successful or failing) within bounds over every generated template and data",
 "State left behind (stacks, iteration marks, in-place edits, shared strings) shows up only on a second render of particular data.",
 [VM, HP, VA, MP, ST], [("stack save/restore", "handlebars_vm_execute_program_ex / handlebars_vm_execute_ex in src/handlebars_vm.c"), ("copy on write", "separate functions in string/map/stack"), ("iteration marks", "handlebars_map_set_is_in_iteration in src/handlebars_map.c")], [("vm registers", "buffer, stacks, data, last helper", "struct handlebars_vm")], [RENDER, "input value tree after rendering"])
prop("P11", "Any template text ends in a result or a reported error, memory-safely",
 "For every byte string given as a template and every data value, parsing, compiling and rendering terminate with either output or an error reported through the context, and never read or write outside live memory, crash, or hang. This includes truncated tags, unbalanced blocks, stray bytes and NUL bytes.",
 ["inputs"], "every template of bounded length over all byte values, and every single-byte corruption of a set of structured templates",
 "The tests parse well-formed fixtures; malformed inputs form an unbounded space where one missed check is a crash.",
 [LX, "src/handlebars.lex.c", YY, "src/handlebars.tab.c", "src/handlebars_parser.c", AH, WS, CP, SE, VM], [("scanner", "src/handlebars.l"), ("parser actions", "src/handlebars.y"), ("error path", "handlebars_throw_ex in src/handlebars.c")], [], ["process survival, returned text or handlebars_error_num"])
prop("P12", "Deep nesting and recursion hit a limit error, not memory",
 "Templates nested to any depth, path and parent chains of any length, and partials that include themselves either render correctly or stop with a reported error at a fixed limit; one level below each limit still works and no level corrupts memory or overflows an internal stack.",
 ["inputs", "programs"], "every nesting depth from zero past each internal limit, for each nesting construct",
 "Limits sit far beyond the depth any test uses; off-by-one errors show at exactly one depth.",
 [CP, VM, SK], [("compiler stacks", "HANDLEBARS_COMPILER_STACK_SIZE uses in src/handlebars_compiler.c"), ("vm stacks", "HANDLEBARS_VM_STACK_SIZE uses in src/handlebars_vm.c"), ("bounded stack push", "handlebars_stack_push in src/handlebars_stack.c")], [], [RENDER, "handlebars_error_num"])
prop("P13", "Failure of any allocation is reported and survivable",
 "Whichever single memory allocation fails during building values, parsing, compiling or rendering, the call ends with the out-of-memory error reported through its context (or a null result where that is documented), without touching invalid memory, and the same work succeeds when repeated afterwards in a fresh context.",
 ["fault_sequences"], "every index of the failing allocation, over operations covering each component",
 "The suite injects failures in a few constructors at fixed counts, not at every allocation of every operation.",
 ["src/handlebars_memory.c", "src/handlebars.c", ST, MP, SK, VA, "src/handlebars_parser.c", CP, SE, VM], [("fault counter", "handlebars_memory_fail_counter in src/handlebars_memory.c"), ("null checks", "HANDLEBARS_MEMCHECK uses across src")], [("failure counter", "allocations left before failing", "src/handlebars_memory.c")], ["handlebars_error_num, memory safety"])
prop("P14", "Errors carry the right code, message and position and leave the context usable",
 "An invalid template reports a parse error whose line and column lie inside the template at the offending token, and a render error reports its message; the reported line and column equal the token's real position counting newlines. After clearing the error the same context parses and renders again as if nothing had happened, and nested error handlers restore the outer one.",
 ["inputs", "histories"], "every position and kind of error within bounds, every sequence of failing and succeeding calls",
 "Tests assert a few messages; positions depend on scanner line tracking over arbitrary preceding text.",
 ["src/handlebars.c", LX, YY, "src/handlebars_parser.c"], [("throw and location", "handlebars_throw_ex / handlebars_error_message in src/handlebars.c"), ("location tracking", "YY_USER_ACTION in src/handlebars.l")], [("error record", "code, message, location, handler", "handlebars_error_context")], ["handlebars_error_num, handlebars_error_msg, handlebars_error_loc"])
prop("P15", "String operations compute the bytes they promise",
 "Append, copy, truncate, trim, replace, reduce, join, indent, search, formatted append and construction produce exactly the bytes the operation describes for any content (empty strings and bytes above 127 included), with correct length and termination and without reading or writing outside the strings.",
 ["inputs"], "every content of bounded length for each operand, every position and count argument",
 "Tests check one or two literal strings per operation; empty operands, overlaps, misses and boundaries are rarely combined.",
 [ST], [("string operations", "src/handlebars_string.c")], [("length, hash and bytes", "content of a string", "struct handlebars_string")], ["hbs_str_len and hbs_str_val of results"])
prop("P16", "Shared strings never change under their holders, and equality is by content",
 "An operation that modifies a string with other holders leaves what they see unchanged. Two strings compare equal exactly when their bytes are equal, and a string's hash always is the hash of its current content, after any sequence of edits.",
 ["inputs", "histories"], "every content and every sequence of edits within bounds, with one or more holders, also when two contents have the same hash",
 "Hash collisions and stale caches need inputs no test constructs.",
 [ST, "src/handlebars_rc.h"], [("copy on write", "separate_string in src/handlebars_string.c"), ("equality", "handlebars_string_eq / hbs_str_eq_strl in src/handlebars_string.c"), ("hash cache", "hbs_str_hash in src/handlebars_string.c")], [("cached hash", "hash of the bytes or unset", "struct handlebars_string")], ["holders' view of the string, comparison results"])
prop("P17", "C-style escaping of strings is exact and reversible",
 "Escaping a set of characters puts a backslash before each of them (control characters as their letter or three octal digits) and leaves everything else alone; unescaping decodes letter, octal and hex escapes; unescaping an escaped text gives back the original bytes.",
 ["inputs"], "every content and escape set of bounded length",
 "Two literal examples are tested; octal/hex boundaries and signed characters are not.",
 [ST], [("encode", "handlebars_string_addcslashes in src/handlebars_string.c"), ("decode", "handlebars_string_stripcslashes in src/handlebars_string.c")], [], ["result bytes"])
prop("P18", "Maps behave as dictionaries after any history of operations",
 "After any sequence of adding, updating and removing keys, rehashing or compacting, a lookup returns the last value stored under that key and nothing for absent or removed keys, and the reported count is the number of present keys. This holds whatever the keys' hash values are, including full collisions.",
 ["histories", "inputs"], "every operation sequence of bounded length over arbitrary keys with arbitrary hash values",
 "Open addressing with tombstones and displacement fails only for particular collision patterns and removal orders that fixed keys do not produce.",
 [MP], [("probing", "map_find_entry and insertion in src/handlebars_map.c"), ("removal", "handlebars_map_remove in src/handlebars_map.c"), ("rehash and compaction", "handlebars_map_rehash / sparse array compaction in src/handlebars_map.c")], [("table and vector", "hash slots and ordered entries", "struct handlebars_map")], ["handlebars_map_find, handlebars_map_count"])
prop("P19", "Maps iterate in insertion order, sort correctly and share safely",
 "Iterating a map yields each present key exactly once in order of first insertion; sorting yields the same entries ordered by the given comparison; a map with several holders is copied before modification so the other holders still see their own entries.",
 ["histories", "inputs"], "every bounded history of inserts, updates and removes followed by iteration, sorting or shared modification",
 "Removed slots, sparse vectors and copies interact; tests use short fixed insertions.",
 [MP], [("iteration", "handlebars_map_get_kv_at_index and the sparse vector in src/handlebars_map.c"), ("sort", "handlebars_map_sort in src/handlebars_map.c"), ("copy on write", "map separation in src/handlebars_map.c")], [], ["handlebars_map_get_kv_at_index, key and value at each index"])
prop("P20", "Lists and stacks keep order, bounds and isolation",
 "Pushing, popping, setting and reading list elements behave like an array of the pushed values: reads out of range give nothing, popping an empty list gives nothing, popping below a saved mark is refused, restoring a mark returns the list to that state, and a modified list with several holders leaves the others unchanged. A fixed-size list reports an error instead of growing.",
 ["histories", "inputs"], "every bounded sequence of operations with arbitrary indexes",
 "Growth, protection marks and copies only interact in particular sequences.",
 [SK], [("operations", "src/handlebars_stack.c")], [("count, capacity, protect mark", "list state", "struct handlebars_stack")], ["handlebars_stack_get / count / pop / top"])
prop("P21", "Values convert, compare and print consistently for every type",
 "Each value reports the type it was given and its content back unchanged; printing gives the decimal integer, the float with the fewest of 15 to 17 digits that read back as the same number, true/false, the list's printed elements joined by commas, or the raw text; emptiness, truth value and count follow the type; copying gives an equal value and equality never equates different types or contents. The length and content of every conversion is exact for extreme numbers and empty values.",
 ["inputs"], "every type with every content of bounded size, including extreme integers",
 "Per-type switches are tested on one sample per type.",
 [VA, "src/handlebars_value_handlers.c"], [("conversion", "handlebars_value_expression_append / handlebars_value_to_string in src/handlebars_value.c"), ("comparison", "handlebars_value_eq in src/handlebars_value.c"), ("emptiness", "handlebars_value_is_empty in src/handlebars_value.c")], [("type tag and payload", "value content", "struct handlebars_value")], ["accessor results"])
prop("P22", "Every object is released exactly once, after its last use",
 "Through any sequence of creating, copying, storing, overwriting and dropping values, each string, list, map, closure and user object stays alive while a holder exists and is freed exactly once after the last holder lets go; nothing is used after being freed and a long-running owner does not accumulate released objects.",
 ["histories"], "every bounded sequence of assignments and drops over values of every type",
 "Ownership errors need particular sharing histories and mostly stay silent in tests.",
 [VA, ST, MP, SK, "src/handlebars_rc.h", "src/handlebars_closure.c", "src/handlebars_ptr.c"], [("reference counts", "src/handlebars_rc.h"), ("value assignment and drop", "handlebars_value_value / handlebars_value_dtor in src/handlebars_value.c")], [("reference count", "number of holders", "struct handlebars_rc")], ["live allocations under the owner, destructor calls"])
prop("P23", "A compiled module means the same wherever its bytes are placed",
 "Serializing a compiled template and then normalizing, copying, moving or reloading the module at any other address leaves it rendering exactly as the original and refers to nothing outside its own bytes; normalizing and then patching is the identity.",
 ["programs", "inputs"], "every generated template within bounds, any displacement of the module image",
 "Pointer fix-ups cover every operand kind; a missed one works as long as the original memory is still there, as in a test.",
 [SE], [("layout", "handlebars_program_serialize in src/handlebars_opcode_serializer.c"), ("fix-ups", "handlebars_module_patch_pointers / handlebars_module_normalize_pointers in src/handlebars_opcode_serializer.c")], [("module image", "header, programs, opcodes, data", "struct handlebars_module")], ["rendered text of the relocated module; module bytes"])
prop("P24", "Damaged or foreign modules are rejected before use",
 "A module verifies exactly when its version and content are those it was written with: any change of its stored bytes, its size or its version makes verification fail, and an intact module always verifies.",
 ["fault_sequences", "inputs"], "every single- and multi-byte change at every offset of a serialized module",
 "A test flips one or two fixed bytes at most.",
 [SE], [("hash and verify", "handlebars_module_generate_hash / handlebars_module_verify in src/handlebars_opcode_serializer.c")], [("hash, version, size", "integrity header", "struct handlebars_module")], ["handlebars_module_verify"])
prop("P25", "Using a template cache never changes what is rendered",
 "With any cache backend a render gives the same text as without one, on a miss, a hit, after eviction, expiry, collection, reset or release; a lookup returns a module for exactly the requested template text or nothing, and expired or over-limit entries are not returned or are dropped as configured. The statistics count hits, misses and entries truthfully.",
 ["histories", "inputs", "configurations"], "every bounded history of find, add, release, collect, reset and clock steps over arbitrary template texts, for each backend",
 "Tests run one short scenario per backend with one or two templates.",
 ["src/handlebars_cache.c", "src/handlebars_cache_simple.c", "src/handlebars_cache_mmap.c", "src/handlebars_cache_lmdb.c", VM], [("simple backend", "src/handlebars_cache_simple.c"), ("shared memory backend", "src/handlebars_cache_mmap.c"), ("LMDB backend", "src/handlebars_cache_lmdb.c")], [("entries and statistics", "cached modules", "cache internals")], [RENDER, "handlebars_cache_find, handlebars_cache_stat"])
prop("P26", "The shared-memory cache stays inside its block and never deadlocks",
 "Whatever is added, looked up, released, collected or reset, the shared-memory cache writes only inside its own block, never hands out memory that is later overwritten while in use, refuses what does not fit, and every call (including one that fails) leaves its locks released.",
 ["histories", "inputs", "fault_sequences"], "every bounded history with module sizes and table sizes around the capacity limits",
 "Filling the block or table exactly, and failing inside a lock, needs sizes no test uses.",
 ["src/handlebars_cache_mmap.c"], [("append and table", "src/handlebars_cache_mmap.c"), ("locks", "lock/unlock in src/handlebars_cache_mmap.c")], [("block", "header, table, data area", "struct handlebars_cache_mmap internals")], ["handlebars_cache_find/add/gc/reset results, lock state"])
prop("P27", "JSON data is read faithfully and cannot be changed by rendering",
 "A JSON document becomes a value tree with the same structure, keys, order and contents (strings byte for byte, integers, floats, booleans, null), both lazily and fully converted; malformed JSON is a reported error.",
 ["inputs"], "every document of bounded size over each JSON type",
 "Tests read a few documents; accessors are dispatched per type.",
 ["src/handlebars_json.c", VA], [("lazy accessors", "handler table in src/handlebars_json.c"), ("conversion", "handlebars_value_init_json_object in src/handlebars_json.c")], [], ["value accessors", RENDER])
prop("P28", "YAML data is read faithfully",
 "A YAML document becomes a value tree with the same structure and order, where plain scalars become null-like, boolean, integer, float or string values by their spelling and quoted scalars stay strings with their exact bytes; malformed YAML is a reported error.",
 ["inputs"], "every scalar spelling of bounded length and every small sequence/mapping",
 "Tests read one fixed document.",
 ["src/handlebars_yaml.c"], [("scalar typing and tree walk", "src/handlebars_yaml.c")], [], ["value accessors"])
prop("P29", "The partial loader reads the file the name denotes and nothing else",
 "Looking up a partial name reads exactly <base>/<name><extension>, returns that file's bytes unchanged (any bytes, any length), remembers it for later lookups, and reports an error for a missing or unreadable file without disturbing partials already loaded.",
 ["inputs", "fault_sequences"], "every name and file content of bounded length, every failing file operation",
 "Tests load two fixture files.",
 ["src/handlebars_partial_loader.c"], [("file load", "src/handlebars_partial_loader.c")], [("loaded partials", "name to content", "partial loader map")], ["handlebars_value_map_find on the loader value"])
prop("P30", "Names of opcodes, tokens, node types and built-ins map one to one",
 "Every opcode, AST node type and value type has its own readable name, every token has a name (its own, save for the variants of one kind, such as single-quoted strings, which share the kind's name), name lookup of opcodes, tokens and built-in helpers returns the same item back, numbers that are no such item have the name of none, and strings that are not such names are rejected, whatever their bytes and length.",
 ["inputs"], "every enumeration value and every candidate name of bounded length",
 "Tests look up a few names; the perfect hashes can accept near misses.",
 ["src/handlebars_opcodes.c", "src/handlebars_token.c", "src/handlebars_ast.c", "src/handlebars_helpers_ht.h", HP], [("reverse lookup tables", "handlebars_opcode_reverse_readable_type, handlebars_token_reverse_readable_type"), ("built-in lookup", "hbs_builtin_lut_lookup in src/handlebars_helpers_ht.h")], [], ["returned names and codes"])
prop("P31", "Syntax-tree lists and printed trees reflect the template",
 "Appending, prepending, inserting and removing nodes keeps a syntax-tree list consistent in both directions with the right count and order; printing a parsed template shows each of its parts once, in order, with its text unchanged; the template written from a tree parses to the same tree again; and the listing of a compiled program shows every opcode of every nested program in order with its operands.",
 ["histories", "inputs"], "every bounded sequence of list operations; every generated template",
 "List edits at the ends and single-element lists are special cases; tests try a few.",
 ["src/handlebars_ast_list.c", "src/handlebars_ast_printer.c"], [("list operations", "src/handlebars_ast_list.c"), ("printer", "src/handlebars_ast_printer.c")], [("links and count", "list structure", "struct handlebars_ast_list")], ["forward and backward walks, printed text"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
if __name__ == "__main__":
    import re
    for p in L: assert len(p["title"]) <= 80, p["id"]
    open(out, "w").write("".join(json.dumps(p) + "\n" for p in L)); print(len(L))
