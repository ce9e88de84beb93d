#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe or [], 'hook_needed': None}})

prop('C01', 'Any script text executes safely, ends, and leaks nothing',
 'For every byte string handed to the engine as a script, parsing and executing it (unless the script itself loops or recurses forever, or plays with raw pointers) returns either a result or an error with a message, without reading or writing memory it does not own and without aborting. Afterwards the same engine still executes other scripts correctly. Destroying the engine releases every block of memory it allocated.',
 ['inputs', 'programs'], 'every source text: malformed, truncated, with arbitrary bytes in every syntactic position',
 'The tests run a few hundred well-formed scripts and about a hundred malformed ones; truncated tokens, odd bytes and unusual token sequences are unlimited.',
 ['src/mjs_tok.c', 'src/mjs_parser.c', 'src/mjs_bcode.c', 'src/mjs_exec.c', 'src/mjs_core.c'],
 [('tokeniser', 'src/mjs_tok.c:pnext'), ('recursive descent parser with syntax errors', 'src/mjs_parser.c:parse_statement'), ('interpreter loop with error checks', 'src/mjs_exec.c:mjs_execute'), ('teardown', 'src/mjs_core.c:mjs_destroy')], ['mjs_exec', 'mjs_destroy'])
prop('C02', 'JSON.parse is safe on any bytes and gives every JSON text its value',
 'JSON.parse of any byte string returns a value or fails with an error, without touching memory outside the input, without aborting and without leaking. For every well-formed JSON text (objects, arrays, strings with escapes up to \\u00ff, integers, true, false, null, any whitespace) the result is exactly the value the text denotes, with every key and element present in place. Truncated JSON text is rejected with an error.',
 ['inputs'], 'every byte string as argument, from script and from the host',
 'The tests parse a dozen fixed documents.', ['src/mjs_json.c', 'src/frozen/frozen.c', 'src/mjs_util.c'],
 [('streaming parser', 'src/frozen/frozen.c:json_walk'), ('value builder', 'src/mjs_json.c:frozen_cb')], ['JSON.parse', 'mjs_json_parse'])
prop('C03', 'JSON.stringify emits valid JSON and round-trips through JSON.parse',
 'For every value built from objects, arrays, integers, booleans, null and strings of ASCII bytes, JSON.stringify yields a well-formed JSON text, and parsing that text yields a value equal to the original: same structure, same keys, same strings byte by byte, same numbers. Functions and undefined in an object are left out, in an array they keep their position, and a cyclic structure is printed as [Circular] instead of recursing forever. Stringifying never changes the value and never leaks.',
 ['inputs', 'histories'], 'every value of that shape, including control characters, quotes and backslashes in strings and keys, and every nesting',
 'The tests compare the output for a few fixed objects.', ['src/mjs_json.c', 'src/frozen/frozen.c', 'src/mjs_conversion.c', 'src/mjs_util.c'],
 [('serialiser with visited stack', 'src/mjs_json.c:to_json_or_debug'), ('string quoting', 'src/mjs_json.c:snquote')], ['JSON.stringify', 'mjs_json_stringify'])
prop('C04', 'Strings behave as immutable byte strings whatever their storage',
 'Every string operation available to scripts (length, subscript, slice, at, indexOf, concatenation, equality, chr) gives the result defined on plain byte sequences for every content, length and index, including embedded NULs, negative and out-of-range indices. The result never depends on how or where the string is stored (short, long, literal, heap, or host memory). Operands are never modified and nothing outside them is read.',
 ['inputs'], 'all string contents, all lengths around the storage thresholds, all index arguments',
 'Storage classes switch at lengths the tests touch only with fixed contents; index arguments are 2^53 values.', ['src/mjs_string.c', 'src/mjs_exec.c', 'src/mjs_core.c'],
 [('NaN-boxed short strings', 'src/mjs_string.c:mjs_mk_string'), ('string builtins', 'src/mjs_string.c'), ('comparison', 'src/mjs_string.c:mjs_strcmp')], ['mjs_get_string', 's_concat', 'slice', 'at', 'indexOf', 'chr'])
prop('C05', 'Garbage collection at any moment does not change what a script computes',
 'Whenever and however often a garbage collection happens while a script runs (between any two steps, inside nested calls, callbacks, loops, argument evaluation, JSON operations or host functions that own their values), the script computes the same results and side effects as without any collection. No live object, property, string or function is lost, truncated or replaced.',
 ['programs', 'schedules'], 'every placement of collections among the execution steps of a program',
 'Collections happen at allocation thresholds, so the tests fix one schedule per program.', ['src/mjs_gc.c', 'src/mjs_exec.c', 'src/mjs_string.c', 'src/mjs_ffi.c'],
 [('mark from all roots', 'src/mjs_gc.c:mjs_gc'), ('string compaction with pointer relocation', 'src/mjs_gc.c:gc_compact_strings'), ('maybe_gc in the interpreter loop', 'src/mjs_exec.c:mjs_execute')], ['gc(full)', 'mjs_gc'])
prop('C06', 'GC keeps exactly what is reachable; owned values survive and are updated',
 'After a collection, every value reachable from the globals, the running script, or a variable the host registered as owned still has the same contents, and a registered string variable is updated if its string moved. Memory of unreachable objects, properties and copied strings is reclaimed and reused, so repeating an operation that drops its results does not grow the heap without bound. Registering and unregistering in any order affects only the variable named.',
 ['histories', 'inputs'], 'every history of allocations, links, own/disown calls and collections',
 'The tests inspect one or two fixed heaps.', ['src/mjs_gc.c', 'src/mjs_core.c', 'src/mjs_string.c'],
 [('arena with mark bits and free list', 'src/mjs_gc.c:gc_sweep'), ('owned values list', 'src/mjs_core.c:mjs_own'), ('string compaction', 'src/mjs_gc.c:gc_compact_strings')], ['mjs_own', 'mjs_disown', 'mjs_gc'])
prop('C07', 'Objects are exact maps from byte-string keys to values',
 'For every history of setting, getting, overwriting, deleting and enumerating properties, through scripts or the host interface, an object behaves as a map keyed by the exact bytes of the name: a get returns the last value set, deleted or never-set names are absent, and enumeration visits every present own name exactly once. A lookup that misses falls back to the prototype chain, and writes never change the prototype. Other objects are unaffected.',
 ['histories', 'inputs'], 'every operation history and every key content and length',
 'The tests use a few short ASCII names.', ['src/mjs_object.c', 'src/mjs_exec.c'],
 [('property list', 'src/mjs_object.c:mjs_get_own_property'), ('set/delete', 'src/mjs_object.c:mjs_set_internal'), ('enumeration', 'src/mjs_object.c:mjs_next')], ['mjs_set', 'mjs_get', 'mjs_del', 'mjs_next', 'Object.create'])
prop('C08', 'Arrays are exact indexed sequences',
 'For every history of push, indexed get and set, length, splice and deletion on an array, from scripts or the host, the array behaves as the mathematical sequence: length is one more than the largest index set, elements not set read as undefined, and splice removes, returns and inserts exactly the elements ECMAScript prescribes for every start and count, negative or out of range included. Operations on one array never affect another.',
 ['histories', 'inputs'], 'every operation history, every index and every splice argument',
 'The tests splice a handful of fixed arrays.', ['src/mjs_array.c', 'src/mjs_object.c', 'src/mjs_exec.c'],
 [('array as object with index names', 'src/mjs_array.c:mjs_array_set'), ('splice', 'src/mjs_array.c:mjs_array_splice'), ('length', 'src/mjs_array.c:mjs_array_length')], ['mjs_array_push', 'mjs_array_get', 'mjs_array_length', 'splice'])
prop('C09', 'Values keep their exact type and payload when boxed and unboxed',
 'Every number, boolean, string, pointer and function converted to an engine value and back is unchanged, and each value answers yes to exactly the type predicates of its own type, for every bit pattern including NaNs, infinities, negative zero and every pointer below 2^48. Truthiness and the name given by typeof depend only on the type and the value.',
 ['inputs'], 'all 2^64 double bit patterns and all pointers below 2^48',
 'Values share one 64-bit NaN-boxed word; the tests try a few numbers.', ['src/mjs_primitive.c', 'src/mjs_string.c', 'src/mjs_object.c', 'src/mjs_util.c', 'src/mjs_core.c'],
 [('NaN boxing', 'src/mjs_primitive.c:mjs_mk_number'), ('pointer boxing', 'src/mjs_primitive.c:mjs_pointer_to_value'), ('truthiness', 'src/mjs_conversion.c:mjs_is_truthy')], ['mjs_mk_*', 'mjs_get_*', 'mjs_is_*', 'mjs_typeof'])
prop('C10', 'Operators compute ECMAScript results with ECMAScript precedence',
 'For all operand values, arithmetic, comparison, logical, unary, increment, conditional and compound assignment operators on numbers give the ECMAScript result (IEEE doubles; division by zero gives NaN by design), as do remainder, bitwise and shift operators on integers when operands and result fit 32 bits, and strict equality and && || on every pair of types. Arithmetic on other types is a type error, except string + string. Expressions mixing any of these operators group by ECMAScript precedence and associativity and evaluate operands left to right, with the right operand of && and || and the untaken branch of ?: not evaluated.',
 ['inputs', 'programs'], 'all doubles as operands, all pairs of operand types, all pairs of operators',
 'Operators meet a few constants in the tests; there are over 400 pairs of operators and 2^128 operand pairs.', ['src/mjs_exec.c', 'src/mjs_parser.c'],
 [('expression evaluation', 'src/mjs_exec.c:exec_expr'), ('binary operator evaluation', 'src/mjs_exec.c:do_arith_op'), ('precedence climbing', 'src/mjs_parser.c:parse_assignment')], ['mjs_exec'])
prop('C11', 'Control flow, scopes and calls follow the source structure',
 'For every truth value of the conditions and every loop count, if/else, while, for, for-in, break, continue, return, nested blocks and nested function calls execute exactly the statements the source prescribes, whatever the size of the code in between. Variables are visible exactly in their block, parameters bind to arguments in order with missing ones undefined, and `this` is the object the method was called on.',
 ['inputs', 'programs'], 'every combination of branch conditions, loop counts and body sizes in nested control structures',
 'Jump offsets are variable-length and the tests mostly use tiny bodies.', ['src/mjs_parser.c', 'src/mjs_bcode.c', 'src/mjs_exec.c'],
 [('jump offset patching', 'src/mjs_bcode.c:mjs_bcode_insert_offset'), ('loop and scope stacks', 'src/mjs_exec.c:mjs_execute'), ('frames', 'src/mjs_exec.c:call_stack_push_frame')], ['mjs_exec'])
prop('C12', 'Errors and re-entrant calls leave the engine as it was before',
 'However a script, a host-initiated call or a call nested in a host function ends (normally, by an error at any depth, or by die), the engine returns to the state before it: scopes, loops, `this`, call depth and pending arguments are those of the caller, and later scripts and calls give the same results as on an engine that never failed. A call from the host passes exactly the arguments given and returns exactly the value returned, also when made from inside a function called by a script.',
 ['histories', 'programs'], 'every point of failure inside nested scripts, functions, loops, blocks and host calls, and every sequence of calls afterwards',
 'The tests check the result of an erroneous script, not what is left behind.', ['src/mjs_exec.c', 'src/mjs_core.c'],
 [('frame restore', 'src/mjs_exec.c:call_stack_restore_frame'), ('error unwinding', 'src/mjs_exec.c:mjs_execute'), ('host calls', 'src/mjs_exec.c:mjs_apply')], ['mjs_exec', 'mjs_call', 'mjs_apply'])
prop('C13', 'FFI calls pass every argument and result unchanged',
 'A C function imported with a signature of int, bool, float, double, string and pointer parameters receives exactly the values given by the script, in order, and the script receives exactly the value the function returned, for every value and every supported combination of types. A wrong number of arguments, or a value of the wrong type for an int, bool, string or pointer parameter, is an error and the function is not called.',
 ['inputs', 'configurations'], 'every argument value, every supported signature shape',
 'The tests call a few dozen functions with fixed values.', ['src/mjs_ffi.c', 'src/ffi/ffi.c'],
 [('argument marshalling', 'src/mjs_ffi.c:mjs_ffi_call2'), ('trampoline', 'src/ffi/ffi.c:ffi_call_mjs')], ['ffi()'])
prop('C14', 'FFI signature parsing is safe and exact on any text',
 'For every text given as a C signature, importing it either yields a function with exactly the declared name, return type, parameter types and callback positions, or fails with an error, without touching memory outside the text, aborting or leaking. Signatures outside the documented forms (unknown types, too many parameters, userdata without callback, more than one callback) are rejected.',
 ['inputs'], 'every text, well-formed or not',
 'The tests parse some forty fixed signatures.', ['src/mjs_ffi.c'],
 [('signature parser', 'src/mjs_ffi.c:mjs_parse_ffi_signature'), ('validation', 'src/mjs_ffi.c:mjs_ffi_sig_validate')], ['ffi()', 'mjs_parse_ffi_signature'])
prop('C15', 'C code calls script callbacks with the right arguments and user data',
 'When C code invokes a callback it was given through FFI, any number of times and in any order with other registered callbacks, the script function registered at that position runs with exactly the values passed, receives the user data registered with it, and the C caller gets the value it returned. Callbacks keep working after garbage collection, and releasing them stops neither the others nor leaks anything.',
 ['histories', 'inputs'], 'every sequence of registrations, invocations and collections, every argument value and userdata position',
 'The tests register one callback at a time with fixed arguments.', ['src/mjs_ffi.c'],
 [('callback dispatch', 'src/mjs_ffi.c:ffi_cb_impl_generic'), ('registration', 'src/mjs_ffi.c:mjs_ffi_call2')], ['ffi callbacks', 'mjs_ffi_cb_free'])
prop('C16', 'Raw memory views read and write exactly the bytes addressed',
 'Every typed read or write of host memory (8/16/24/32-bit integers, signed or unsigned, in either byte order, doubles, single bytes by subscript, and the DataView methods) at an address and offset transfers exactly the bytes addressed and interprets them exactly, for every content and value; neighbouring bytes are untouched. A string made from host memory has exactly the bytes of the given range, and a copied one does not change when the memory does. Wrong argument types and DataView indices outside the view are errors.',
 ['inputs'], 'all memory contents, all values, all offsets', 'The tests read a few fixed buffers.', ['src/mjs_dataview.c', 'lib/api_dataview.js', 'src/mjs_string.c', 'src/mjs_exec.c', 'src/mjs_primitive.c'],
 [('memory accessors', 'src/mjs_dataview.c'), ('mkstr', 'src/mjs_string.c:mjs_mkstr'), ('DataView', 'lib/api_dataview.js')], ['mkstr', 'mem_get_*', 'mem_set_*'])
prop('C17', 'A C struct converts to an object with exactly its member values',
 'Converting a struct with any descriptor (distinct member names) yields an object with one property per described member, named as described, holding exactly the value stored in memory for every content of every member type (integers of each width and signedness, booleans, floats, doubles, C strings, counted strings, pointers to them, nested structs and pointers to structs, raw data, custom members). Null pointers are handled and nothing outside the described members is read.',
 ['inputs', 'configurations'], 'every memory content and member type', 'The tests convert one fixed struct.', ['src/mjs_util.c', 'src/mjs_ffi.c', 'src/mjs_object.c'],
 [('struct conversion', 'src/mjs_object.c:mjs_struct_to_obj')], ['mjs_struct_to_obj', 's2o'])
prop('C18', 'Buffers, varints and counted strings are exact and bounded',
 'For every history of append, insert, remove, resize, trim and move, a growable buffer holds exactly the bytes the history defines and never writes outside its allocation. Variable-length integers decode to the number encoded, with the predicted length, and malformed or truncated encodings are rejected. Counted-string comparison, search, copy and trimming agree with their definition on byte sequences.',
 ['histories', 'inputs'], 'every operation history, every 64-bit number, all byte strings', 'No test exercises these directly.', ['src/common/mbuf.c', 'src/common/cs_varint.c', 'src/common/mg_str.c'],
 [('growable buffer', 'src/common/mbuf.c'), ('varint', 'src/common/cs_varint.c'), ('counted strings', 'src/common/mg_str.c')], ['mbuf_*', 'cs_varint_*', 'mg_str*'])
prop('C19', 'Bounded formatting never overruns and reports the exact length',
 'For every buffer size and arguments, the bounded formatting functions c_snprintf and c_vsnprintf write at most the given number of bytes, always terminate the text when the size is not zero, and return the length the complete text would have. The text is the one standard C formatting prescribes for the supported directives (%d, %u and %x for every integer size, %c, %s with width and with a precision of at least 1, %p, zero padding), truncated to fit. A string printed with a precision need not be terminated and is not read beyond it. Printing into a growing buffer (mg_asprintf) gives the complete text of any length, and uses the buffer given whenever the text fits it.',
 ['inputs'], 'every buffer size, value, string content, width and precision', 'The tests format a few values into large buffers.', ['src/common/str_util.c', 'src/mjs_util.c'],
 [('bounded vsnprintf', 'src/common/str_util.c:c_vsnprintf'), ('growing printf', 'src/common/str_util.c:mg_avprintf')], ['c_snprintf', 'c_vsnprintf', 'mg_asprintf'])
prop('C20', 'Errors name the right line and one frame per active call',
 'For every script, an error raised by a statement (standing on one line and ended by a semicolon) is reported with the file name and the line on which that statement stands, whatever precedes it (blank lines, comments, strings with newlines, long and nested blocks, other scripts). The stack trace lists one entry for the failing statement and one per active function call, innermost first, each with the line of the call; functions keep the lines of the script that defined them. A host function asking for the lines of the active calls (mjs_get_offset_by_call_frame_num, mjs_get_lineno_by_offset) gets the same. A syntax error names the line of the offending token and quotes the text from that token on, and nothing of the script is run.',
 ['programs', 'inputs'], 'every placement of an error among lines, functions and scripts', 'The tests check a few messages.', ['src/mjs_bcode.c', 'src/mjs_core.c', 'src/mjs_parser.c', 'src/mjs_exec.c', 'src/mjs_tok.c', 'src/mjs_util.c'],
 [('line map', 'src/mjs_bcode.c:add_lineno_map_item'), ('lookup', 'src/mjs_util.c:mjs_get_lineno_by_offset'), ('stack trace', 'src/mjs_core.c:mjs_gen_stack_trace')], ['mjs_strerror', 'mjs_print_error', 'mjs_get_lineno_by_offset', 'mjs_get_offset_by_call_frame_num'])
prop('C21', 'The JSON library walks, scans, escapes and prints JSON exactly',
 'For every byte string, walking JSON text stays inside the input and reports exactly the tokens, paths and lengths present, or an error with the right code (invalid or incomplete). Scanning a value by path stores exactly the value found there and nothing else, and counts it; stepping through the members of an object or array visits each of them once, in order, and nothing else. Unescaping inverts escaping for every byte string, and rejects malformed escapes. Printing (json_printf) and pretty-printing give a text with the same data. Output never exceeds the buffer given, and the length reported is the length of the complete text.',
 ['inputs'], 'every JSON text, every string, every buffer size', 'The library has no tests of its own in this repository.', ['src/frozen/frozen.c', 'src/frozen/frozen.h'],
 [('walker', 'src/frozen/frozen.c:json_walk'), ('scanner', 'src/frozen/frozen.c:json_vscanf'), ('escape/unescape', 'src/frozen/frozen.c:json_escape'), ('iteration', 'src/frozen/frozen.c:json_next')], ['json_walk', 'json_scanf', 'json_scanf_array_elem', 'json_printf', 'json_prettify', 'json_escape', 'json_unescape', 'json_next_key', 'json_next_elem'])
prop('C22', 'Number and string literals and number conversions keep the exact value',
 'Every decimal integer, hexadecimal (0x), fractional and exponent literal evaluates, in every place an expression may stand, to the double nearest to it. Every integer up to 2^53 in magnitude converts to its decimal digits when used as a property name, in JSON.stringify() or in mjs_sprintf(), and parses back to the same number. A string literal denotes exactly the bytes written between its quotes, where the escape sequences for backspace, tab, newline, vertical tab, form feed, carriage return, backslash and quotes, \\xHH and \\u00HH denote exactly their byte.',
 ['inputs'], 'every literal and every integer up to 2^53', 'The tests use some twenty literals.', ['src/mjs_tok.c', 'src/mjs_parser.c', 'src/mjs_string.c', 'src/mjs_conversion.c', 'src/mjs_exec.c', 'src/mjs_util.c'],
 [('literals', 'src/mjs_parser.c:parse_literal'), ('unescaping', 'src/mjs_string.c:unescape'), ('conversion to string', 'src/mjs_conversion.c:mjs_to_string')], ['mjs_exec', 'mjs_sprintf', 'JSON.stringify()'])
prop('C23', 'load() runs each file in the right namespace and reports its outcome',
 'Loading a file executes its text as if it were given directly: the first load() returns the value of its last statement and defines its variables in the namespace object given or else in the current scope, looking other names up outwards, and leaves the caller\'s scopes untouched. A file loaded again is not executed again if it succeeded before, unless a namespace object is given; a file which failed is executed again. mjs_exec_file() always executes the file. A missing, malformed or failing file yields the error in question, with a message that names the file, and nothing leaks.',
 ['inputs', 'histories'], 'every file content, every order of loads, every failure', 'The tests load two fixed files.', ['src/mjs_builtin.c', 'src/mjs_exec.c', 'src/mjs_core.c', 'src/common/cs_file.c'],
 [('load', 'src/mjs_builtin.c:mjs_load'), ('file execution', 'src/mjs_exec.c:mjs_exec_file')], ['load()', 'mjs_exec_file'])

prop('C24', 'Precompiling to .jsc files never changes what a script does',
 'With precompilation enabled (mjs_set_generate_jsc), executing a .js file gives the same result, functions and errors as without it, whatever a file with the .jsc name contained before (nothing, other bytes, the code of another version) and whichever file operation fails, is incomplete or is not permitted. When nothing fails, the .jsc file then contains exactly the code of the script, and an up to date one is not rewritten. Functions of earlier versions of a file keep working after the file is changed and executed again. No other file is written, names not ending in .js get no .jsc file, a script which cannot be read or parsed writes nothing, and no open file, mapping or memory is left behind.',
 ['inputs', 'fault_sequences', 'histories'], 'every content of the existing file, every fault schedule, every history of executions and changes', 'The tests never run with a failing or stale .jsc file.', ['src/mjs_exec.c', 'src/common/cs_file.c', 'src/mjs_core.c'],
 [('writing and mapping', 'src/mjs_exec.c:mjs_exec_internal'), ('mapping', 'src/common/cs_file.c:cs_mmap_file')], ['mjs_exec_file', 'mjs_set_generate_jsc', 'file system calls'])
prop('C25', 'The Math and File script libraries do what they document',
 'Every function of the Math library returns what the C function of the documented meaning returns for exactly the arguments given, and Math.random() is a number from 0 to 1. File.read() gives exactly the bytes of the file, File.write() leaves exactly the bytes of the string in the file (or appends them) and returns how many were written, for every content and length; File.remove() and File.rename() act on the files named. All of them end, and close what they opened, whichever file operation fails or is incomplete.',
 ['inputs', 'fault_sequences'], 'every argument, content, length and failing operation', 'The tests do not run the libraries at all.', ['lib/api_math.js', 'lib/api_file.js', 'src/mjs_ffi.c'],
 [('Math', 'lib/api_math.js'), ('File', 'lib/api_file.js')], ['script results', 'arguments of the C functions'])

prop('C26', 'Printed values and error messages show exactly what they are about',
 'mjs_fprintf and print() write exactly the text of each value: integers in decimal, true, false, null, undefined, strings with every byte that is not printable ASCII as \\xHH, functions, pointers, arrays and objects by their marks. print() writes its arguments in order, separated by one space, and ends the line. mjs_sprintf writes that text, or as much of it as fits, always terminated, and nothing outside a buffer of any size. The message of an error is what die() or the host gave, each prefix before the older text and the first error code kept; without a text it is the name of the code. mjs_print_error writes the stack trace if asked, then one line with the prefix and that message. Nothing goes to another file.',
 ['inputs', 'configurations'], 'every value, every string content, every buffer size, every message', 'The tests compare a handful of printed values and messages.', ['src/mjs_util.c', 'src/mjs_core.c', 'src/mjs_builtin.c', 'src/frozen/frozen.c'],
 [('values', 'src/mjs_util.c:mjs_jprintf'), ('print', 'src/mjs_builtin.c:mjs_print'), ('error messages', 'src/mjs_core.c:mjs_prepend_errorf')], ['stdout', 'mjs_sprintf', 'mjs_fprintf', 'mjs_strerror', 'mjs_print_error'])
prop('C27', 'The mjs command runs its arguments in order and prints the outcome',
 'The mjs command executes the scripts (-e), files (-f) and then the files named, in the order given and in one engine, so that later ones see the variables of earlier ones. When all succeed it prints the value of the last one (undefined if there is none) on one line and nothing else. After the first one that fails - an error, a syntax error, a file that cannot be read - nothing more is executed, and the stack trace and the error message are printed. An unknown or incomplete option stops it with a failure status and a complaint that names the option on standard error, -h prints the help. Options -l and -j may stand anywhere among the others. It releases all its memory.',
 ['inputs', 'configurations'], 'every sequence of options, scripts and files, every value and failure', 'The tests run the engine through its API and a few fixed command lines.', ['src/mjs_main.c', 'src/mjs_exec.c', 'src/mjs_core.c', 'src/mjs_util.c'],
 [('option loop', 'src/mjs_main.c:main'), ('file execution', 'src/mjs_exec.c:mjs_exec_file')], ['stdout', 'stderr', 'exit status'])
prop('C28', 'Text utilities and logging do exactly what their headers document',
 'For every text: c_strnstr finds the first occurrence within the limit, c_strnlen the length, cs_to_hex and cs_from_hex are inverse, mg_ncasecmp and mg_casecmp order strings ignoring case, mg_next_comma_list_entry yields each entry, name and value, where it stands. mg_match_prefix returns the length of a prefix that matches the glob pattern (* up to a slash, ** anything, ? one character but a slash, | or , between alternatives, case ignored) whenever one of at least one byte matches, and 0 otherwise. A log message is printed, with its file name and line, to the log file exactly if its level is not above that of the first matching file filter, or else the level set. None of them reads or writes outside the bytes given.',
 ['inputs', 'configurations'], 'every text, every pattern, every filter and level', 'There are no tests of these functions in the repository.', ['src/common/str_util.c', 'src/common/mg_str.c', 'src/common/cs_dbg.c'],
 [('glob', 'src/common/str_util.c:mg_match_prefix_n'), ('lists', 'src/common/str_util.c:mg_next_comma_list_entry_n'), ('log filter', 'src/common/cs_dbg.c:cs_log_print_prefix')], ['return values', 'log file'])

TECH = 'bounded symbolic execution of the real code (LLVM IR) with Z3 deciding every branch and assertion; counterexamples replayed natively under ASan'
LV = 'Every input within the bounds listed in the evidence is covered symbolically (bit-vector and floating-point theory); trusted: clang front end, the executor in vsym/, the libc model in lib/rt.c, Z3. Nothing is claimed outside the bounds.'
HOOK = '409fa5d7a94b2d05be31b5438e049a1c3457b857'
def main():
    import sys; sys.path.insert(0, H)
    import jobs as J
    with open(H + '/properties.jsonl', 'w') as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
    NA = getattr(J, 'NOT_APPLICABLE', {})
    m = {'version': 1, 'setup_cmd': 'make -C vsym B=/verif/build', 'checks': [], 'not_applicable': [], 'hooks': {'guard': 'MJS_GC_POINT', 'enable': 'the checks of C05 and C06 compile the repository sources with -DMJS_GC_POINT=vs_gc_point', 'source_commits': [HOOK]}}
    for p in P:
        i = p['id']
        if i in J.PROPS: m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s --tier thorough' % i, 'technique': TECH, 'level': 'model_checking', 'level_note': LV})
        else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no harness yet (work in progress)')})
    json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False); open(H + '/MANIFEST.json', 'a').write('\n')
main()
