COMMON_ASSUMPTIONS = [
 'clang-18 front end, -O0 plus SROA/EarlyCSE/SimplifyCFG; x86-64 data layout; conversions of out-of-range doubles to integers as x86 cvttsd2si',
 'libc is the C model in lib/rt.c; malloc never fails below 8 MB; stdio output is discarded',
 'Z3 4.8.12 decides each path condition; every model is re-evaluated by an independent evaluator; unknown answers are listed in outside_the_claim',
]
def job(file, entry, bound, **k):
    d = dict(file=file, entry=entry, bound=bound); d.update(k); return d
C = 'containers.c'
I16 = ['-DINTT=int16_t']
GCP = ['-DMJS_GC_POINT=vs_gc_point']
ARENA = ['-DMJS_OBJECT_ARENA_SIZE=3', '-DMJS_PROPERTY_ARENA_SIZE=6', '-DMJS_OBJECT_ARENA_INC_SIZE=2', '-DMJS_PROPERTY_ARENA_INC_SIZE=3']
PROPS = {
 'C18': {'jobs': [
   job(C, 'H_varint_roundtrip', 'every 64-bit number x every buffer capacity 0..11', reach=['roundtrip', 'truncated']),
   job(C, 'H_varint_decode_any', 'every byte string of length 0..11', reach=['term', 'unterm']),
   job(C, 'H_mbuf_model', 'every history of 3 mbuf operations (sizes 0..3, every offset, symbolic bytes) from capacity 0..2', reach=['end'], cores=4, thorough=dict(defs=['-DMB_OPS=4'], cores=8, budget=900, bound='every history of 4 mbuf operations')),
   job(C, 'H_mbuf_grow', 'append 0..39 single bytes then insert at every offset'),
   job(C, 'H_mgstr_cmp', 'all pairs of byte strings of length 0..3', reach=['end'], cores=2),
   job(C, 'H_mgstr_find', 'haystack 0..4 bytes, needle 0..2 bytes', reach=['end']),
   job(C, 'H_mgstr_misc', 'all byte strings of length 0..3', reach=['end']),
   job(C, 'H_mgstr_vcmp', 'all byte strings 0..3 vs C strings 0..3', reach=['end']),
 ]},
 'C01': {'jobs': [
   job('exec.c', 'H_src_raw', 'every script of 0..3 arbitrary bytes', reach=['ok', 'err'], cores=3, defs=['-DNSPLIT=1'], thorough=dict(defs=['-DNSPLIT=1', '-DNB=4'], cores=8, budget=1200, bound='every script of 0..4 arbitrary bytes')),
   job('exec.c', 'H_src_tmpl', '56 syntactic contexts, each with a hole of 2 arbitrary bytes', reach=['ok', 'err'], cores=4, budget=240, defs=['-DNSPLIT=1', '-DNB=2'], thorough=dict(defs=['-DNSPLIT=1', '-DNB=3'], cores=8, budget=2400, bound='56 syntactic contexts, each with a hole of 3 arbitrary bytes')),
   job('exec.c', 'H_src_tok', 'every sequence of 3 tokens out of 40 (parsed, not run)', reach=['ok', 'err'], cores=3, defs=['-DNSPLIT=1', '-DNTOK=3'], thorough=dict(defs=['-DNSPLIT=1', '-DNTOK=4'], cores=8, budget=2400, bound='every sequence of 4 tokens out of 40')),
   job('exec.c', 'H_src_tok_run', 'an assignment followed by every sequence of 3 tokens out of 40, executed', reach=['ok', 'err'], cores=3, defs=['-DNSPLIT=1', '-DNTOK=3'], thorough=dict(defs=['-DNSPLIT=1', '-DNTOK=4'], cores=8, budget=2400, bound='every sequence of 4 tokens out of 40, executed')),
 ], 'assumptions': ['scripts that loop or recurse without end, or call raw host pointers, are outside the claim']},
 'C10': {'jobs': [
   job('ops.c', 'H_chain2', 'x OP y OP z for all pairs of the 19 binary operators, operands symbolic integers 0..15 (divisors 0 and 4)', defs=I16, cores=2, reach=['num', 'bool', 'type error']),
   job('ops.c', 'H_chain3', 'chains of 3 binary operators', defs=I16, cores=8, budget=3000, tier='thorough'),
   job('ops.c', 'H_order2', 'evaluation order and short circuit for all pairs of operators', defs=I16, cores=2, reach=['num', 'bool']),
   job('ops.c', 'H_double_ops', 'all pairs of doubles under + - * / < > <= >= === !==', defs=I16, reach=['num', 'bool']),
   job('ops.c', 'H_int_ops', '& | ^ << >> >>> ~ on all 32-bit integers, % by 7 divisors on 6 x 65536 dividends including both ends of the range', defs=['-DINTT=int32_t', '-DREM_HI'], reach=['num'], cores=4, thorough=dict(defs=['-DINTT=int32_t'], bound='% & | ^ << >> >>> ~ on all 32-bit integers', budget=600, opts=['--rlimit-fp', '200000000'])),
   job('ops.c', 'H_unary', '8 unary prefixes x 19 operators x 8 unary prefixes x 4 operand forms', defs=I16, cores=4, reach=['num', 'bool']),
   job('ops.c', 'H_unary_double', 'unary, increment and decrement operators on all doubles', defs=I16, reach=['num']),
   job('ops.c', 'H_assign', '5 assignment operators x 5 kinds of target, all doubles', defs=I16, cores=2, reach=['num']),
   job('ops.c', 'H_assign_int', '7 integer compound assignments', defs=I16),
   job('ops.c', 'H_ternary', 'conditional expressions, condition any double', defs=I16),
   job('ops.c', 'H_paren', 'parenthesised pairs of operators', defs=I16, cores=2),
   job('ops.c', 'H_types', 'all pairs of 14 values of all types under all 19 operators', defs=I16, cores=2, reach=['type error', 'equality', 'logical']),
   job('ops.c', 'H_loose_eq', '== and != on all doubles', defs=I16),
 ]},
 'C04': {'jobs': [
   job('str.c', 'H_str_get', 'strings of 0..7 arbitrary bytes in 5 storages: bytes, length, every subscript', reach=['end']),
   job('str.c', 'H_str_at', 'strings of 0..6 arbitrary bytes in 5 storages, every 32-bit index', reach=['in', 'out']),
   job('str.c', 'H_str_slice', 'strings of 0..7 arbitrary bytes in 5 storages, every pair of 32-bit indices', reach=['end'], cores=3),
   job('str.c', 'H_str_cat', 'all pairs of strings of 0..6 arbitrary bytes in 5x5 storages', reach=['end'], cores=2),
   job('str.c', 'H_str_eq', 'all pairs of strings of 0..7 arbitrary bytes in 5x5 storages', reach=['eq', 'ne'], cores=2),
   job('str.c', 'H_str_cmp', 'mjs_strcmp, mjs_get_cstring on strings of 0..6 bytes', reach=['eq', 'ne']),
   job('str.c', 'H_str_find', 'haystack 0..5 bytes, needle 0..3 bytes, every 32-bit start', reach=['end'], cores=3),
   job('str.c', 'H_str_chr', 'every 32-bit argument', reach=['in', 'out']),
   job('str.c', 'H_str_len', '16 lengths up to 16384 in 4 storages, symbolic bytes at start, middle and end', reach=['end'], cores=2),
   job('str.c', 'H_str_grow', 'doubling 0..8 times and appending slices, 1..6 arbitrary bytes', reach=['end']),
   job('str.c', 'H_str_types', '11 calls with wrong arguments'),
 ], 'assumptions': ['index arguments are 32-bit integers']},
 'C07': {'jobs': [
   job('obj.c', 'H_obj_hist', 'every history of 3 set/delete/get operations, by host or script, over 3 keys of arbitrary bytes (lengths 0, 1, 5, 6)', defs=['-DNOPS=3'], reach=['end'], cores=5, budget=240, thorough=dict(defs=['-DNOPS=4'], cores=8, budget=3000, bound='every history of 4 operations over 3 keys')),
   job('obj.c', 'H_obj_keys', 'all pairs of keys of 0..7 arbitrary bytes, 3 ways to write x 3 ways to read', reach=['same', 'differ']),
   job('obj.c', 'H_obj_names', '7 ways to write x 4 ways to read a property, any double; 256 numeric names', cores=3),
   job('obj.c', 'H_obj_proto', 'chains of 3 objects, every placement of a key of arbitrary bytes', reach=['end']),
   job('obj.c', 'H_obj_method', 'methods of prototypes, any doubles'),
   job('obj.c', 'H_obj_forin', 'objects of 0..5 properties with one of them deleted or none'),
   job('obj.c', 'H_obj_many', '40, 100, 160 or 220 properties, every 2nd/3rd/4th deleted, collected', reach=['end']),
   job('obj.c', 'H_obj_misc', '10 accesses to non-objects; references'),
 ], 'assumptions': ['the names apply and __p are reserved by the engine', 'objects are not modified while they are enumerated']},
 'C08': {'jobs': [
   job('obj.c', 'H_arr_splice', 'arrays of 0..5 elements, every 32-bit start and count, 0..3 new elements', reach=['end'], cores=3, opts=['--fork-select'], thorough=dict(defs=['-DNS=9'], cores=8, bound='arrays of 0..8 elements, every 32-bit start and count, 0..3 new elements')),
   job('obj.c', 'H_arr_hist', 'every history of 3 push/set/delete/splice operations by host or script', defs=['-DNOPS=3'], reach=['end'], cores=5, budget=240, thorough=dict(defs=['-DNOPS=4'], cores=8, budget=3000, bound='every history of 4 operations')),
   job('obj.c', 'H_arr_index', '14 indices up to 2^32-3, any double', reach=['end']),
   job('obj.c', 'H_arr_lit', '9 ways to build an array'),
   job('obj.c', 'H_arr_many', '10 to 145 elements'),
   job('obj.c', 'H_arr_bad', '6 calls with wrong arguments'),
 ], 'assumptions': ['splice is claimed for arrays without holes']},
 'C11': {'jobs': [
   job('flow.c', 'H_flow2', 'generated programs: 8 outer x 11 inner constructs x break/continue/return/plain leaves; 5 symbolic condition outcomes', reach=['end'], cores=2, thorough=dict(defs=['-DMAXC=8'], cores=8, budget=900, bound='same with 8 symbolic condition outcomes')),
   job('flow.c', 'H_flow3', 'same with two inner constructs in sequence; 4 condition outcomes', defs=['-DMAXC=4'], reach=['end'], cores=5, budget=240, thorough=dict(defs=['-DMAXC=7'], cores=8, budget=1800)),
   job('flow.c', 'H_flow_deep', '7x7x7 nestings with break/continue/return/plain leaves; 5 condition outcomes', reach=['end'], cores=3, thorough=dict(defs=['-DMAXC=8'], cores=8, budget=900)),
   job('flow.c', 'H_flow_pad', '18 nested shapes with every code padding of 40..139 bytes; 4 condition outcomes', defs=['-DMAXC=4'], reach=['end'], cores=3),
   job('flow.c', 'H_flow_head', '28 choices of padded for/while/if/?:/&&/|| head parts with every length of 40..139 bytes; 3 condition outcomes', defs=['-DMAXC=3'], reach=['end'], cores=4),
  job('flow.c', 'H_flow_head', 'the same with every length around 16384 bytes', defs=['-DPLO=16340', '-DPN=60', '-DMAXC=3'], reach=['end'], cores=8, budget=1200, tier='thorough'),
  job('flow.c', 'H_flow_pad', '18 nested shapes with every code padding around 16384 bytes', defs=['-DPLO=16340', '-DPN=60', '-DMAXC=3'], reach=['end'], cores=8, budget=1200, tier='thorough'),
   job('flow.c', 'H_scope', 'visibility of block, loop, function and parameter variables; any doubles'),
   job('flow.c', 'H_params', 'parameters, missing and extra arguments, this, apply, recursion; any doubles'),
   job('flow.c', 'H_count', 'loops with symbolic bounds 0..6, break and continue at symbolic iterations', reach=['end']),
   job('flow.c', 'H_big', '6 large programs (600 blocks, 40 nested blocks, 40 kB functions, 31 parameters)'),
 ], 'assumptions': ['language subset of mJS: bodies of if with else are in braces, all three parts of a for header are present, no closures (free variables are looked up in the calling scopes)']},
 'C12': {'jobs': [
   job('state.c', 'H_err_script', '3 programs, 6 kinds of failure injected at a symbolic one of their host calls (all positions), any value -128..5 of the conditions', reach=['failure', 'no failure']),
   job('state.c', 'H_err_call', 'the same for calls made by the host, any double as argument', reach=['failure', 'no failure']),
   job('state.c', 'H_err_nested', '7 programs calling a host function that re-enters the engine in 3 ways and fails at a symbolic position in 6 ways', reach=['inner failure']),
   job('state.c', 'H_call_args', '0..3 arguments of any double, 3 ways to call', reach=['end']),
   job('state.c', 'H_err_keep', 'failure at a symbolic iteration 0..4, any double'),
 ], 'assumptions': ['failures are those a script or a host function can cause; memory exhaustion is not modelled']},
 'C09': {'jobs': [
   job('val.c', 'H_val_number', 'every double; 9 contexts that take a truth value', reach=['end']),
   job('val.c', 'H_val_number_pass', 'every double through 20 ways to pass a value', reach=['end']),
   job('val.c', 'H_val_int', 'all 32-bit integers'),
   job('val.c', 'H_val_bool', 'all ints as boolean, 9 contexts x 20 ways to pass'),
   job('val.c', 'H_val_ptr', 'all pointers below 2^48'),
   job('val.c', 'H_val_badptr', 'all 64-bit addresses that cannot be represented'),
   job('val.c', 'H_val_str', 'strings of 0..11 arbitrary bytes, copied or not, 9 contexts x 20 ways to pass', reach=['end']),
   job('val.c', 'H_val_cstr', 'strings of 0..7 bytes with at most one NUL at any place', reach=['embedded', 'plain']),
   job('val.c', 'H_val_other', '10 values of the other types'),
   job('val.c', 'H_val_func', 'all 32-bit code offsets'),
   job('val.c', 'H_val_any', 'all 64-bit patterns'),
 ]},
 'C13': {'jobs': [
   job('ffi.c', 'H_ffi2', 'every signature of 0..2 parameters over 7 types and 7 return types, every value', reach=['called', 'unsupported'], cores=2),
   job('ffi.c', 'H_ffi3', 'every signature of 3 parameters over 7 types and 7 return types, every value', reach=['called', 'unsupported'], cores=3),
   job('ffi.c', 'H_ffi6', '4..6 parameters: two free among 5 types, at most one double or float at any place, 4 return types, every value', reach=['called', 'unsupported'], cores=3, thorough=dict(defs=['-DFREE6=4'], cores=8, budget=900, bound='4..6 parameters: four free among 5 types, at most one double or float at any place, 4 return types, every value')),
   job('ffi.c', 'H_ffi_str', 'strings of 0..9 arbitrary bytes as char*, void*, struct mg_str*, in 2 storages', reach=['end']),
   job('ffi.c', 'H_ffi_null', 'NULL results, unknown functions, no resolver'),
   job('ffi.c', 'H_ffi_bad', '5 parameter types x 10 argument values x 3 positions, wrong argument counts'),
   job('ffi.c', 'H_ffi_nest', 'nested calls, any 16-bit values'),
 ], 'assumptions': ['x86-64 System V calling convention as implemented by the engine\'s call trampolines; more than 3 parameters with a double or float, or doubles and floats together, are outside the supported combinations and must be errors']},
 'C14': {'jobs': [
   job('sig.c', 'H_sig_bytes', 'every text of 0..7 arbitrary bytes', defs=['-DSMAX=7'], reach=['other'], cores=2, thorough=dict(defs=['-DSMAX=9'], cores=8, budget=1200, bound='every text of 0..9 arbitrary bytes')),
   job('sig.c', 'H_sig_mut', '9 signatures with one arbitrary byte replaced, removed or inserted anywhere', reach=['accepted', 'other'], cores=2, thorough=dict(defs=['-DNMUT=2'], cores=8, budget=1500, bound='9 signatures with two arbitrary edits')),
   job('sig.c', 'H_sig_trunc', 'every substring of 9 signatures', reach=['accepted', 'other'], cores=2),
   job('sig.c', 'H_sig_ast', 'signatures of 0..6 parameters built from parts, callback at every place, 5 kinds of spacing, any name of 3 characters', reach=['end'], cores=3),
   job('sig.c', 'H_sig_reject', '17 undocumented forms; any unknown word of 1..7 characters as type', reach=['end']),
   job('sig.c', 'H_sig_name', 'names of 0..129 characters; 7 arguments that are not signatures', reach=['ok', 'bad']),
 ], 'assumptions': ['text after the declaration and around the name of a callback may be ignored or rejected']},
 'C15': {'jobs': [
   job('cb.c', 'H_cb_types', '1..6 arguments, user data at every place, 3 return types, 2 of the others free among 5 types, every value; with and without collection', reach=['end'], cores=2, thorough=dict(defs=['-DFREE=4'], cores=8, budget=1200, bound='same with 4 free types')),
   job('cb.c', 'H_cb_double', 'one double and the user data in either order, every double'),
   job('cb.c', 'H_cb_many', '4 registrations, every sequence of 3 calls, collections, 6 ways to release', reach=['end'], thorough=dict(defs=['-DNCALLS=5'], cores=8, budget=900, bound='every sequence of 5 calls')),
   job('cb.c', 'H_cb_sigs', 'one function and user data with 3 declarations, every argument'),
   job('cb.c', 'H_cb_nested', '4 programs with nested, self-releasing and registering callbacks, collections at 2 places'),
   job('cb.c', 'H_cb_leak', '4 ways to release'),
 ], 'assumptions': ['callback declarations the engine has no implementation for (doubles with other arguments, floats) are errors at import, which is C14']},
 'C16': {'jobs': [
   job('mem.c', 'H_mem_get', 'sizes 1..4 at every offset of 12 arbitrary bytes, every value of the byte order argument', reach=['end']),
   job('mem.c', 'H_mem_set', 'sizes 1..4 at every offset, every 32-bit value, both orders', reach=['end']),
   job('mem.c', 'H_mem_dbl', 'doubles, pointers and offsets, every value'),
   job('mem.c', 'H_mem_script', 'the same operations from scripts, two ways to compute the address', reach=['end']),
   job('mem.c', 'H_mem_dscript', 'doubles and pointer arithmetic from scripts'),
   job('mem.c', 'H_mem_index', 'bytes by subscript, every 16-bit value assigned, 6 wrong uses', reach=['byte', 'other']),
   job('mem.c', 'H_dv', 'the 12 DataView methods, 3 view offsets and 3 lengths, every 32-bit index, every value, 3 ways to give the byte order', reach=['outside', 'set', 'get'], cores=2),
   job('mem.c', 'H_dv_open', 'DataView without a length'),
   job('mem.c', 'H_mkstr', 'every range of 12 arbitrary bytes, 4 forms; the memory changed and freed after copying', reach=['end']),
   job('mem.c', 'H_mkstr_long', '11 lengths up to 20000, 3 arbitrary bytes'),
   job('mem.c', 'H_mkstr_bad', '14 wrong calls'),
   job('mem.c', 'H_mem_bad', '25 wrong calls'),
 ], 'assumptions': ['addresses below 2^48; the functions do not check addresses']},
 'C17': {'jobs': [
   job('mem.c', 'H_s2o_one', 'one member of each of 16 types, every content', reach=['end']),
   job('mem.c', 'H_s2o_two', 'every pair of 16 types, every content, directly and by s2o', reach=['end'], cores=2),
   job('mem.c', 'H_s2o_many', '128 sequences of 5 types, every content', reach=['end'], cores=2, thorough=dict(defs=['-DNS=7'], cores=8, budget=900, bound='128 sequences of 7 types, every content')),
   job('mem.c', 'H_s2o_nest', 'three levels of nested structs and pointers, every combination of NULL'),
   job('mem.c', 'H_s2o_null', 'NULL or wrong arguments'),
 ], 'assumptions': ['member names are distinct; strings of 0..8 bytes; pointers below 2^48']},
 'C05': {'jobs': [
   job('gc.c', 'H_gc_one', '26 programs, strings of arbitrary bytes and any double in them; one collection before any one instruction, full or not', defs=GCP, reach=['end'], cores=2),
   job('gc.c', 'H_gc_from', '26 programs; collections before every instruction from any one on', defs=GCP, reach=['end'], cores=2, budget=300),
   job('gc.c', 'H_gc_near', '26 programs; collections before any two instructions at a distance of 1..6', defs=GCP + ['-DNEAR=6'], reach=['end'], cores=2, budget=300, thorough=dict(defs=GCP + ['-DNEAR=40'], cores=8, budget=1500, bound='26 programs; collections before any two instructions at a distance of 1..40')),
   job('gc.c', 'H_gc_every', '26 programs; collections before every n-th instruction, n = 1..5, any phase', defs=GCP, reach=['end']),
   job('gc.c', 'H_gc_seq', 'every pair of the 26 programs in one engine, collections before every third instruction, any phase', defs=GCP, reach=['end'], cores=2, budget=300),
   job('gc.c', 'H_gc_auto', '26 programs; collections at the engine\'s thresholds, 12 fillings, small arenas', defs=GCP + ARENA, reach=['end']),
 ], 'assumptions': ['host functions own the values they keep over a call into the engine, as documented', 'collections happen between instructions (and in gc()), which is where the engine makes them']},
 'C06': {'jobs': [
   job('gc.c', 'H_own_hist', 'every history of 5 own / disown / collect / reassign operations over 3 variables, any string contents', defs=GCP, reach=['end'], thorough=dict(defs=GCP + ['-DNH=6'], cores=8, budget=900, bound='every history of 6 operations')),
   job('gc.c', 'H_gc_strings', '5 strings of lengths around 6, 128 and 300, any contents, every choice of 4 ways to hold each', defs=GCP, reach=['end']),
   job('gc.c', 'H_gc_graph', 'every graph of 4 objects with 5 links, any one root of 3 kinds, any strings', defs=GCP, reach=['end'], cores=2),
   job('gc.c', 'H_gc_reclaim', 'every graph of 4 objects with 5 links dropped', defs=GCP, reach=['end']),
   job('gc.c', 'H_gc_blocks', '8 objects over several arena blocks, every subset kept, 8 more allocated', defs=GCP + ARENA, reach=['end'], thorough=dict(defs=GCP + ARENA + ['-DNB=11'], cores=4, budget=900, bound='11 objects over several arena blocks, every subset kept, 11 more allocated')),
   job('gc.c', 'H_gc_churn', '15 loop bodies repeated 120 times, 3 fillings, any strings', defs=GCP + ARENA, reach=['end']),
 ], 'assumptions': ['long linked lists (the marking is recursive) and strings not copied by mjs_mk_string are outside the claim']},
 'C02': {'jobs': [
   job('json.c', 'H_json_raw', 'every text of 0..3 arbitrary bytes', defs=['-DNRAW=3'], reach=['valid', 'error'], thorough=dict(defs=['-DNRAW=4'], cores=8, budget=1500, bound='every text of 0..4 arbitrary bytes')),
   job('json.c', 'H_json_tmpl', 'texts of every kind of value with 2 arbitrary bytes at any place', defs=['-DHOLE=2'], reach=['valid', 'error'], cores=3, thorough=dict(defs=['-DHOLE=3'], cores=8, budget=1500, bound='texts with 3 arbitrary bytes at any place')),
   job('json.c', 'H_json_prefix', 'every prefix of the texts, one arbitrary byte', defs=['-DHOLE=1'], reach=['truncated'], cores=2),
   job('json.c', 'H_json_gram', 'every value of the grammar with up to 4 nodes, names and strings of arbitrary characters', defs=['-DBUD=4'], reach=['valid'], cores=3, thorough=dict(defs=['-DBUD=5'], cores=8, budget=1500, bound='every value with up to 5 nodes')),
   job('json.c', 'H_json_args', 'arguments which are not texts'),
 ], 'assumptions': ['texts that are not JSON may be accepted (the parser is lenient) as long as nothing outside of the text is read and no state is lost']},
 'C03': {'jobs': [
   job('json.c', 'H_sfy_val', 'every value with up to 4 nodes', defs=['-DVBUD=4'], reach=['end'], cores=2, thorough=dict(defs=['-DVBUD=5'], cores=8, budget=900, bound='every value with up to 5 nodes')),
   job('json.c', 'H_sfy_str', 'strings and names of up to 3 arbitrary bytes', defs=['-DSL=3'], reach=['end'], cores=2),
   job('json.c', 'H_sfy_num', 'integers', reach=['end']),
   job('json.c', 'H_sfy_graph', 'graphs of objects with cycles and shared parts', reach=['end'], cores=2),
   job('json.c', 'H_sfy_long', 'long texts around the sizes of the internal buffers', reach=['end'], cores=2),
 ], 'assumptions': ['integers, ASCII text']},
 'C21': {'jobs': [
   job('frz.c', 'H_walk_raw', 'every text of 0..4 arbitrary bytes', defs=['-DNRAW=4'], reach=['valid', 'truncated', 'error'], thorough=dict(defs=['-DNRAW=5'], cores=8, budget=900, bound='every text of 0..5 arbitrary bytes')),
   job('frz.c', 'H_walk_tmpl', '40 texts with an arbitrary byte at any place, and every prefix of them', reach=['valid', 'truncated', 'error'], thorough=dict(defs=['-DHOLE=2'], cores=8, budget=900, bound='40 texts with two arbitrary bytes at any place, and every prefix of them')),
   job('frz.c', 'H_walk_gram', 'every value of the grammar with up to 4 nodes, names and strings of arbitrary characters', reach=['valid'], thorough=dict(defs=['-DBUD=6'], cores=8, budget=900, bound='every value with up to 6 nodes')),
   job('frz.c', 'H_walk_long', '12 lengths of names around the size of the path buffer'),
   job('frz.c', 'H_escape', 'strings of 0..2 arbitrary bytes, 5 buffer sizes', defs=['-DNE=2'], reach=['end'], thorough=dict(defs=['-DNE=3'], cores=8, budget=900, bound='strings of 0..3 arbitrary bytes, 5 buffer sizes')),
   job('frz.c', 'H_unescape', 'texts of 0..6 arbitrary bytes, 4 buffer sizes', reach=['good', 'bad'], thorough=dict(defs=['-DNU=9'], cores=8, budget=900, bound='texts of 0..9 arbitrary bytes')),
   job('frz.c', 'H_scan', 'documents with any one-letter names and 9 kinds of value, numbers and strings of arbitrary characters, 2 places, 9 directives', reach=['int', 'str', 'elem']),
   job('frz.c', 'H_scan_bin', 'hexadecimal: 0..6 bytes, one arbitrary; base64: 0..3 arbitrary bytes or 4..6 with one arbitrary', reach=['end']),
   job('frz.c', 'H_print', '14 directives before 12 separators in 3 contexts, 6 numbers, strings of 2 arbitrary printable characters, 6 buffer sizes', reach=['end']),
   job('frz.c', 'H_print_long', 'strings of 8 lengths up to 300'),
   job('frz.c', 'H_print_arr', 'arrays of 0..3 numbers, two element sizes', reach=['end']),
   job('frz.c', 'H_pretty_gram', 'every value of the grammar with up to 4 nodes', reach=['end'], thorough=dict(defs=['-DBUD=6'], cores=8, budget=900, bound='every value with up to 6 nodes')),
   job('frz.c', 'H_pretty_tmpl', '40 texts with an arbitrary byte at any place', reach=['end']),
   job('frz.c', 'H_pretty_long', '10 lengths of names around the size of the path buffer'),
   job('frz.c', 'H_next', 'objects and arrays of 0..2 members at 3 places, any names of 0..2 letters, 9 kinds of value', reach=['end'], thorough=dict(defs=['-DNN=3'], cores=8, budget=900, bound='0..3 members')),
 ], 'assumptions': ['names without dots and brackets when looked up by path; integers; editing (json_setf) and the functions working on files are outside the claim']},
 'C19': {'jobs': [
   job('fmt.c', 'H_fmt_num', '9 integer directives, 15 values around every boundary plus any 8-bit difference, zero padding, 5 widths (written or as arguments), text around, 8 buffer sizes from 0 to more than enough', reach=['end']),
   job('fmt.c', 'H_fmt_str', '12 formats, strings of 0..4 arbitrary bytes, terminated or not, precision 1..5, 8 buffer sizes', reach=['end'], thorough=dict(defs=['-DSL=7'], cores=8, budget=900, bound='strings of 0..7 arbitrary bytes')),
   job('fmt.c', 'H_fmt_hex', 'any 32-bit value in hexadecimal, plain and padded', reach=['end']),
   job('fmt.c', 'H_fmt_ptr', 'pointers: 5 high parts, any 24 low bits', reach=['end']),
   job('fmt.c', 'H_fmt_grow', '8 string lengths from 0 to 50, 9 sizes of the buffer given', reach=['end']),
 ], 'assumptions': ['directives c d u x s p with l, z (and ll for d); precision at least 1; every other directive is outside the claim']},
 'C22': {'jobs': [
   job('num.c', 'H_num_int', '8 prefixes of up to 13 digits followed by any two digits, 12 contexts', reach=['end'], thorough=dict(defs=['-DND=3'], cores=8, budget=900, bound='8 prefixes of up to 13 digits followed by any three digits, 12 contexts')),
   job('num.c', 'H_num_hex', '8 prefixes of up to 12 hexadecimal digits followed by any two, in either case, 4 contexts', reach=['end'], cores=3),
   job('num.c', 'H_num_frac', '12 forms of fraction and exponent with any two digits, 12 contexts', reach=['end']),
   job('num.c', 'H_num_list', '63 notable literals (limits of every integer size and of doubles) in 12 contexts', reach=['end']),
   job('num.c', 'H_num_str', '15 bases up to 2^53 in magnitude, any 8-bit difference, 6 routes', reach=['end']),
   job('num.c', 'H_str_raw', 'string literals of 0..6 arbitrary bytes, both quotes', reach=['end'], thorough=dict(defs=['-DNB=8'], cores=8, budget=900, bound='string literals of 0..8 arbitrary bytes')),
   job('num.c', 'H_str_esc', 'every escape sequence with arbitrary digits between 6 kinds of text, 3 contexts', reach=['end']),
 ], 'assumptions': ['escapes \\\\b \\\\t \\\\n \\\\v \\\\f \\\\r \\\\\\\\ \\\\" \\\\\' \\\\xHH \\\\u00HH; strings are byte arrays in mJS, \\\\u0100 and above are outside the claim', 'strtod itself is modelled (exact up to 15 digits, otherwise the host function)']},
 'C20': {'jobs': [
   job('err.c', 'H_err_line', '17 kinds of text before the failing statement (comments and strings of arbitrary bytes, newlines included; long and nested blocks), twice, 10 contexts of up to 4 active calls', reach=['end'], cores=2, thorough=dict(defs=['-DSUB=0'], cores=8, budget=900, bound='17 kinds of text before the failing statement, twice, 10 contexts, 14 kinds of failing statement each')),
   job('err.c', 'H_err_kind', '14 kinds of failing statement in 10 contexts', reach=['end']),
   job('err.c', 'H_err_multi', 'two scripts with 17 kinds of text at two places, nothing, a failing script or a syntax error between them', reach=['end']),
   job('err.c', 'H_err_api', 'host functions asking for the lines of the active calls, 17 kinds of text at two places, 3 depths', reach=['end']),
   job('err.c', 'H_err_syn', '12 syntax errors at 3 places after 17 kinds of text, twice, and 0..2 newlines before the token', reach=['end'], cores=2),
   job('load.c', 'H_load_trace', '8 combinations of files loaded, functions they define and callbacks run by the host, 6 kinds of text before each', reach=['end']),
   job('err.c', 'H_err_byte', 'any byte which begins no token, and 12 words which are not implemented, at 4 places after 17 kinds of text', reach=['end']),
 ], 'assumptions': ['statements on one line, ended by a semicolon on it; headers of for loops on one line']},
 'C23': {'jobs': [
   job('load.c', 'H_load_same', '15 texts with any digit, loaded at 6 places', reach=['end']),
   job('load.c', 'H_load_ns', '6 uses of namespace objects with any digit, loaded before or not', reach=['end']),
   job('load.c', 'H_load_hist', 'every history of 3 steps: two files of 4 kinds each (fine, failing at run time, malformed), loaded in 4 ways, removed, replaced, made to fail', reach=['end'], thorough=dict(defs=['-DSTEPS=4'], cores=8, budget=900, bound='every history of 4 steps')),
   job('load.c', 'H_load_raw', 'files of 0..3 arbitrary bytes', reach=['end'], cores=3, thorough=dict(defs=['-DNR=4'], cores=8, budget=900, bound='files of 0..4 arbitrary bytes')),
 ], 'assumptions': ['circular loads are outside the claim (unlimited recursion)', 'the C library of files is modelled']},
 'C24': {'jobs': [
   job('jsc.c', 'H_jsc_one', '6 texts with any digit, 6 kinds of existing precompiled file (absent, 0..4 arbitrary bytes, up to date, any byte replaced anywhere, a byte more or less), read-only file or directory, up to 2 faults at any file operations', defs=['-DMJS_VS_JSC', '-DNFAULT=2'], reach=['end'], cores=4, thorough=dict(defs=['-DMJS_VS_JSC', '-DNFAULT=4'], cores=8, budget=900, bound='same with up to 4 faults')),
   job('jsc.c', 'H_jsc_hist', 'every history of 4 steps (change the file, execute, load, remove the precompiled file, toggle a read-only directory) with up to 1 fault; functions of the first version are used at the end', defs=['-DMJS_VS_JSC', '-DNFAULT=2', '-DSTEPS=4'], reach=['end'], cores=2, thorough=dict(defs=['-DMJS_VS_JSC', '-DNFAULT=3', '-DSTEPS=5'], cores=8, budget=900, bound='every history of 5 steps with up to 2 faults')),
   job('jsc.c', 'H_jsc_bad', '3 syntax errors and a missing file, existing precompiled file of 0..4 arbitrary bytes, up to 1 fault', defs=['-DMJS_VS_JSC'], reach=['end']),
   job('jsc.c', 'H_jsc_name', 'names of 1..5 arbitrary bytes', defs=['-DMJS_VS_JSC'], reach=['end'], thorough=dict(defs=['-DMJS_VS_JSC', '-DNN=9'], bound='names of 1..9 arbitrary bytes')),
 ], 'assumptions': ['the file system is modelled in harness/jsc.c', 'nobody else changes the files while they are executed', 'sources compiled with CS_MMAP, as in the Makefile of the project']},
 'C25': {'jobs': [
   job('lib.c', 'H_lib_math', '12 functions, called in 3 ways, any doubles as arguments and result; wrong number of arguments', reach=['end'], steps=3000000),
   job('lib.c', 'H_lib_random', 'any result of rand()', reach=['end'], steps=3000000),
   job('lib.c', 'H_lib_read', 'files of 0..22 arbitrary bytes or none, a fault at any operation, read in 3 ways', reach=['end'], steps=3000000, thorough=dict(defs=['-DNC=45'], bound='files of 0..45 arbitrary bytes or none, a fault at any operation')),
   job('lib.c', 'H_lib_write', 'strings of 0..22 arbitrary bytes, old content of 0..2 bytes, 4 modes, a file that cannot be opened, a short, failed or forever failing write at any place', reach=['end'], steps=3000000, thorough=dict(defs=['-DNC=45'], bound='strings of 0..45 arbitrary bytes')),
   job('lib.c', 'H_lib_file', 'strings of 0..22 arbitrary bytes written, appended and read back; remove and rename with any result', reach=['end'], steps=3000000),
 ], 'assumptions': ['the C functions are recording stand-ins supplied by the resolver', 'File.read of a file that cannot be opened may give null or an empty string']},
 'C26': {'jobs': [
   job('prt.c', 'H_prt_buf', 'a value of 12 kinds (strings of 0..4 arbitrary bytes, integers of 10 bases with any 8-bit difference), buffers of every size up to 3 more than the text', defs=['-DMJS_VS_OUT'], reach=['end'], thorough=dict(defs=['-DMJS_VS_OUT', '-DNB=6'], cores=4, budget=900, bound='strings of 0..6 arbitrary bytes')),
   job('prt.c', 'H_prt_file', 'one or two values of 12 kinds printed to a file', defs=['-DMJS_VS_OUT', '-DNB=3'], reach=['end']),
   job('prt.c', 'H_prt_print', '0..3 arguments of 4 kinds each, called in 3 ways', defs=['-DMJS_VS_OUT', '-DNB=1'], reach=['end'], cores=3),
   job('prt.c', 'H_prt_err', 'die() and host errors of 8 codes with texts of 0..4 arbitrary bytes, with and without prefix, printed with and without stack trace', defs=['-DMJS_VS_OUT'], reach=['end']),
 ], 'assumptions': ['functions and pointers are printed as <function@N> and <foreign_ptr@HEX>, other fractions than those exactly representable in 6 decimals are outside', 'what is written to files is captured at the stdio calls']},
 'C27': {'jobs': [
   job('cli.c', 'H_cli', 'every command line of up to 3 items out of 14 kinds (fine, failing, malformed or missing scripts and files, options, unknown flags), values of any two digits', defs=['-DMJS_VS_OUT', '-DMJS_MAIN', '-DITEMS=3'], reach=['end', 'value', 'error', 'usage'], cores=4, thorough=dict(defs=['-DMJS_VS_OUT', '-DMJS_MAIN', '-DITEMS=4'], cores=8, budget=900, bound='every command line of up to 4 items')),
 ], 'assumptions': ['exit status after a failing script, the text of the help and the format of stack traces are not judged', 'debug levels up to 1']},
 'C28': {'jobs': [
   job('util.c', 'H_u_strnstr', 'texts of 0..4 arbitrary bytes, unterminated, needles of 0..2 bytes', defs=['-DMJS_VS_OUT'], reach=['end']),
   job('util.c', 'H_u_strnlen', 'texts of 0..4 arbitrary bytes, terminated or not', defs=['-DMJS_VS_OUT'], reach=['end']),
   job('util.c', 'H_u_hex', '0..2 arbitrary bytes', defs=['-DMJS_VS_OUT'], reach=['end']),
   job('util.c', 'H_u_case', 'pairs of strings of 0..3 arbitrary bytes, every limit', defs=['-DMJS_VS_OUT'], reach=['end'], thorough=dict(defs=['-DMJS_VS_OUT', '-DUL=4'], cores=4, budget=900, bound='pairs of strings of 0..4 arbitrary bytes')),
   job('util.c', 'H_u_list', 'lists of 0..5 arbitrary bytes', defs=['-DMJS_VS_OUT'], reach=['end', 'several'], thorough=dict(defs=['-DMJS_VS_OUT', '-DUL=5'], cores=4, budget=900, bound='lists of 0..7 arbitrary bytes')),
   job('util.c', 'H_u_glob', 'patterns of 0..3 arbitrary bytes, strings of 0..3 arbitrary bytes', defs=['-DMJS_VS_OUT'], reach=['end', 'match'], cores=3, thorough=dict(defs=['-DMJS_VS_OUT', '-DUL=4'], cores=8, budget=1800, bound='patterns and strings of 0..4 arbitrary bytes')),
   job('util.c', 'H_u_globdoc', 'the documented examples', defs=['-DMJS_VS_OUT'], reach=['end']),
   job('util.c', 'H_u_log', '4 file names, 7 line numbers, 5 levels, 6 levels set, 8 filters, two files', defs=['-DMJS_VS_OUT'], reach=['printed', 'silent']),
 ], 'assumptions': ['the undocumented $ and *** of patterns are outside; so are line numbers above 99999']},
}
