/* Common harness prelude: the repository's headers and the vs_ API. The sources themselves are a separate translation unit
 * (all.c, generated from /repo/src/mjs_sources.mk at check time), so that names used here cannot clash with theirs. */
#include "common/platform.h"
#include "common/cs_varint.h"
#include "common/mbuf.h"
#include "common/mg_str.h"
#include "common/str_util.h"
#include "common/cs_file.h"
#include "frozen/frozen.h"
#include "ffi/ffi.h"
#include "mjs_core.h"
#include "mjs_array.h"
#include "mjs_builtin.h"
#include "mjs_conversion.h"
#include "mjs_dataview.h"
#include "mjs_exec.h"
#include "mjs_ffi.h"
#include "mjs_gc.h"
#include "mjs_internal.h"
#include "mjs_json.h"
#include "mjs_object.h"
#include "mjs_parser.h"
#include "mjs_primitive.h"
#include "mjs_string.h"
#include "mjs_util.h"
#include "vs.h"
#define CHECK(c, what) vs_check((uint64_t) (!!(c)), what)
#define ASSUME(c) vs_assume((uint64_t) (!!(c)))
