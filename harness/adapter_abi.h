/* The ABI between the driver and the builds of the code under test. */
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
/* An operation on values: `in` holds the operands' coefficients one after the
   other, `out` receives the result's.  `sig` spells the types, e.g. "PL>X":
   P plane (e0,e1,e2,e3)      X point (e123,e032,e013,e021)   D direction (as X)
   L line (e01,e02,e03,e23,e31,e12)   I ideal line (e01,e02,e03)
   B branch (e23,e31,e12)     R rotor (1,e23,e31,e12)         T translator (e01,e02,e03)
   M motor (1,e23,e31,e12,e01,e02,e03,e0123)   U dual (1,e0123)
   s scalar float             k int carried in a float        digits: that many floats */
typedef void (*kv_fn)(const float* in, float* out);
typedef struct { const char* name; const char* sig; kv_fn fn; } kv_op;
/* A batch: `in` and `out` are arrays of `count` library objects. */
typedef void (*kv_batch_fn)(const float* m, void* in, void* out, size_t count);
typedef struct { const char* name; char motion; char elem; size_t elem_bytes; kv_batch_fn fn; } kv_batch;
typedef struct
{
    const char* config;
    const kv_op* ops;
    size_t n_ops;
    const kv_batch* batches;
    size_t n_batches;
} kv_table;
const kv_table* kv_get_table(void);
#ifdef __cplusplus
}
#endif
