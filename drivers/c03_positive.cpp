// Built-in examples for C03: bad* must be flagged, good* must not.
#include <cstdlib>
#include "include/isl/ctx.h"
#include "include/isl/map.h"
#include "include/isl/mat.h"
#include "include/isl/space.h"
#include "include/isl/val.h"
int badLeakExit(isl_ctx* ctx, int x) { isl_mat* m = isl_mat_alloc(ctx, 2, 2); if (x) return 1; isl_mat_free(m); return 0; }
int badDouble(__isl_take isl_mat* m) { isl_mat_free(m); isl_mat_free(m); return 0; }
int badUse(__isl_take isl_mat* m) { isl_mat_free(m); return isl_mat_rows(m); }
void badBorrowed(__isl_keep isl_mat* m) { isl_mat_free(m); }
void badLoop(isl_ctx* ctx) { isl_val* v = nullptr; for (int i = 0; i < 3; ++i) v = isl_val_int_from_si(ctx, i); isl_val_free(v); }
int badTemp(isl_ctx* ctx) { return isl_mat_rows(isl_mat_alloc(ctx, 1, 1)); }
void badCtxOrder() { isl_ctx* c = isl_ctx_alloc(); isl_val* v = isl_val_int_from_si(c, 1); isl_ctx_free(c); isl_val_free(v); }
void badCtxLeak(int x) { isl_ctx* c = isl_ctx_alloc(); if (x) return; isl_ctx_free(c); }
static int consume(__isl_take isl_basic_map* b) { isl_ctx* c = isl_basic_map_get_ctx(b); isl_basic_map_free(b); isl_ctx_free(c); return 0; }
int badAfterConsume(const char* t) { isl_ctx* c = isl_ctx_alloc(); isl_basic_map* b = isl_basic_map_read_from_str(c, t); int r = consume(b); isl_ctx_free(c); return r; }
int badSomeCtx(__isl_take isl_basic_map* b) { isl_ctx* c = isl_basic_map_get_ctx(b); isl_basic_map_free(b); if (isl_ctx_last_error(c)) return 1; isl_ctx_free(c); return 0; }
void badString(__isl_keep isl_map* m) { char* s = isl_map_to_str(m); (void)s; }
int good1(const char* t) { isl_ctx* c = isl_ctx_alloc(); isl_basic_map* b = isl_basic_map_read_from_str(c, t); if (!b) { isl_ctx_free(c); return 1; } return consume(b); }
isl_mat* good2(isl_ctx* ctx, int n) { isl_mat* m = isl_mat_alloc(ctx, n, n); for (int i = 0; i < n; ++i) m = isl_mat_set_element_val(m, i, i, isl_val_int_from_si(ctx, 1)); return m; }
static void drop(isl_mat* a) { isl_mat_free(a); }
void good3(isl_ctx* ctx) { isl_mat* m = isl_mat_alloc(ctx, 1, 1); drop(m); }
static void look(isl_mat* a) { isl_mat_dump(a); }
void good4(isl_ctx* ctx) { isl_mat* m = isl_mat_alloc(ctx, 1, 1); look(m); drop(m); }
void good5(__isl_keep isl_map* m) { char* s = isl_map_to_str(m); free(s); }
void good6(__isl_keep isl_map* m) { isl_map* d = isl_map_copy(m); isl_map* e = d; isl_map_free(e); }
