/* The operations under test, compiled so that every access to memory is a scheduling point. */
#include <stdbool.h>
#include <stdint.h>
#include <string.h>
#include "libmy/atomic.h"
#include "libmy/atomic_64.h"
#include "libmy/atomic_ptr.h"
#include "libmy/threadnum.h"
atomic_t A32; atomic64_t A64; atomic_ptr_t AP;
#define IS(s) (!strcmp(op, s))
#define GEN(P, V) \
 if (IS("add")) { P##_add(i, V); return 0; } if (IS("sub")) { P##_sub(i, V); return 0; } \
 if (IS("inc")) { P##_inc(V); return 0; } if (IS("dec")) { P##_dec(V); return 0; } \
 if (IS("zero")) return P##_zero(V); if (IS("read")) return P##_read(V); \
 if (IS("subt")) return !!P##_sub_and_test(i, V); if (IS("dect")) return !!P##_dec_and_test(V); \
 if (IS("inct")) return !!P##_inc_and_test(V); if (IS("addn")) return !!P##_add_negative(i, V);
int64_t do32(const char *op, int i) { GEN(atomic, &A32) return 99999; }
int64_t do64(const char *op, int i) { GEN(atomic64, &A64) return 99999; }
int64_t dop(const char *op, int i) {
	if (IS("pset")) return !!atomic_ptr_set(&AP, (void *) (intptr_t) i);
	if (IS("read")) return (intptr_t) atomic_ptr_get(&AP);
	return 99999;
}
int64_t dot(const char *op, int i) {
	if (IS("reg")) { my_threadnum_register(); return my_threadnum(); }
	if (IS("mine")) return my_threadnum();
	return 99999;
}
void set32(int v) { atomic_set(&A32, v); }
void set64(int64_t v) { atomic64_set(&A64, v); }
void setp(int v) { AP.ptr = (void *) (intptr_t) v; }
int64_t get32(void) { return atomic_read(&A32); }
int64_t get64(void) { return atomic64_read(&A64); }
