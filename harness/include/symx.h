/* Harness interface of the symbolic executor. */
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t symx_int(uint32_t bits);             /* fresh symbolic value, zero extended */
uint64_t symx_u64(void);
void symx_bytes(void *p, size_t n);           /* n fresh symbolic bytes */
uint32_t symx_choose(uint32_t n);             /* 0..n-1, one path each */
void symx_assume(int32_t c);
void symx_assert(int32_t c, const char *msg);
void symx_reach(uint64_t id);                 /* reachability witness */
void symx_observe(uint64_t id, uint64_t v);   /* compared between the engine and the native replay */
uint64_t symx_concretize(uint64_t v);
void symx_panic_ok(uint32_t on);
#ifdef __cplusplus
}
#endif
