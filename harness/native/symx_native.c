/* Native side of the harness interface: values come from a replay file ("width value" per line). */
#include "symx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/types.h>
#include <signal.h>
static FILE *in; static int panic_ok;
static unsigned __int128 next_val(unsigned want) {
  if (!in) { const char *f = getenv("SYMX_REPLAY"); in = f ? fopen(f, "r") : NULL; if (!in) { fprintf(stderr, "SYMX: no replay file\n"); _exit(90); } }
  unsigned w; char buf[64];
  if (fscanf(in, "%u %63s", &w, buf) != 2) { fprintf(stderr, "SYMX: replay file exhausted\n"); _exit(91); }
  if (w != want) { fprintf(stderr, "SYMX: replay width mismatch (%u, wanted %u)\n", w, want); _exit(92); }
  unsigned __int128 v = 0; for (char *p = buf; *p; p++) v = v * 10 + (*p - '0');
  return v;
}
static void on_abort(int s) { (void)s; if (panic_ok) { fprintf(stderr, "SYMX: expected panic\n"); _exit(0); } fprintf(stderr, "SYMX: aborted\n"); _exit(99); }
__attribute__((constructor)) static void init(void) { if (getenv("SYMX_REPLAY")) signal(SIGABRT, on_abort); }
uint64_t symx_int(uint32_t bits) { return (uint64_t)next_val(bits); }
uint64_t symx_u64(void) { return (uint64_t)next_val(64); }
int64_t symx_i64(void) { return (int64_t)next_val(64); }
double symx_f64(void) { uint64_t x = (uint64_t)next_val(64); double d; memcpy(&d, &x, 8); return d; }
float symx_f32(void) { uint32_t x = (uint32_t)next_val(32); float d; memcpy(&d, &x, 4); return d; }
int32_t symx_bool(void) { return (int32_t)next_val(1); }
void symx_bytes(void *p, size_t n) { for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)next_val(8); }
uint32_t symx_choose(uint32_t n) { (void)n; return (uint32_t)next_val(32); }
void symx_assume(int32_t c) { if (!c) { fprintf(stderr, "SYMX: assumption violated in replay\n"); _exit(93); } }
void symx_assert(int32_t c, const char *msg) { if (!c) { fprintf(stderr, "SYMX: assertion failed: %s\n", msg); _exit(98); } }
void symx_fail(const char *msg) { fprintf(stderr, "SYMX: assertion failed: %s\n", msg); _exit(98); }
void symx_reach(uint64_t id) { (void)id; }
void symx_observe(uint64_t id, uint64_t v) { printf("OBS %llu %llu\n", (unsigned long long)id, (unsigned long long)v); fflush(stdout); }
uint64_t symx_concretize(uint64_t v) { return v; }
void symx_panic_ok(uint32_t on) { panic_ok = on; }
int32_t symx_is_symbolic(void) { return 0; }
void symx_kill(void) { _exit(0); }
void symx_print(const char *p, uint64_t n) { fwrite(p, 1, n, stderr); fputc('\n', stderr); }
void symx_print_val(uint64_t v) { fprintf(stderr, "[val] %llx\n", (unsigned long long)v); }

uint64_t symx_arg(uint32_t i) { const char *e = getenv("SYMX_ARGS"); uint64_t v = 0; if (!e) return 0; for (;; i--) { v = strtoull(e, (char **)&e, 10); if (i == 0) return v; } }
void symx_require(uint8_t c) { symx_assume(c & 1); }
void symx_check(uint8_t c, uint32_t id) { if (!(c & 1)) { fprintf(stderr, "SYMX: assertion failed: check %u\n", id); _exit(98); } }
/* the same "random" bytes as the engine gives, so that a replay sees the same hash seeds */
ssize_t getrandom(void *p, size_t n, unsigned flags) { (void)flags; for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)(i * 37 + 11); return (ssize_t)n; }

/* cooperative threads */
#include <ucontext.h>
static ucontext_t *threads[64]; static unsigned nthreads = 1, curthread;
uint32_t symx_spawn(void (*f)(void *), void *arg) {
  ucontext_t *u = calloc(1, sizeof *u); getcontext(u); u->uc_stack.ss_size = 1 << 20; u->uc_stack.ss_sp = malloc(1 << 20);
  makecontext(u, (void (*)(void))f, 1, arg); threads[nthreads] = u; return nthreads++;
}
void symx_switch(uint32_t k) {
  if (k == curthread) return;
  if (!threads[curthread]) threads[curthread] = calloc(1, sizeof(ucontext_t));
  unsigned old = curthread; curthread = k; swapcontext(threads[old], threads[k]);
}
