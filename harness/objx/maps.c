// The pages the JIT maps: while switched on, out of a static arena, with their protections on record.
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <errno.h>
#define PAGE 4096
#define PAGES 48
static char arena[PAGES * PAGE] __attribute__((aligned(PAGE)));
static int prot[PAGES];
static unsigned next_page, on, bad, held;
void maps_on(uint64_t x) { on = x; }
char *maps_arena(void) { return arena; }
// what the pages of these bytes are protected with; 99 if they are not alike or not mapped
uint64_t maps_prot(const char *p, uint64_t n) {
  uint64_t a = (uint64_t)(p - arena), r = 99;
  for (uint64_t i = a / PAGE; i <= (a + n - 1) / PAGE; i++) {
    if (i >= PAGES || i >= next_page) return 99;
    if (r == 99) r = prot[i]; else if (r != (uint64_t)prot[i]) return 99;
  }
  return r;
}
uint64_t maps_bad(void) { return bad; }
uint64_t maps_held(void) { return held; }
// that they lie in the arena and outside every other range is the caller's to say
uint64_t maps_within(const char *p, uint64_t n) { uint64_t a = (uint64_t)(p - arena); return a < sizeof arena && a + n <= (uint64_t)next_page * PAGE; }
extern long syscall(long, ...);
#define SYS(...) syscall(__VA_ARGS__)
void *mmap(void *a, size_t n, int p, int f, int fd, long off) {
  if (!on) return (void *)SYS(9, a, n, p, f, fd, off);
  unsigned k = n / PAGE;
  if (n % PAGE || !k || next_page + k + 1 > PAGES) { bad = 1; errno = 12; return (void *)-1; }
  char *r = arena + (size_t)next_page * PAGE;
  for (unsigned i = 0; i < k; i++) prot[next_page + i] = p;
  prot[next_page + k] = 77; // a page of nobody's between any two
  next_page += k + 1;
  held += k;
  return r;
}
int mprotect(void *a, size_t n, int p) {
  if (!on) return SYS(10, a, n, p);
  size_t o = (char *)a - arena;
  if (o % PAGE || o / PAGE + n / PAGE > next_page || n % PAGE) { bad = 1; errno = 22; return -1; }
  for (unsigned i = 0; i < n / PAGE; i++) { if (prot[o / PAGE + i] == 77) bad = 1; prot[o / PAGE + i] = p; }
  return 0;
}
int munmap(void *a, size_t n) {
  if (!on) return SYS(11, a, n);
  size_t o = (char *)a - arena;
  if (o % PAGE || n % PAGE || o / PAGE + n / PAGE > next_page) { bad = 1; return -1; }
  for (unsigned i = 0; i < n / PAGE; i++) { if (prot[o / PAGE + i] == 77) bad = 1; prot[o / PAGE + i] = 77; held--; }
  return 0;
}
