/* @override fopen fread fwrite fclose fflush feof ferror opendir closedir readlink remove mkdir rmdir llrt_readdir llrt_current_errno llrt_spawn_process llrt_execute_process llrt_wait */
/* The world outside the program: one file, one directory stream, a small tree of files, one process; every call fails when
   the solver likes. The standard library and the runtime call these in place of libc. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <dlfcn.h>
#include "symx.h"
typedef uint64_t u64;
typedef struct { char *ptr; u64 len; } rt_string;
void *GC_malloc(size_t n);

static int cmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a != *b; }
#define strcmp cmp
enum { CAP = 9000 };
static uint8_t data[CAP];                                  /* the file */
static u64 len, pos, fail_at, eof, ferr, is_open, closes, close_fails, open_fails, flushes, flush_fails;
static uint8_t out[CAP]; static u64 outn, out_cap;         /* what was written, and how much goes through */
static int err_no;
static char want_name[16], want_mode[4];
static uint8_t handle_obj[8], out_obj[8], dir_obj[8 * 16];
#define H ((void *)handle_obj)

/* ---- error codes */
static const int codes[] = {EPERM, ENOENT, EINTR, EACCES, EEXIST, EINVAL, EPIPE, EADDRINUSE, EADDRNOTAVAIL, ECONNABORTED, ECONNRESET, ENOTCONN, ETIMEDOUT, ECONNREFUSED};
/* positions among the variants of IoError */
static const u64 kinds[] = {2, 1, 14, 2, 10, 11, 9, 7, 8, 5, 4, 6, 13, 3};
u64 io_kind(u64 e) { for (int i = 0; i < 14; i++) if ((int)e == codes[i]) return kinds[i]; return 16; }
u64 io_any_err(void) { err_no = (int)symx_int(8); symx_assume(err_no > 0 && err_no < 134); return err_no; }
u64 io_err(void) { return (uint32_t)err_no; }
int32_t h_llrt_current_errno(void) { return err_no; }

/* ---- the file */
static u64 wrote_to;
void io_file(u64 n, u64 fail) { len = n; pos = 0; fail_at = fail; eof = ferr = closes = flushes = 0; is_open = 0; outn = 0; out_cap = CAP; wrote_to = 0; close_fails = open_fails = flush_fails = 0; strcpy(want_name, "f"); strcpy(want_mode, "r"); }
void io_mode_w(void) { strcpy(want_mode, "w"); }
void io_byte(u64 i, u64 x) { data[i] = x; }
u64 io_at(u64 i) { return data[i]; }
u64 io_pos(void) { return pos; }
u64 io_len(void) { return len; }
void io_out_cap(u64 n) { out_cap = n; }
u64 io_out_len(void) { return outn; }
u64 io_out_at(u64 i) { return out[i]; }
void io_close_fails(u64 x) { close_fails = x; }
void io_open_fails(u64 x) { open_fails = x; }
void io_flush_fails(u64 x) { flush_fails = x; }
u64 io_closes(void) { return closes; }
u64 io_flushes(void) { return flushes; }
u64 io_is_open(void) { return is_open; }
u64 io_eof(void) { return eof; }
u64 io_ferr(void) { return ferr; }
void io_force_open(void) { is_open = 1; }
void *io_handle(void) { return H; }
#define REAL(ret, name, args, call) if (!symx_is_symbolic()) { ret (*f) args = (ret (*) args)dlsym(RTLD_NEXT, name); return f call; }
void *fopen(const char *n, const char *m) {
  if (!symx_is_symbolic() && (want_name[0] == 0 || (getenv("SYMX_REPLAY") && !strcmp(n, getenv("SYMX_REPLAY"))))) { REAL(void *, "fopen", (const char *, const char *), (n, m)) }
  symx_assert(!strcmp(n, want_name) && !strcmp(m, want_mode), "fopen: the name and the mode given");
  if (open_fails) return 0;
  symx_assert(!is_open, "fopen: once"); is_open = 1;
  return H;
}
static void usable(void *h) { symx_assert(h == H && is_open, "a stream is used between its opening and its closing only"); }
size_t fread(void *p, size_t sz, size_t n, void *h) {
  if (h != H) { REAL(size_t, "fread", (void *, size_t, size_t, void *), (p, sz, n, h)) }
  usable(h); symx_assert(sz == 1 || n == 1, "fread: bytes"); n *= sz;
  u64 k = n, stop = 0;
  if (fail_at - pos < k) { k = fail_at - pos; stop = 1; }
  if (len - pos < k) { k = len - pos; stop = 2; }
  for (u64 i = 0; i < k; i++) ((uint8_t *)p)[i] = data[pos + i];
  pos += k;
  if (stop == 1) { ferr = 1; fail_at = ~0ull; }
  if (stop == 2) eof = 1;
  return k;
}
u64 io_wrote_to(void) { return wrote_to; }
size_t fwrite(const void *p, size_t sz, size_t n, void *h) {
  if (!symx_is_symbolic() && want_name[0] == 0) { REAL(size_t, "fwrite", (const void *, size_t, size_t, void *), (p, sz, n, h)) }
  if (want_name[0] == 'f') usable(h); else { symx_assert(h == out_obj || h == out_obj + 4, "the standard streams"); wrote_to |= h == out_obj ? 1 : 2; }
  symx_assert(sz == 1 || n == 1, "fwrite: bytes"); n *= sz;
  u64 k = n; if (out_cap - outn < k) { k = out_cap - outn; ferr = 1; }
  symx_assert(outn + k <= CAP, "fits");
  for (u64 i = 0; i < k; i++) out[outn + i] = ((const uint8_t *)p)[i];
  outn += k;
  return k;
}
int fclose(void *h) { if (h != H) { REAL(int, "fclose", (void *), (h)) } usable(h); is_open = 0; closes++; return close_fails ? -1 : 0; }
int fflush(void *h) { if (h != H) { REAL(int, "fflush", (void *), (h)) } usable(h); flushes++; return flush_fails ? -1 : 0; }
int feof(void *h) { if (h != H) { REAL(int, "feof", (void *), (h)) } usable(h); return eof ? 16 : 0; }
int ferror(void *h) { if (h != H) { REAL(int, "ferror", (void *), (h)) } usable(h); return ferr ? 32 : 0; }
/* print!: every stream */
extern void *stdout, *stderr; static void *so, *se;
void io_any_stream(void) { want_name[0] = '*'; want_name[1] = 0; so = stdout; se = stderr; stdout = out_obj; stderr = out_obj + 4; }
void io_real(void) { want_name[0] = 0; stdout = so; stderr = se; }

/* ---- a reader that hands over what it has in pieces of any size */
u64 rd_max;
void rd_limit(u64 n) { rd_max = n; }
/* answers how many bytes, or ~0 for a failure */
u64 rd_read(uint8_t *p, u64 n) {
  u64 left = len - pos; if (left > n) left = n; if (left > rd_max) left = rd_max;
  if (fail_at == pos) { fail_at = ~0ull; return ~0ull; }
  if (left == 0) return 0;
  u64 k = 1 + symx_concretize(symx_choose(left));
  if (fail_at > pos && fail_at - pos < k) k = fail_at - pos;
  for (u64 i = 0; i < k; i++) p[i] = data[pos + i];
  pos += k;
  return k;
}

/* ---- a tree: node 0 is the directory outside ("o"), node 1 the root ("r"); node i is named by the digit i below its parent */
enum { NODES = 8, GONE = 0, FILE_ = 1, DIR_ = 2, LINK = 3 };
static u64 tk[NODES], tp[NODES], nodes, stuck, no_dir, open_dirs, made, mkdir_ok, dir_live[16], dir_at[16], dir_node[16], dirs; static char dir_list[16][NODES];
static u64 flat; static char flat_name[8][6]; static u64 flat_n;     /* or a flat directory */
static rt_string str(const char *s) { rt_string r; r.len = strlen(s); r.ptr = GC_malloc(r.len + 1); memcpy(r.ptr, s, r.len); return r; }
void t_new(u64 n) { nodes = n; stuck = open_dirs = dirs = 0; no_dir = NODES; tk[0] = DIR_; tk[1] = DIR_; flat = 0; want_name[0] = 'f'; }
void t_node(u64 i, u64 kind, u64 parent) { tk[i] = kind; tp[i] = parent; }
void t_stuck(u64 i) { stuck = i; }
void t_no_dir(u64 i) { no_dir = i; }
u64 t_kind(u64 i) { return tk[i]; }
u64 t_open_dirs(void) { return open_dirs; }
/* the node a path names, not following a link at its end; NODES if there is none */
static u64 follow(u64 i) { return tk[i] == LINK ? 0 : i; }
static u64 resolve(const char *p) {
  u64 i;
  if (p[0] == 'r') i = 1; else if (p[0] == 'o') i = 0; else { symx_assert(0, "a path below the given one"); return NODES; }
  for (p++; *p;) {
    if (*p != '/') { symx_assert(0, "a path below the given one"); return NODES; }
    p++;
    i = follow(i);
    u64 c = (u64)(*p - '0'); p++;
    if (c < 2 || c >= nodes || tk[c] == GONE || tp[c] != i) return NODES;
    i = c;
  }
  return tk[i] == GONE ? NODES : i;
}
static u64 children(u64 i) { u64 n = 0; for (u64 c = 2; c < nodes; c++) n += tk[c] != GONE && tp[c] == i; return n; }
static u64 inside(u64 i) { for (; i >= 2; i = tp[i]); return i == 1; }
int remove(const char *path) {
  u64 i = resolve(path);
  if (i == NODES) { err_no = ENOENT; return -1; }
  symx_assert(inside(i), "nothing outside the tree is removed");
  if (i == stuck) { err_no = EACCES; return -1; }
  if (tk[i] == DIR_ && children(i)) { err_no = ENOTEMPTY; return -1; }
  tk[i] = GONE;
  return 0;
}
int64_t readlink(const char *path, char *buf, size_t n) { u64 i = resolve(path); if (i < NODES && tk[i] == LINK) { if (n) buf[0] = 'o'; return n ? 1 : 0; } err_no = i == NODES ? ENOENT : EINVAL; return -1; }
void *opendir(const char *path) {
  if (flat) { symx_assert(!strcmp(path, "d"), "opendir: the name given"); if (open_fails) return 0; dir_live[0] = 1; dir_at[0] = 0; open_dirs++; return dir_obj; }
  u64 i = resolve(path);
  if (i == NODES) { err_no = ENOENT; return 0; }
  i = follow(i);
  if (tk[i] != DIR_) { err_no = ENOTDIR; return 0; }
  if (i == no_dir) { err_no = EACCES; return 0; }
  u64 d = dirs++, n = 0;
  symx_assert(d < 16, "few directories");
  dir_live[d] = 1; dir_at[d] = 0; dir_node[d] = i; open_dirs++;
  for (u64 c = 2; c < nodes; c++) if (tk[c] != GONE && tp[c] == i) dir_list[d][n++] = '0' + c;
  dir_list[d][n] = 0;
  return dir_obj + 8 * d;
}
rt_string h_llrt_readdir(void *h) {
  u64 d = ((uint8_t *)h - dir_obj) / 8;
  symx_assert(d < 16 && dir_live[d], "a directory is read between its opening and its closing only");
  u64 k = dir_at[d]++;
  if (flat) { if (k < flat_n) return str(flat_name[k]); }
  else {
    if (k == 0) return str(".");
    if (k == 1) return str("..");
    char c[2] = {dir_list[d][k - 2], 0};
    if (c[0]) return str(c);
    dir_at[d]--;
  }
  rt_string none = {0, 0};
  return none;
}
int closedir(void *h) {
  u64 d = ((uint8_t *)h - dir_obj) / 8;
  symx_assert(d < 16 && dir_live[d], "a directory is closed once");
  dir_live[d] = 0; open_dirs--; closes++;
  return close_fails ? -1 : 0;
}
void d_flat(void) { flat = 1; flat_n = 0; }
/* entry of kind k */
void d_entry(u64 k) { static const char names[6][4] = {".", "..", "a", ".a", "...", "b.c"}; memcpy(flat_name[flat_n++], names[k], 4); }
u64 d_is(u64 k, rt_string *s, u64 n) { return n == strlen(flat_name[k]) && !memcmp(s->ptr, flat_name[k], n); }
u64 d_name_at(u64 k, u64 i) { return (uint8_t)flat_name[k][i]; }
u64 d_name_len(u64 k) { return strlen(flat_name[k]); }
void d_mk(u64 ok) { mkdir_ok = ok; made = 0; }
u64 d_made(void) { return made; }
int mkdir(const char *p, uint32_t m) { symx_assert(!strcmp(p, "d") && m == 0777, "mkdir: the name, open to the umask"); made |= 1; return mkdir_ok ? 0 : -1; }
int rmdir(const char *p) { symx_assert(!strcmp(p, "d"), "rmdir: the name"); made |= 2; return mkdir_ok ? 0 : -1; }

/* ---- a process */
typedef struct { int32_t err, pid; void *cin, *cout, *cerr; } rt_process;
static char p_arg[6][4]; static u64 p_n, p_ok, p_calls; static uint32_t p_pid; static int p_status;
void p_new(u64 pid, u64 ok) { p_n = 0; p_ok = ok; p_pid = pid; p_calls = 0; want_name[0] = 'f'; }
void p_push(void) { p_arg[p_n++][0] = 0; }
void p_char(u64 c) { char *s = p_arg[p_n - 1]; u64 l = strlen(s); s[l] = c; s[l + 1] = 0; }
void p_exits(u64 status) { p_status = (int)(uint32_t)status; }
u64 p_called(void) { return p_calls; }
static rt_process start(const char *name, char *const *argv, int h) {
  symx_assert(!strcmp(name, p_arg[0]), "the program is the one given");
  for (u64 i = 0; i < p_n; i++) { symx_assert(argv[i] != 0, "all arguments"); symx_assert(!strcmp(argv[i], p_arg[i]), "the arguments are those given, after the name"); }
  symx_assert(argv[p_n] == 0, "no more arguments");
  p_calls++;
  rt_process r = {0};
  if (!p_ok) { r.err = err_no; r.pid = 77; return r; }
  r.pid = p_pid;
  if (h) { r.cin = dir_obj; r.cout = dir_obj + 8; r.cerr = dir_obj + 16; }
  return r;
}
rt_process h_llrt_spawn_process(const char *name, char *const *argv) { return start(name, argv, 1); }
rt_process h_llrt_execute_process(const char *name, char *const *argv) { return start(name, argv, 0); }
int32_t h_llrt_wait(int32_t pid) { symx_assert((uint32_t)pid == p_pid, "waits for the process"); p_calls += 16; return p_status; }
u64 p_handle(void *h, u64 i) { return h == dir_obj + 8 * i; }
