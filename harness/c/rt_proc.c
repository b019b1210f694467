/* llrt: starting processes. The runtime's source is included with the system calls replaced by a model of the kernel's
   side: a table of descriptors over pipes, calls that fail when the solver likes, and the two processes that come out of
   fork, each followed on its own. */
#define _GNU_SOURCE
#define __errno_location k_errno
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/random.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <dirent.h>
#include "symx.h"

static int k_err;
int *k_errno(void) { return &k_err; }

enum { NFD = 24, NPIPE = 6, BASE = 3 };
static int fd_pipe[NFD], fd_end[NFD], fd_cx[NFD];         /* pipe (0: closed, -1: a standard stream of the parent), end (0 read, 1 write), close-on-exec */
static int npipe, failing, fork_mode, exec_mode, sigpipe_default, forks, reaped, ended, execs, wrote_pipe, wrote_n;
static uint8_t wrote[8];
static int pipe_err, fork_err, exec_err, k_phase, read_pipe, quiet_errno;
static const char *want_name; static char *const *want_argv; static int want_spawn;
static int layout_init, layout_in, layout_out, layout_err;
enum { PID = 4711 };
typedef struct { int fd, mode; } k_file;
static k_file k_files[8]; static int nfiles;

static void clobber(void) { if (!quiet_errno) k_err = (int)symx_int(8); }
static void reset(void) {
  for (int i = 0; i < NFD; i++) fd_pipe[i] = fd_end[i] = fd_cx[i] = 0;
  for (int i = 0; i < BASE; i++) fd_pipe[i] = -1;
  npipe = forks = reaped = ended = execs = wrote_pipe = wrote_n = read_pipe = nfiles = 0;
  failing = -1; sigpipe_default = 0; fork_mode = exec_mode = k_phase = 0; quiet_errno = 0;
}
static void done(void) { exit(0); }                       /* the end of a path */
static int owned(int fd) { return fd >= 0 && fd < NFD && fd_pipe[fd] > 0; }
static int any_err(void) { int e = (int)symx_int(8); symx_assume(e > 0 && e < 134 && e != EINTR); return e; }

static int k_pipe2(int *p, int flags) {
  symx_assert((flags & ~(O_CLOEXEC | O_NONBLOCK)) == 0 && !(flags & O_NONBLOCK), "pipes block");
  if (npipe == failing) { failing = -1; k_err = pipe_err; return -1; }
  npipe++;
  symx_assert(npipe <= NPIPE, "at most 6 pipes");
  int got = 0;
  for (int i = BASE; i < NFD && got < 2; i++) if (!fd_pipe[i]) {
    fd_pipe[i] = npipe; fd_end[i] = got; fd_cx[i] = (flags & O_CLOEXEC) != 0; p[got++] = i;
  }
  clobber();
  return 0;
}
static int k_pipe(int *p) { return k_pipe2(p, 0); }
static int k_close(int fd) {
  symx_assert(owned(fd), "only descriptors that were opened here are closed, and once");
  if (owned(fd)) fd_pipe[fd] = 0;
  clobber();
  return 0;
}
static int k_fcntl(int fd, int cmd, int arg) {
  symx_assert(owned(fd) || (fd >= 0 && fd < BASE), "fcntl on an open descriptor");
  int r = 0;
  if (cmd == F_SETFD) fd_cx[fd] = (arg & FD_CLOEXEC) != 0;
  else if (cmd == F_GETFD) r = fd_cx[fd] ? FD_CLOEXEC : 0;
  else symx_assert(0, "fcntl: only the descriptor flags are modelled");
  return r;
}
static int k_dup3(int a, int b, int cx) {
  symx_assert(k_phase == 2, "standard streams are replaced in the child only");
  symx_assert(owned(a), "dup2 of a descriptor opened here");
  symx_assert(b >= 0 && b < NFD, "dup2 onto a descriptor in range");
  fd_pipe[b] = fd_pipe[a]; fd_end[b] = fd_end[a]; fd_cx[b] = cx;
  clobber();
  return b;
}
static int k_dup2(int a, int b) { return a == b ? b : k_dup3(a, b, 0); }
static pid_t k_fork(void) {
  forks++;
  symx_assert(forks == 1, "one child is made");
  if (fork_mode == 0) { k_err = fork_err; return -1; }
  k_phase = fork_mode;                                    /* 1: go on as the parent, 2: as the child */
  clobber();
  return fork_mode == 1 ? PID : 0;
}
static void (*k_signal(int sig, void (*h)(int)))(int) {
  if (sig == SIGPIPE) sigpipe_default = h == SIG_DFL;
  clobber();
  return SIG_DFL;
}
static int k_sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
  if (sig == SIGPIPE && a) sigpipe_default = a->sa_handler == SIG_DFL;
  return 0;
}
/* the parent reads what the child reports */
static ssize_t k_read(int fd, void *buf, size_t n) {
  symx_assert(k_phase == 1, "the parent waits for the report, after the fork");
  symx_assert(owned(fd) && fd_end[fd] == 0, "the report is read from the read end of a pipe");
  for (int i = 0; i < NFD; i++) symx_assert(!(fd_pipe[i] == fd_pipe[fd] && fd_end[i] == 1), "the parent keeps no write end of the pipe it waits for (it would wait for itself)");
  read_pipe = fd_pipe[fd];
  if (exec_mode == 1) { clobber(); return 0; }
  size_t left = 4 - wrote_n, k = n < left ? n : left;
  memcpy(buf, (uint8_t *)&exec_err + wrote_n, k);
  wrote_n += k;
  clobber();
  return (ssize_t)k;
}
static int w_mode, w_status, w_pid, w_calls;
static pid_t k_waitpid(pid_t p, int *st, int opt) {
  if (w_mode) {
    w_calls++;
    symx_assert(p == w_pid && opt == 0, "waits for the process given, until it ends");
    if (w_mode == 2) { k_err = ECHILD; return -1; }
    if (st) *st = w_status;
    return p;
  }
  symx_assert(k_phase == 1 && p == PID, "waits for its own child");
  symx_assert(exec_mode == 0, "a child that started is not waited for");
  reaped++;
  if (st) *st = 1 << 8;
  clobber();
  return p;
}
static FILE *k_fdopen(int fd, const char *mode) {
  symx_assert(nfiles < 8, "at most 8 files");
  k_file *f = &k_files[nfiles++];
  f->fd = fd; f->mode = (mode[0] == 'r' ? 0 : 1) | (mode[0] != 0 && (mode[1] == '+' || (mode[1] != 0 && mode[2] == '+')) ? 2 : 0);
  clobber();
  return (FILE *)f;
}
/* the child's side */
static int std_is(int fd, int pipe, int end) { return fd_pipe[fd] == pipe && fd_end[fd] == end && !fd_cx[fd]; }
static int k_execvp(const char *name, char *const argv[]) {
  symx_assert(k_phase == 2, "the child runs the program");
  execs++;
  symx_assert(execs == 1, "the program is started once");
  symx_assert(name == want_name && argv == want_argv, "the program and the arguments are those given");
  symx_assert(sigpipe_default, "the child's SIGPIPE is back to the default");
  if (want_spawn) {
    symx_assert(std_is(0, layout_in, 0), "the child's standard input is the pipe the parent writes");
    symx_assert(std_is(1, layout_out, 1), "the child's standard output is the pipe the parent reads as output");
    symx_assert(std_is(2, layout_err, 1), "the child's standard error is the pipe the parent reads as errors");
  } else for (int i = 0; i < BASE; i++) symx_assert(fd_pipe[i] == -1, "the standard streams are inherited");
  int report = 0;
  for (int i = BASE; i < NFD; i++) if (fd_pipe[i]) {
    symx_assert(fd_cx[i], "no other descriptor outlives exec");
    if (fd_pipe[i] == layout_init && fd_end[i] == 1) report = 1;
  }
  symx_assert(report, "the pipe for the report is open until exec");
  if (exec_mode == 1) { symx_reach(2); done(); }
  k_err = exec_err;
  return -1;
}
static ssize_t k_write(int fd, const void *buf, size_t n) {
  symx_assert(k_phase == 2 && execs == 1, "only a child that could not start reports");
  symx_assert(owned(fd) && fd_end[fd] == 1 && fd_pipe[fd] == layout_init, "the report goes into the pipe the parent waits for");
  symx_assert(wrote_n + n <= 4, "the report is one error code");
  memcpy(wrote + wrote_n, buf, n);
  wrote_n += n;
  clobber();
  return (ssize_t)n;
}
static void k_end(int flushes, int code) {
  symx_assert(k_phase == 2 && execs == 1, "only the child ends here, after trying to start the program");
  int32_t v; memcpy(&v, wrote, 4);
  symx_assert(wrote_n == 4 && v == exec_err, "the report is the error code of exec");
  symx_assert(!flushes, "a child that could not start ends without running the parent's exit handlers and flushing its buffers again");
  symx_assert(code != 0, "a child that could not start does not end in success");
  symx_reach(3);
  done();
}
static void k_exit(int c) { k_end(1, c); for (;;); }
static void k__exit(int c) { k_end(0, c); for (;;); }
static void k_abort(void) { symx_assert(0, "no abort"); for (;;); }

#define GC_malloc h_malloc
void *h_malloc(size_t n) { return malloc(n); }
#define pipe2 k_pipe2
#define pipe k_pipe
#define close k_close
#define fcntl(fd, cmd, ...) k_fcntl(fd, cmd, (0, ##__VA_ARGS__))
#define dup2 k_dup2
#define dup3(a, b, f) k_dup3(a, b, ((f) & O_CLOEXEC) != 0)
#define fork k_fork
#define signal k_signal
#define sigaction(s, a, o) k_sigaction(s, a, o)
#define read k_read
#define write k_write
#define waitpid k_waitpid
#define fdopen k_fdopen
#define execvp k_execvp
#define exit k_exit
#define _exit k__exit
#define _Exit k__exit
#define abort k_abort
#include <rt.c>
#undef sigaction
#undef read
#undef write
#undef exit
#undef abort

static rt_process start(int spawn, const char *name, char *const argv[]) {
  want_name = name; want_argv = argv; want_spawn = spawn;
  return spawn ? llrt_spawn_process(name, argv) : llrt_execute_process(name, argv);
}
static int open_count(void) { int n = 0; for (int i = BASE; i < NFD; i++) n += fd_pipe[i] != 0; return n; }
static k_file *file_of(FILE *f) { for (int i = 0; i < nfiles; i++) if ((FILE *)&k_files[i] == f) return &k_files[i]; return 0; }
static int handle(FILE *f, int end, int *pipe) {
  k_file *k = file_of(f);
  if (!k || !owned(k->fd) || fd_end[k->fd] != end || (k->mode & 1) != end || !fd_cx[k->fd]) return 0;
  *pipe = fd_pipe[k->fd];
  return 1;
}
/* the parent, when everything succeeds: also learns which pipe is which */
static int good(int spawn, const char *name, char *const argv[]) {
  rt_process r = start(spawn, name, argv);
  symx_assert(r.err == 0 && r.pid == PID, "a program that started is reported as such, with its process id");
  symx_assert(forks == 1 && read_pipe > 0, "the parent waits for the report");
  layout_init = read_pipe; layout_in = layout_out = layout_err = 0;
  if (spawn) {
    symx_assert(handle(r.cin, 1, &layout_in), "the first handle writes to a pipe");
    symx_assert(handle(r.cout, 0, &layout_out), "the second handle reads from a pipe");
    symx_assert(handle(r.cerr, 0, &layout_err), "the third handle reads from a pipe");
    symx_assert(layout_in != layout_out && layout_in != layout_err && layout_out != layout_err, "the handles are of different pipes");
    symx_assert(open_count() == 3, "nothing stays open but the handles");
  } else {
    symx_assert(open_count() == 0, "nothing stays open");
    symx_assert(!r.cin && !r.cout && !r.cerr, "no handles");
  }
  symx_assert(reaped == 0, "the child runs");
  return npipe;
}
static char *no_args[] = {0, 0};
void h_started(uint64_t spawn, uint64_t unused) {
  reset(); fork_mode = 1; exec_mode = 1;
  good(spawn, "p", no_args);
  symx_reach(1);
}
/* every call that can fail, with every error code */
void h_failed(uint64_t spawn, uint64_t unused) {
  reset(); fork_mode = 1; exec_mode = 1; quiet_errno = 1;
  int n = good(spawn, "p", no_args);
  reset(); fork_mode = 1;
  pipe_err = any_err(); fork_err = any_err(); exec_err = any_err();
  int which = symx_choose(n + 2), want;
  if (which < n) { failing = which; want = pipe_err; exec_mode = 1; }
  else if (which == n) { fork_mode = 0; want = fork_err; }
  else { exec_mode = 0; want = exec_err; }
  rt_process r = start(spawn, "p", no_args);
  symx_assert(r.err == want, "a failure is reported with the error code of the call that failed");
  symx_assert(open_count() == 0, "nothing stays open after a failure");
  symx_assert(which >= n || forks == 0, "nothing is started when a pipe cannot be had");
  symx_assert(reaped == (which == n + 1), "a child that could not start does not stay behind");
  symx_observe(1, r.err);
  symx_reach(2);
}
/* the child: runs the program with the right streams, or reports why it could not */
void h_child(uint64_t spawn, uint64_t unused) {
  reset(); fork_mode = 1; exec_mode = 1; quiet_errno = 1;
  good(spawn, "p", no_args);
  reset(); fork_mode = 2;
  exec_err = any_err();
  exec_mode = symx_choose(2);
  symx_reach(1);
  start(spawn, "p", no_args);
  symx_assert(0, "the child does not return into the program");
}
/* waiting gives the exit code of a process that exited, and nothing otherwise */
void h_wait(uint64_t unused, uint64_t unused2) {
  reset();
  w_pid = (int)symx_int(31);
  symx_assume(w_pid > 0);
  int kind = symx_choose(3), code = (int)symx_int(8), want = -1;
  w_mode = 1;
  if (kind == 0) { w_status = code << 8; want = code; }
  else if (kind == 1) { symx_assume((code & 127) > 0 && (code & 127) < 127); w_status = code; }  /* killed by a signal, bit 7: core dumped */
  else w_mode = 2;
  int r = llrt_wait(w_pid);
  w_mode = 0;
  symx_assert(r == want, "wait gives the exit code of a process that exited, and -1 otherwise");
  symx_observe(1, r);
  symx_reach(1);
}
