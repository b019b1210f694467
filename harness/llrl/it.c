/* reference model of the iterator combinators: what is yielded, which calls have been made
   and how much of the first source has been taken after each element */
#include "m_list.h"
enum { A, B, OUT, CALLS, ACT, NC, NP };
#define ANY (~0ull)
static uint64_t pulls, pos, outs, pulled, param;
static void call(uint64_t x) { ml_push(CALLS, x); }
static void done(void) { ml_push(NC, ml[CALLS].n); ml_push(NP, pulls); }
static void out(uint64_t v) { ml_push(OUT, v); done(); }
static uint64_t f(uint64_t x) { return x * 3 + 1; }
#define EACH for (uint64_t i = 0; i < ml[A].n; i++)
#define X (pulls = i + 1, ml[A].a[i])
void mi_model(uint64_t op, uint64_t k) {
  uint64_t n = ml[A].n, m = ml[B].n, s;
  ml_clear(OUT); ml_clear(CALLS); ml_clear(ACT); ml_clear(NC); ml_clear(NP);
  pulls = pos = outs = pulled = 0;
  switch (op) {
  case 0: pulls = n; out(n); break;
  case 1: EACH { out(X); goto one; } out(ANY); break;
  case 2: EACH { uint64_t x = X; if (i == k) { out(x); goto one; } } out(ANY); break;
  case 3: EACH out(X); for (uint64_t j = 0; j < m; j++) out(ml[B].a[j]); break;
  case 4: EACH out(X); for (uint64_t j = 0; j < m; j++) out(ml[B].a[j]); pulls = ANY; for (uint64_t i = 0; i < n; i++) out(ml[A].a[i]); break;
  case 5: for (uint64_t i = 0; i < n && i < m; i++) { ml_push(OUT, X); out(ml[B].a[i]); } pulls = ANY; break;
  case 6: for (uint64_t i = 0; i < n && i < m; i++) { uint64_t x = X; call(x); out(f(x) + ml[B].a[i]); } pulls = ANY; break;
  case 7: for (uint64_t i = 0; i < n || i < m; i++) {
      ml_push(OUT, i >= m ? 0 : i >= n ? 1 : 2); ml_push(OUT, i < n ? X : 0); out(i < m ? ml[B].a[i] : 0); } break;
  case 8: EACH { uint64_t x = X; call(x); out(f(x)); } break;
  case 9: EACH { uint64_t x = X; call(x); if (x & 1) out(x); } break;
  case 10: EACH { uint64_t x = X; call(x); if (x & 1) out(f(x)); } break;
  case 11: EACH { ml_push(OUT, i); out(X); } break;
  case 12: for (uint64_t i = 0; i < n && i < k; i++) out(X); break;
  case 13: for (uint64_t i = 0; i < n; i++) { uint64_t x = X; if (i >= k) out(x); } break;
  case 14: EACH { uint64_t x = X; call(x); if (!(x & 1)) break; out(x); } break;
  case 15: { int on = 0; EACH { uint64_t x = X; if (!on) { call(x); on = !(x & 1); } if (on) out(x); } } break;
  case 16: EACH { uint64_t x = X; call(x); for (uint64_t j = 0; j < (x & 3); j++) out(f(x)); } break;
  case 17: s = k; EACH { uint64_t x = X; call(x); s = s * 5 + x; } out(s); break;
  case 18: EACH { uint64_t x = X; call(x); if (!(x & 1)) { out(0); goto one; } } out(1); break;
  case 19: EACH { uint64_t x = X; call(x); if (x & 1) { out(1); goto one; } } out(0); break;
  case 20: EACH { uint64_t x = X; call(x); if (x & 1) { out(x); goto one; } } out(ANY); break;
  case 21: EACH { uint64_t x = X; call(x); if (x & 1) { out(f(x)); goto one; } } out(ANY); break;
  case 22: EACH { uint64_t x = X; call(x); if (x & 1) { out(i); goto one; } } out(ANY); break;
  case 23: s = 0; EACH s += X; out(s); break;
  case 24: s = 1; EACH s *= X; out(s); break;
  case 25: case 26: EACH { uint64_t x = X; call(x); if (!(x & 1)) { ml_push(OUT, ANY); out(x); goto one; } }
    ml_push(OUT, n); EACH { if (i + 1 == n) done(); ml_push(OUT, f(ml[A].a[i])); } if (!n) done(); break;
  case 27: break;
  case 28: for (uint64_t i = 0; i < 4; i++) out(k); break;
  case 29: out(k); break;
  case 30: for (uint64_t i = 0; i < k && i < 5; i++) out(ml[B].a[0]); break;
  case 31: s = k; for (uint64_t i = 0; i < 4 && (s & 1); i++) { call(s); out(f(s)); s = (s >> 1) ^ 5; } if (!(s & 1)) call(s); break;
  case 34: EACH out(X); break;
  }
  pulls = op == 4 || op == 5 || op == 6 || (op >= 27 && op != 34) ? ANY : op == 12 ? (k < n ? k : n) : op == 14 ? pulls : n;
one:
  done();
}
/* ascending and descending ranges */
void mi_range(int64_t from, int64_t to, int64_t step, uint64_t sgn) {
  mi_model(27, 0);
  ml_clear(NC); ml_clear(NP);
  if (!sgn) for (uint64_t i = from; i < (uint64_t)to; i += (uint64_t)step) out(i);
  else for (int64_t i = from; step > 0 ? i < to : step < 0 && i > to; i += step) out(i);
  done();
}
static void counts(void) {
  symx_check(ml[ACT].n == ml[NC].a[outs], 2);
  for (uint64_t i = 0; i < ml[ACT].n && i < ml[CALLS].n; i++) symx_check(ml[ACT].a[i] == ml[CALLS].a[i], 3);
  if (ml[NP].a[outs] != ANY) symx_check(pulled == ml[NP].a[outs], 4);
}
void mi_call(uint64_t x) { ml_push(ACT, x); }
void mi_pull(void) { pulled++; }
void mi_val(uint64_t v) { symx_check(pos < ml[OUT].n, 5); symx_check(v == ml[OUT].a[pos], 6); pos++; }
void mi_out(uint64_t v) { mi_val(v); counts(); outs++; }
void mi_end(void) { symx_check(pos == ml[OUT].n, 7); counts(); }
void mi_after(void) { symx_check(0, 8); }
