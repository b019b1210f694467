/* reference: which values patterns match */
#include "../include/symx.h"
typedef uint64_t u64;
/* types: their constructors with the types of their fields; type 3 is the integers */
typedef struct { u64 n; struct { u64 n, f[2]; } c[3]; } Ty;
static const Ty ts[6] = {
  {2, {{0}, {0}}}, {3, {{0}, {1, {0}}, {2, {0, 0}}}}, {2, {{0}, {1, {2}}}}, {0}, {1, {{2, {0, 0}}}}, {2, {{0}, {1, {0}}}},
};
static const u64 cols[7][4] = {{1, 1}, {2, 5, 0}, {1, 2}, {2, 3, 0}, {3, 0, 0, 0}, {2, 4, 0}, {2, 2, 2}};
u64 pm_cols(u64 mode) { return cols[mode][0]; }
u64 pm_col(u64 mode, u64 i) { return cols[mode][1 + i]; }
u64 pm_ncons(u64 t) { return ts[t].n; }
u64 pm_arity(u64 t, u64 c) { return t == 3 ? 0 : ts[t].c[c].n; }
u64 pm_field(u64 t, u64 c, u64 i) { return ts[t].c[c].f[i]; }
/* patterns and values: a wildcard, or a constructor (for integers the number) with its parts */
#define W ((u64)-1)
typedef struct { u64 c, n, a[2]; } N;
static N ns[4096];
static u64 nn;
/* the numbers the patterns name */
static u64 ints[8], ni;
void pm_int(u64 v) { ints[ni++] = v; }
u64 pm_node(u64 c, u64 n, u64 a, u64 b) { N x = {c, n, {a, b}}; ns[nn] = x; return nn++; }
static int matches(u64 p, u64 v) {
  if (ns[p].c == W) return 1;
  if (ns[p].c != ns[v].c) return 0;
  for (u64 i = 0; i < ns[p].n; i++) if (!matches(ns[p].a[i], ns[v].a[i])) return 0;
  return 1;
}
typedef struct { u64 n, v[160]; } Set;
/* all values of a type that patterns of that depth can tell apart */
static void values(u64 t, u64 depth, Set *s) {
  s->n = 0;
  if (t == 3) { for (u64 i = 0; i < ni; i++) s->v[s->n++] = pm_node(ints[i], 0, 0, 0); s->v[s->n++] = pm_node(W - 1, 0, 0, 0); return; }
  if (depth == 0) { s->v[s->n++] = pm_node(W - 1, 0, 0, 0); return; }
  for (u64 c = 0; c < ts[t].n; c++) {
    Set a, b;
    a.n = b.n = 1; a.v[0] = b.v[0] = 0;
    if (ts[t].c[c].n > 0) values(ts[t].c[c].f[0], depth - 1, &a);
    if (ts[t].c[c].n > 1) values(ts[t].c[c].f[1], depth - 1, &b);
    for (u64 i = 0; i < a.n; i++) for (u64 j = 0; j < b.n; j++) s->v[s->n++] = pm_node(c, ts[t].c[c].n, a.v[i], b.v[j]);
  }
}
static u64 nc, rows[8][3], nr;
static u64 vals[256][3], nv;
static u64 miss[32][3], nm;
void pm_start(u64 mode, u64 depth) {
  Set s[3];
  nc = cols[mode][0];
  for (u64 i = 0; i < 3; i++) { s[i].n = 1; s[i].v[0] = 0; if (i < nc) values(cols[mode][1 + i], depth + 1, &s[i]); }
  for (u64 i = 0; i < s[0].n; i++) for (u64 j = 0; j < s[1].n; j++) for (u64 k = 0; k < s[2].n; k++) { vals[nv][0] = s[0].v[i]; vals[nv][1] = s[1].v[j]; vals[nv][2] = s[2].v[k]; nv++; }
}
void pm_row(u64 r, u64 col, u64 p) { rows[r][col] = p; if (r + 1 > nr) nr = r + 1; }
void pm_miss(u64 r, u64 col, u64 p) { miss[r][col] = p; if (r + 1 > nm) nm = r + 1; }
static int row_matches(u64 *r, u64 k) { for (u64 i = 0; i < nc; i++) if (!matches(r[i], vals[k][i])) return 0; return 1; }
static int seen(u64 k, u64 upto) { for (u64 r = 0; r < upto; r++) if (row_matches(rows[r], k)) return 1; return 0; }
/* the first row that no value needs, or the number of rows */
u64 pm_useless(void) {
  for (u64 r = 0; r < nr; r++) {
    int any = 0;
    for (u64 k = 0; k < nv; k++) if (row_matches(rows[r], k) && !seen(k, r)) { any = 1; break; }
    if (!any) return r;
  }
  return nr;
}
u64 pm_exhaustive(void) { for (u64 k = 0; k < nv; k++) if (!seen(k, nr)) return 0; return 1; }
static int left(u64 k) { for (u64 r = 0; r < nm; r++) if (row_matches(miss[r], k)) return 1; return 0; }
u64 pm_only_missing(void) { for (u64 k = 0; k < nv; k++) if (left(k) && seen(k, nr)) return 0; return 1; }
u64 pm_some_missing(void) { for (u64 k = 0; k < nv; k++) if (left(k) && !seen(k, nr)) return 1; return 0; }
