/* reference: Robinson's algorithm on terms */
#include "../include/symx.h"
typedef uint64_t u64;
/* k 0: variable v, 1: constant v, 2: application of v to n arguments */
typedef struct { u64 k, v, n, a[3]; } N;
static N ns[512];
static u64 nn;
#define NONE ((u64)-1)
static u64 sub[8] = {NONE, NONE, NONE, NONE, NONE, NONE, NONE, NONE};
u64 un_node(u64 k, u64 v, u64 n, u64 a, u64 b, u64 c) { N x = {k, v, n, {a, b, c}}; ns[nn] = x; return nn++; }
u64 un_get(u64 t, u64 f) { N *x = &ns[t]; return f == 0 ? x->k : f == 1 ? x->v : f == 2 ? x->n : x->a[f - 3]; }
u64 un_walk(u64 t) { while (ns[t].k == 0 && sub[ns[t].v] != NONE) t = sub[ns[t].v]; return t; }
/* does the solved term t contain a leaf of that kind and number? */
u64 un_has(u64 t, u64 k, u64 v) {
  t = un_walk(t);
  if (ns[t].k != 2) return ns[t].k == k && ns[t].v == v;
  if (un_has(ns[t].v, k, v)) return 1;
  for (u64 i = 0; i < ns[t].n; i++) if (un_has(ns[t].a[i], k, v)) return 1;
  return 0;
}
u64 un_unify(u64 a, u64 b) {
  a = un_walk(a); b = un_walk(b);
  if (a == b) return 1;
  if (ns[a].k == 0 && ns[b].k == 0 && ns[a].v == ns[b].v) return 1;
  if (ns[a].k == 0) { if (un_has(b, 0, ns[a].v)) return 0; sub[ns[a].v] = b; return 1; }
  if (ns[b].k == 0) return un_unify(b, a);
  if (ns[a].k != ns[b].k) return 0;
  if (ns[a].k == 1) return ns[a].v == ns[b].v;
  if (ns[a].n != ns[b].n || !un_unify(ns[a].v, ns[b].v)) return 0;
  for (u64 i = 0; i < ns[a].n; i++) if (!un_unify(ns[a].a[i], ns[b].a[i])) return 0;
  return 1;
}
static int same(u64 a, u64 b) {
  if (ns[a].k != ns[b].k) return 0;
  if (ns[a].k < 2) return ns[a].v == ns[b].v;
  if (ns[a].n != ns[b].n || !same(ns[a].v, ns[b].v)) return 0;
  for (u64 i = 0; i < ns[a].n; i++) if (!same(ns[a].a[i], ns[b].a[i])) return 0;
  return 1;
}
u64 un_same(u64 a, u64 b) { return same(a, b); }
/* one way: b has no variables */
u64 un_match(u64 a, u64 b) {
  if (ns[a].k == 0) { if (sub[ns[a].v] != NONE) return same(sub[ns[a].v], b); sub[ns[a].v] = b; return 1; }
  if (ns[a].k != ns[b].k) return 0;
  if (ns[a].k == 1) return ns[a].v == ns[b].v;
  if (ns[a].n != ns[b].n || !un_match(ns[a].v, ns[b].v)) return 0;
  for (u64 i = 0; i < ns[a].n; i++) if (!un_match(ns[a].a[i], ns[b].a[i])) return 0;
  return 1;
}
u64 un_bound(u64 v) { return sub[v] != NONE; }
/* replace the constant g by the term `by` */
u64 un_subst(u64 t, u64 g, u64 by) {
  N x = ns[t];
  if (x.k == 1) return x.v == g ? by : t;
  if (x.k == 0) return t;
  x.v = un_subst(x.v, g, by);
  for (u64 i = 0; i < x.n; i++) x.a[i] = un_subst(x.a[i], g, by);
  ns[nn] = x;
  return nn++;
}
