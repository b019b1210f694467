// Reference: what a path's text means.
#include "m_str.h"
typedef uint64_t u64;
static u64 end_of(u64 s) { u64 r = ml[s].n; while (r > 0 && ml[s].a[r - 1] == '/') r--; return r; }
static u64 start_of(u64 s) { u64 l = end_of(s); while (l > 0 && ml[s].a[l - 1] != '/') l--; return l; }
static void put(u64 d, u64 s, u64 a, u64 b) { for (u64 i = a; i < b; i++) ml_push(d, ml[s].a[i]); }
u64 pc_abs(u64 s) { return ml[s].n > 0 && ml[s].a[0] == '/'; }
void pc_base(u64 s, u64 d) { ml_clear(d); if (ml[s].n > 0 && end_of(s) == 0) ml_push(d, '/'); else put(d, s, start_of(s), end_of(s)); }
// the directory, without the slashes that separate it from the last component
void pc_dir(u64 s, u64 d) {
  ml_clear(d); u64 l = start_of(s); while (l > 0 && ml[s].a[l - 1] == '/') l--;
  if (l > 0) put(d, s, 0, l); else ml_push(d, pc_abs(s) ? '/' : '.');
}
// equal up to slashes at the end, the root being no empty path
u64 pc_same_dir(u64 a, u64 b) {
  u64 n = end_of(a), m = end_of(b); if (pc_abs(a) != pc_abs(b) || n != m || (ml[a].n == 0) != (ml[b].n == 0)) return 0;
  for (u64 i = 0; i < n; i++) if (ml[a].a[i] != ml[b].a[i]) return 0;
  return 1;
}
// position of the dot before the extension of the last component, or its end; a dot that starts the component is none
static u64 dot_of(u64 s) { u64 l = start_of(s), r = end_of(s); for (u64 i = r; i > l + 1; i--) if (ml[s].a[i - 1] == '.') return i - 1; return r; }
// `.` and `..` are no names
u64 pc_name(u64 s) { u64 l = start_of(s), n = end_of(s) - l; return n > 2 || (n > 0 && ml[s].a[l] != '.') || (n == 2 && ml[s].a[l + 1] != '.'); }
u64 pc_ext(u64 s, u64 d) { ml_clear(d); u64 e = dot_of(s), r = end_of(s); if (e == r) return 0; put(d, s, e + 1, r); return 1; }
void pc_with(u64 s, u64 has, u64 x, u64 d) { ml_clear(d); put(d, s, 0, dot_of(s)); if (has) { ml_push(d, '.'); put(d, x, 0, ml[x].n); } put(d, s, end_of(s), ml[s].n); }
void pc_default(u64 s, u64 x, u64 d) { ml_clear(d); put(d, s, 0, end_of(s)); if (dot_of(s) == end_of(s)) { ml_push(d, '.'); put(d, x, 0, ml[x].n); } put(d, s, end_of(s), ml[s].n); }
// components: triples of kind (0 root, 1 `.`, 2 `..`, 3 name), start and end
u64 pc_parts(u64 s, u64 d) {
  u64 n = 0; ml_clear(d);
  if (pc_abs(s)) { ml_push(d, 0); ml_push(d, 0); ml_push(d, 1); n++; }
  for (u64 i = 0; i < ml[s].n;) {
    u64 j = i; while (j < ml[s].n && ml[s].a[j] != '/') j++;
    if (j > i) {
      u64 k = 3; if (j == i + 1 && ml[s].a[i] == '.') k = 1; if (j == i + 2 && ml[s].a[i] == '.' && ml[s].a[i + 1] == '.') k = 2;
      ml_push(d, k); ml_push(d, i); ml_push(d, j); n++;
    }
    i = j + 1;
  }
  return n;
}
void pc_join(u64 p, u64 q, u64 d) {
  ml_clear(d);
  if (pc_abs(q) || ml[p].n == 0) { put(d, q, 0, ml[q].n); return; }
  put(d, p, 0, end_of(p)); ml_push(d, '/'); put(d, q, 0, ml[q].n);
}
// an absolute path without `.`, `..` and repeated slashes; r is scratch
void pc_canon(u64 s, u64 r, u64 d) {
  u64 n = pc_parts(s, r), st[16], k = 0; ml_clear(d);
  for (u64 i = 0; i < n; i++) switch (ml[r].a[3 * i]) { case 0: k = 0; break; case 2: if (k) k--; break; case 3: st[k++] = i; break; }
  if (k == 0) ml_push(d, '/');
  for (u64 i = 0; i < k; i++) { ml_push(d, '/'); put(d, s, ml[r].a[3 * st[i] + 1], ml[r].a[3 * st[i] + 2]); }
}
