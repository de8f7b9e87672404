// kd-tree traversals, insertion and construction: bad_* must be reported, ok_* must not.
#include <cmath>
#include <cfloat>
typedef unsigned long size_t_;
#define size_t size_t_
int ok_closest(size_t nd, double* pts, size_t* R, size_t* L, double* x, size_t d, size_t node, size_t& best, double& dst)
{
  if (d == nd) d = 0;
  double s = 0.0;
  for (size_t i = 0; i < nd; i++) { double dx = x[i] - pts[node * nd + i]; s += dx * dx; }
  s = sqrt(s);
  if (s < dst) { best = node; dst = s; }
  if (R[node] != node && x[d] + dst > pts[node * nd + d]) ok_closest(nd, pts, R, L, x, d + 1, R[node], best, dst);
  if (L[node] != node && x[d] - dst < pts[node * nd + d]) ok_closest(nd, pts, R, L, x, d + 1, L[node], best, dst);
  return 0;
}
int bad_prune(size_t nd, double* pts, size_t* R, size_t* L, double* x, size_t d, size_t node, size_t& best, double& dst)
{
  if (d == nd) d = 0;
  double s = 0.0;
  for (size_t i = 0; i < nd; i++) { double dx = x[i] - pts[node * nd + i]; s += dx * dx; }
  s = sqrt(s);
  if (s < dst) { best = node; dst = s; }
  if (R[node] != node && x[d] + dst > pts[node * nd + d]) bad_prune(nd, pts, R, L, x, d + 1, R[node], best, dst);
  else if (L[node] != node && x[d] - dst < pts[node * nd + d]) bad_prune(nd, pts, R, L, x, d + 1, L[node], best, dst);
  return 0;
}
int bad_dim(size_t nd, double* pts, size_t* R, size_t* L, double* x, size_t d, size_t node, size_t& best, double& dst)
{
  if (d == nd) d = 0;
  double s = 0.0;
  for (size_t i = 0; i < nd; i++) { double dx = x[i] - pts[node * nd + i]; s += dx * dx; }
  s = sqrt(s);
  if (s < dst) { best = node; dst = s; }
  if (R[node] != node && x[d] + dst > pts[node * nd + d]) bad_dim(nd, pts, R, L, x, d + 1, R[node], best, dst);
  if (L[node] != node && x[d] - dst < pts[node * nd + d]) bad_dim(nd, pts, R, L, x, d, L[node], best, dst);
  return 0;
}
int bad_sentinel(size_t nd, double* pts, size_t* R, size_t* L, double* x, size_t d, size_t node, size_t& best, double& dst)
{
  if (d == nd) d = 0;
  double s = 0.0;
  for (size_t i = 0; i < nd; i++) { double dx = x[i] - pts[node * nd + i]; s += dx * dx; }
  s = sqrt(s);
  if (s < dst) { best = node; dst = s; }
  if (x[d] + dst > pts[node * nd + d]) bad_sentinel(nd, pts, R, L, x, d + 1, R[node], best, dst);
  if (L[node] != node && x[d] - dst < pts[node * nd + d]) bad_sentinel(nd, pts, R, L, x, d + 1, L[node], best, dst);
  return 0;
}
int bad_accept(size_t nd, double* pts, size_t* R, size_t* L, double* x, size_t d, size_t node, size_t& best, double& dst)
{
  if (d == nd) d = 0;
  double s = 0.0;
  for (size_t i = 0; i < nd; i++) { double dx = x[i] - pts[node * nd + i]; s += dx * dx; }
  s = sqrt(s);
  if (s < 0.999 * dst) { best = node; dst = s; }
  if (R[node] != node && x[d] + dst > pts[node * nd + d]) bad_accept(nd, pts, R, L, x, d + 1, R[node], best, dst);
  if (L[node] != node && x[d] - dst < pts[node * nd + d]) bad_accept(nd, pts, R, L, x, d + 1, L[node], best, dst);
  return 0;
}
int ok_range(size_t nd, double* pts, size_t* R, size_t* L, double* x, double r, size_t d, size_t node, size_t& n, size_t* out)
{
  if (d == nd) d = 0;
  double s = 0.0;
  for (size_t i = 0; i < nd; i++) { double dx = pts[node * nd + i] - x[i]; s += dx * dx; }
  if (s < r * r) { out[n] = node; n++; }
  double lo = x[d] - r, hi = x[d] + r;
  bool right = R[node] != node && hi > pts[node * nd + d], left = L[node] != node && lo < pts[node * nd + d];
  if (left) ok_range(nd, pts, R, L, x, r, d + 1, L[node], n, out);
  if (right) ok_range(nd, pts, R, L, x, r, d + 1, R[node], n, out);
  return 0;
}
int bad_range(size_t nd, double* pts, size_t* R, size_t* L, double* x, double r, size_t d, size_t node, size_t& n, size_t* out)
{
  if (d == nd) d = 0;
  double s = 0.0;
  for (size_t i = 0; i < nd; i++) { double dx = pts[node * nd + i] - x[i]; s += dx * dx; }
  if (s < 1.01 * r * r) { out[n] = node; n++; } // accepts farther than it searches
  double lo = x[d] - r, hi = x[d] + r;
  if (R[node] != node && hi > pts[node * nd + d]) bad_range(nd, pts, R, L, x, r, d + 1, R[node], n, out);
  if (L[node] != node && lo < pts[node * nd + d]) bad_range(nd, pts, R, L, x, r, d + 1, L[node], n, out);
  return 0;
}
int ok_order(size_t* R, size_t* L, size_t node, size_t& n, size_t* out)
{
  out[n] = node; n++;
  if (R[node] != node) ok_order(R, L, R[node], n, out);
  if (L[node] != node) ok_order(R, L, L[node], n, out);
  return 0;
}
int bad_order(size_t* R, size_t* L, size_t node, size_t& n, size_t* out)
{
  if (n < 1000) { out[n] = node; n++; }
  if (R[node] != node) bad_order(R, L, R[node], n, out);
  if (L[node] != node) bad_order(R, L, L[node], n, out);
  return 0;
}
int ok_insert(size_t nd, double* pts, size_t root, size_t* R, size_t* L, size_t s)
{
  size_t p = root, d = 0;
  while (true) {
    if (pts[s * nd + d] > pts[p * nd + d]) { if (R[p] == p) { R[p] = s; break; } p = R[p]; }
    else { if (L[p] == p) { L[p] = s; break; } p = L[p]; }
    d++; if (d == nd) d = 0;
  }
  return 0;
}
int bad_insert(size_t nd, double* pts, size_t root, size_t* R, size_t* L, size_t s)
{
  size_t p = root, d = 0;
  while (true) {
    if (pts[s * nd + d] > pts[p * nd + d]) { if (R[p] == p) { L[p] = s; break; } p = R[p]; }
    else { if (L[p] == p) { L[p] = s; break; } p = L[p]; }
    d++; if (d == nd) d = 0;
  }
  return 0;
}
int bad_insert_dim(size_t nd, double* pts, size_t root, size_t* R, size_t* L, size_t s)
{
  size_t p = root, d = 0;
  while (true) {
    if (pts[s * nd + d] > pts[p * nd + d]) { if (R[p] == p) { R[p] = s; break; } p = R[p]; }
    else { if (L[p] == p) { L[p] = s; break; } p = L[p]; }
    d++; if (d > nd) d = 0;
  }
  return 0;
}
int swap_only(size_t* a, size_t i, size_t j) { size_t t = a[i]; a[i] = a[j]; a[j] = t; return 0; }
int ok_build(size_t nd, double* pts, size_t& root, size_t* R, size_t* L, size_t mid, size_t lo, size_t hi, size_t* a)
{
  swap_only(a, lo, hi);
  if (root == ~0UL) root = a[mid]; else ok_insert(nd, pts, root, R, L, a[mid]);
  if (mid > lo + 1) ok_build(nd, pts, root, R, L, (lo + mid - 1) / 2, lo, mid - 1, a);
  else if (lo < mid) ok_insert(nd, pts, root, R, L, a[lo]);
  if (mid + 1 < hi) ok_build(nd, pts, root, R, L, (mid + 1 + hi) / 2, mid + 1, hi, a);
  else if (hi > mid) ok_insert(nd, pts, root, R, L, a[hi]);
  return 0;
}
int bad_build(size_t nd, double* pts, size_t& root, size_t* R, size_t* L, size_t mid, size_t lo, size_t hi, size_t* a)
{
  swap_only(a, lo, hi);
  if (root == ~0UL) root = a[mid]; else ok_insert(nd, pts, root, R, L, a[mid]);
  if (mid > lo + 1) bad_build(nd, pts, root, R, L, (lo + mid - 1) / 2, lo, mid - 1, a);
  if (mid + 1 < hi) bad_build(nd, pts, root, R, L, (mid + 1 + hi) / 2, mid + 1, hi, a);
  else if (hi > mid) ok_insert(nd, pts, root, R, L, a[hi]);
  return 0;
}
int ok_start(size_t n, size_t nd, double* pts, size_t& root, size_t* R, size_t* L)
{
  if (n == 0) return 1;
  size_t* a = new size_t[n];
  for (size_t i = 0; i < n; i++) { a[i] = i; R[i] = i; L[i] = i; }
  root = ~0UL;
  ok_build(nd, pts, root, R, L, n / 2, 0, n - 1, a);
  delete[] a;
  return 0;
}
int bad_start(size_t n, size_t nd, double* pts, size_t& root, size_t* R, size_t* L)
{
  size_t* a = new size_t[n];
  for (size_t i = 0; i < n; i++) { a[i] = i; R[i] = i; L[i] = i; }
  root = ~0UL;
  ok_build(nd, pts, root, R, L, n / 2, 0, n - 1, a); // wraps for n = 0
  delete[] a;
  return 0;
}
int query(size_t n, size_t nd, double* pts, size_t root, size_t* R, size_t* L, double* x, size_t& best, double& dst)
{
  if (n == 0) return 1;
  return ok_closest(nd, pts, R, L, x, 0, root, best, dst);
}
int ok_use(size_t n, double* pts, double* xs, size_t m)
{
  size_t* R = new size_t[n]; size_t* L = new size_t[n]; size_t root;
  ok_start(n, 3, pts, root, R, L);
  for (size_t i = 0; i < m; i++) { size_t best; double dst = DBL_MAX; query(n, 3, pts, root, R, L, xs + 3 * i, best, dst); }
  delete[] R; delete[] L;
  return 0;
}
int bad_use_stale(size_t n, double* pts, double* xs, size_t m)
{
  size_t* R = new size_t[n]; size_t* L = new size_t[n]; size_t root;
  ok_start(n, 3, pts, root, R, L);
  double dst = DBL_MAX;
  for (size_t i = 0; i < m; i++) { size_t best; query(n, 3, pts, root, R, L, xs + 3 * i, best, dst); }
  delete[] R; delete[] L;
  return 0;
}
int bad_use_mixed(size_t n, double* pts, double* xs, size_t m)
{
  size_t* R = new size_t[n]; size_t* L = new size_t[n]; size_t root;
  size_t* R2 = new size_t[m]; size_t* L2 = new size_t[m]; size_t root2;
  ok_start(n, 3, pts, root, R, L); ok_start(m, 3, xs, root2, R2, L2);
  size_t best; double dst = DBL_MAX; query(n, 3, pts, root, R, L2, xs, best, dst);
  return 0;
}
int ok_except(size_t nd, double* pts, size_t* R, size_t* L, double* x, size_t d, size_t node, size_t nex, size_t* ex, size_t& best, double& dst)
{
  if (d == nd) d = 0;
  bool out = false;
  for (size_t i = 0; i < nex; i++) if (ex[i] == node) { out = true; break; }
  if (!out)
  {
    double s = 0.0;
    for (size_t i = 0; i < nd; i++) { double dx = x[i] - pts[node * nd + i]; s += dx * dx; }
    s = sqrt(s);
    if (s < dst) { best = node; dst = s; }
  }
  if (R[node] != node && x[d] + dst > pts[node * nd + d]) ok_except(nd, pts, R, L, x, d + 1, R[node], nex, ex, best, dst);
  if (L[node] != node && x[d] - dst < pts[node * nd + d]) ok_except(nd, pts, R, L, x, d + 1, L[node], nex, ex, best, dst);
  return 0;
}
int bad_except(size_t nd, double* pts, size_t* R, size_t* L, double* x, size_t d, size_t node, size_t nex, size_t* ex, size_t& best, double& dst)
{
  if (d == nd) d = 0;
  bool out = false;
  for (size_t i = 1; i < nex; i++) if (ex[i] == node) { out = true; break; }
  if (!out)
  {
    double s = 0.0;
    for (size_t i = 0; i < nd; i++) { double dx = x[i] - pts[node * nd + i]; s += dx * dx; }
    s = sqrt(s);
    if (s < dst) { best = node; dst = s; }
  }
  if (R[node] != node && x[d] + dst > pts[node * nd + d]) bad_except(nd, pts, R, L, x, d + 1, R[node], nex, ex, best, dst);
  if (L[node] != node && x[d] - dst < pts[node * nd + d]) bad_except(nd, pts, R, L, x, d + 1, L[node], nex, ex, best, dst);
  return 0;
}
int ok_trim(size_t nd, double* pts, size_t* R, size_t* L, double* c, double* o, double* dir, double od, size_t d, size_t node, double& len, size_t& by)
{
  if (d == nd) d = 0;
  double a = 0, b = 0;
  for (size_t i = 0; i < nd; i++) { double m = 0.5 * (pts[node * nd + i] + c[i]); double q = pts[node * nd + i] - c[i]; a += (m - o[i]) * q; b += dir[i] * q; }
  if (a < 0.0) a = 0.0;
  if (b > 1E-8) { double t = a / b; if (t < len) { len = t; by = node; } }
  double h = fabs(pts[node * nd + d] - o[d]);
  bool both = h < 2 * (len + od) + 1E-8;
  if (R[node] != node && (both || o[d] > pts[node * nd + d])) ok_trim(nd, pts, R, L, c, o, dir, od, d + 1, R[node], len, by);
  if (L[node] != node && (h < 2 * (len + od) + 1E-8 || o[d] < pts[node * nd + d])) ok_trim(nd, pts, R, L, c, o, dir, od, d + 1, L[node], len, by);
  return 0;
}
int bad_trim(size_t nd, double* pts, size_t* R, size_t* L, double* c, double* o, double* dir, double od, size_t d, size_t node, double& len, size_t& by)
{
  if (d == nd) d = 0;
  double a = 0, b = 0;
  for (size_t i = 0; i < nd; i++) { double m = 0.5 * (pts[node * nd + i] + c[i]); double q = pts[node * nd + i] - o[i]; a += (m - o[i]) * q; b += dir[i] * q; }
  if (a < 0.0) a = 0.0;
  if (b > 1E-8) { double t = a / b; if (t < len) { len = t; by = node; } }
  double h = fabs(pts[node * nd + d] - o[d]);
  bool both = h < 2 * (len + od) + 1E-8;
  if (R[node] != node && (both || o[d] > pts[node * nd + d])) bad_trim(nd, pts, R, L, c, o, dir, od, d + 1, R[node], len, by);
  if (L[node] != node && (h < 2 * (len + od) + 1E-8 || o[d] < pts[node * nd + d])) bad_trim(nd, pts, R, L, c, o, dir, od, d + 1, L[node], len, by);
  return 0;
}
int bad_use_limited(size_t n, double* pts, double* xs, size_t m, double far)
{
  size_t* R = new size_t[n]; size_t* L = new size_t[n]; size_t root;
  ok_start(n, 3, pts, root, R, L);
  for (size_t i = 0; i < m; i++) { size_t best; double dst = far; query(n, 3, pts, root, R, L, xs + 3 * i, best, dst); }
  delete[] R; delete[] L;
  return 0;
}
