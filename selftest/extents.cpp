#include <cstddef>
double ok_plain(size_t n) { double *a = new double[n]; for (size_t i = 0; i < n; i++) a[i] = 1; double r = n ? a[n - 1] : 0; delete[] a; return r; }
double bad_short(size_t n) { double *a = new double[n - 1]; for (size_t i = 0; i < n; i++) a[i] = 1; double r = a[0]; delete[] a; return r; }
double bad_le(size_t n) { double *a = new double[n]; for (size_t i = 0; i <= n; i++) a[i] = 1; double r = a[0]; delete[] a; return r; }
double ok_le(size_t n) { double *a = new double[n + 1]; for (size_t i = 0; i <= n; i++) a[i] = 1; double r = a[n]; delete[] a; return r; }
double ok_rows(size_t n, size_t d) { double *a = new double[n * d]; for (size_t i = 0; i < n; i++) for (size_t k = 0; k < d; k++) a[i * d + k] = 1; double r = a[0]; delete[] a; return r; }
double bad_rows(size_t n, size_t d) { double *a = new double[n * d]; for (size_t i = 0; i <= n; i++) for (size_t k = 0; k < d; k++) a[i * d + k] = 1; double r = a[0]; delete[] a; return r; }
double bad_stride(size_t n) { double *a = new double[n * 3]; for (size_t i = 0; i < n; i++) for (size_t k = 0; k < 4; k++) a[i * 4 + k] = 1; double r = a[0]; delete[] a; return r; }
double ok_next(size_t n) { double *a = new double[n]; double r = 0; for (size_t i = 0; i + 1 < n; i++) a[i + 1] = 1; for (size_t i = 0; i < n; i++) { if (i == n - 1) continue; r += a[i + 1]; } for (size_t i = 0; i < n; i++) { bool last(false); if (i == n - 1) last = true; if (!last) r += a[i + 1]; } delete[] a; return r; }
double bad_next(size_t n) { double *a = new double[n]; for (size_t i = 0; i < n; i++) a[i + 1] = 1; double r = a[0]; delete[] a; return r; }
double ok_two(size_t n, size_t m) { double *a = new double[n]; for (size_t i = 0; i < m; i++) if (i < n) a[i] = 1; double r = a[0]; delete[] a; return r; }
double ok_found(size_t n, const size_t *x) { double *a = new double[n]; for (size_t i = 0; i < n; i++) a[x[i]] = 1; double r = a[x[0]]; delete[] a; return r; }
static void fill(size_t n, double *a) { for (size_t i = 0; i < n; i++) a[i] = i; }
double ok_call(size_t n) { double *a = new double[n]; fill(n, a); double r = a[0]; delete[] a; return r; }
double bad_call(size_t n) { double *a = new double[n]; fill(n + 1, a); double r = a[0]; delete[] a; return r; }
static void cross(double *v) { v[2] = v[0] * v[1]; }
double ok_const() { double *a = new double[3]; a[0] = a[1] = 1; cross(a); double r = a[2]; delete[] a; return r; }
double bad_const() { double *a = new double[2]; a[0] = a[1] = 1; cross(a); double r = a[0]; delete[] a; return r; }
static double both(size_t n, size_t m) { double *a = new double[n]; fill(m, a); double r = a[0]; delete[] a; return r; }
struct Sizes { size_t n, m; }; void count(size_t &a, size_t &b);
double ok_related() { size_t n, m; count(n, m); return both(n, n); }
double bad_unrelated() { size_t n, m; count(n, m); return both(n, m); }
double ok_par(size_t n, size_t T) { double *s = new double[T];
#pragma omp parallel for
  for (size_t t = 0; t < T; t++) { double q = 0; for (size_t i = 0; i < n; i++) q += i; s[t] = q; }
  double r = 0; for (size_t t = 0; t < T; t++) r += s[t]; delete[] s; return r; }
double bad_par(size_t n, size_t T) { double *s = new double[T];
  for (size_t t = 0; t < T; t++) s[t] = 0;
  double r = 0; for (size_t t = 0; t <= T; t++) r += s[t]; delete[] s; return r; }
void make(size_t n, double *&a) { a = new double[n]; }
int bad_ref(size_t n, double *&a) { a = new double[2 * n]; for (size_t i = 0; i < n; i++) { a[2 * i] = 0; a[2 * i + 2] = 1; } return 0; }
int ok_ref(size_t n, double *&a) { a = new double[2 * n]; for (size_t i = 0; i < n; i++) { a[2 * i] = 0; a[2 * i + 1] = 1; } return 0; }
double ok_down(size_t n) { double *a = new double[n]; size_t i = n; while (i > 0) { i--; a[i] = 0; } double r = a[0]; delete[] a; return r; }
double ok_tri(size_t n) { double *a = new double[n * n]; for (size_t i = 0; i < n; i++) for (size_t j = i; j < n; j++) a[i * n + j] = a[j * n + i] = 1; double r = a[0]; delete[] a; return r; }
double bad_tri(size_t n) { double *a = new double[n * n]; for (size_t i = 0; i < n; i++) for (size_t j = i; j <= n; j++) a[j * n + i] = 1; double r = a[0]; delete[] a; return r; }
// ---- lists that come from elsewhere, with the count kept with them
struct Bel { size_t n; double* v; double* w; double s(); double bad_over(); double ok_under(); };
double Bel::s() { double t = 0; for (size_t i = 0; i < n; i++) t += v[i]; for (size_t i = 0; i < n; i++) t += w[i] * v[i]; return t; }
double Bel::bad_over() { double t = 0; for (size_t i = 0; i <= n; i++) t += v[i]; return t; }
double Bel::ok_under() { double t = 0; for (size_t i = 0; i + 1 < n; i++) t += w[i] - w[i + 1]; return t; }
void given(size_t n, size_t* p, size_t* q, size_t from) { size_t at = from; while (q[at] < n) { p[at] = q[at]; at = q[at]; } }
void rel_one(size_t a) { size_t* p = new size_t[a]; size_t* q = new size_t[a]; q[0] = 0; given(a, p, q, 0); delete[] p; delete[] q; }
void rel_two(size_t a) { size_t* p = new size_t[a]; size_t* q = new size_t[a]; q[0] = 0; given(a, p, q, 0); delete[] p; delete[] q; }
void rel_three(size_t a) { size_t* p = new size_t[a]; size_t* q = new size_t[a]; q[0] = 0; given(a, p, q, 0); delete[] p; delete[] q; }
void ok_roomier(size_t a) { size_t* p = new size_t[a + 1]; size_t* q = new size_t[a]; q[0] = 0; given(a, p, q, 0); delete[] p; delete[] q; }
void bad_other_count(size_t a, size_t b) { size_t* p = new size_t[b]; size_t* q = new size_t[a]; q[0] = 0; given(a, p, q, 0); delete[] p; delete[] q; }
// ---- scans that only an equal entry stops
void ok_sort(double* x, size_t lo, size_t hi) { size_t i = lo, j = hi; double p = x[(lo + hi) / 2]; while (i <= j) { while (x[i] < p) i++; while (x[j] > p) j--; if (i <= j) { double t = x[i]; x[i] = x[j]; x[j] = t; i++; if (j > 0) j--; } } if (j > 0 && lo < j) ok_sort(x, lo, j); if (i < hi) ok_sort(x, i, hi); }
void bad_scan(double* x, size_t lo, size_t hi) { size_t i = lo, j = hi; double p = x[(lo + hi) / 2]; while (i <= j) { while (x[i] < p) i++; while (x[j] >= p) j--; if (i <= j) { double t = x[i]; x[i] = x[j]; x[j] = t; i++; if (j > 0) j--; } } if (j > 0 && lo < j) bad_scan(x, lo, j); if (i < hi) bad_scan(x, i, hi); }
void bad_down(double* x, size_t lo, size_t hi) { size_t i = lo, j = hi; double p = x[(lo + hi) / 2]; while (i <= j) { while (x[i] < p) i++; while (x[j] > p) j--; if (i <= j) { double t = x[i]; x[i] = x[j]; x[j] = t; i++; j--; } } if (j > 0 && lo < j) bad_down(x, lo, j); if (i < hi) bad_down(x, i, hi); }
