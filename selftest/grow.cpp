#include <cstddef>
#define LIST(x) size_t n = 0, cap = 8; size_t *a = new size_t[cap]; double *b = new double[cap]; for (size_t i = 0; i < m; i++) { x } double r = 0; for (size_t i = 0; i < n; i++) r += a[i] + b[i]; delete[] a; delete[] b; return r;
#define PUT a[n] = i; b[n] = v[i]; n++;
#define GROWA(lo, hi, sz) size_t *ta = new size_t[sz]; for (size_t k = lo; k < hi; k++) ta[k] = a[k]; delete[] a; a = ta;
#define GROWB(lo, hi, sz) double *tb = new double[sz]; for (size_t k = lo; k < hi; k++) tb[k] = b[k]; delete[] b; b = tb;
double ok_before(double *v, size_t m) { LIST(if (n == cap) { cap *= 2; GROWA(0, n, cap) GROWB(0, n, cap) } PUT) }
double ok_after(double *v, size_t m) { LIST(PUT if (n == cap) { cap *= 2; GROWA(0, n, cap) GROWB(0, n, cap) }) }
double ok_early(double *v, size_t m) { LIST(if (n + 1 >= cap) { size_t c2 = cap * 2 + 3; GROWA(0, cap, c2) GROWB(0, n, c2) cap = c2; } PUT) }
double bad_late(double *v, size_t m) { LIST(if (n > cap) { cap *= 2; GROWA(0, n, cap) GROWB(0, n, cap) } PUT) }
double bad_capacity(double *v, size_t m) { LIST(if (n == cap) { GROWA(0, n, cap * 2) GROWB(0, n, cap * 2) } PUT) }
double bad_size(double *v, size_t m) { LIST(if (n == cap) { cap *= 2; GROWA(0, n, cap) GROWB(0, n, n + 1) } PUT) }
double bad_size2(double *v, size_t m) { LIST(if (n == cap) { GROWA(0, n, cap) GROWB(0, n, cap * 2) cap *= 2; } PUT) }
double bad_copy(double *v, size_t m) { LIST(if (n == cap) { cap *= 2; GROWA(0, n, cap) GROWB(1, n, cap) } PUT) }
double bad_copy2(double *v, size_t m) { LIST(if (n == cap) { cap *= 2; GROWA(0, n - 1, cap) GROWB(0, n, cap) } PUT) }
double bad_copy3(double *v, size_t m) { LIST(if (n == cap) { cap *= 2; GROWA(0, n, cap) GROWB(0, cap, cap) } PUT) }
double bad_lost(double *v, size_t m) { LIST(if (n == cap) { cap *= 2; GROWA(0, n, cap) double *tb = new double[cap]; for (size_t k = 0; k < n; k++) tb[k] = b[k]; } PUT) }
double bad_forgotten(double *v, size_t m) { LIST(if (n == cap) { cap *= 2; GROWA(0, n, cap) } PUT) }
double bad_first(double *v, size_t m) { size_t n = 0, cap = 8; size_t *a = new size_t[4]; for (size_t i = 0; i < m; i++) { if (n == cap) { cap *= 2; GROWA(0, n, cap) } a[n] = i; n++; } double r = 0; for (size_t i = 0; i < n; i++) r += a[i]; delete[] a; return r; }
double bad_skipped(double *v, size_t m) { LIST(if (v[i] > 0) { if (n == cap) { cap *= 2; GROWA(0, n, cap) GROWB(0, n, cap) } } PUT) }
int ok_ref(size_t e, size_t &n, size_t *&I, size_t &cap) { I[n] = e; n++; if (n == cap) { size_t *t = new size_t[cap * 2]; for (size_t i = 0; i < cap; i++) t[i] = I[i]; delete[] I; I = t; cap *= 2; } return 0; }
int bad_ref(size_t e, size_t &n, size_t *&I, size_t &cap) { I[n] = e; n++; if (n == cap) { size_t *t = new size_t[cap * 2]; for (size_t i = 0; i < cap; i++) t[i] = I[i]; I = t; } return 0; }
struct ok_Class { size_t n, cap; double **p; double *w; ok_Class() : n(0), cap(4), p(new double *[4]), w(new double[4]) {}
  void add(double *q) { if (n == cap) { cap = 2 * cap; double **t = new double *[cap]; double *u = new double[cap]; for (size_t i = 0; i < n; i++) { t[i] = p[i]; u[i] = w[i]; } delete[] p; delete[] w; p = t; w = u; } p[n] = q; w[n] = 1; n++; } };
struct bad_Class { long pad; size_t n, cap; double **p; double *w; bad_Class() : n(0), cap(4), p(new double *[4]), w(new double[4]) {}
  void add(double *q) { if (n == cap) { cap = 2 * cap; double **t = new double *[cap]; double *u = new double[cap]; for (size_t i = 0; i < n; i++) { t[i] = p[i]; u[i] = p[i][0]; } delete[] p; p = t; } p[n] = q; w[n] = 1; n++; } };
void use(double *q) { ok_Class a; a.add(q); bad_Class b; b.add(q); }
int add(size_t e, size_t &n, size_t *&I, size_t &cap) { I[n] = e; n++; if (n == cap) { size_t *t = new size_t[cap * 2]; for (size_t i = 0; i < cap; i++) t[i] = I[i]; delete[] I; I = t; cap *= 2; } return 0; }
int ok_forward(size_t m, size_t &n, size_t *&I, size_t &cap) { if (m > 3) add(m, n, I, cap); return 0; }
int ok_call(size_t m) { size_t n(0), c(5); size_t *a = new size_t[c]; for (size_t i = 0; i < m; i++) { add(i, n, a, c); ok_forward(i, n, a, c); } delete[] a; return 0; }
int ok_reset(size_t m, size_t *a, size_t *b, size_t &n0, size_t &c0) { size_t n(n0), c(c0); add(m, n, a, c); n = n0; c = c0; add(m, n, b, c); n0 = n; c0 = c; return 0; }
int bad_shared(size_t m) { size_t n(0), k(0), c(5); size_t *a = new size_t[c], *b = new size_t[c]; for (size_t i = 0; i < m; i++) { add(i, n, a, c); add(i, k, b, c); } delete[] a; delete[] b; return 0; }
int bad_shared2(size_t m) { size_t n(0), c(5), d(5); size_t *a = new size_t[c], *b = new size_t[d]; for (size_t i = 0; i < m; i++) { add(i, n, a, c); add(i, n, b, d); } delete[] a; delete[] b; return 0; }
int bad_first2(size_t m) { size_t n(0), c(5); size_t *a = new size_t[4]; for (size_t i = 0; i < m; i++) ok_forward(i, n, a, c); delete[] a; return 0; }
int bad_first3(size_t m) { size_t n(0), c(50); size_t *a = new size_t[c - 1]; for (size_t i = 0; i < m; i++) ok_forward(i, n, a, c); delete[] a; return 0; }
int bad_back(size_t m, size_t *&a, size_t &n0, size_t &c0) { size_t n(n0), c(c0); add(m, n, a, c); n0 = n; return 0; }
int bad_lost2(size_t e, size_t &n, size_t *&I, size_t &cap) { I[n] = e; n++; if (n == cap) { size_t *t = new size_t[cap * 2]; for (size_t i = 0; i < cap; i++) t[i] = I[i]; delete[] I; cap *= 2; } return 0; }
int bad_half(size_t e, size_t &n, size_t *&I, size_t &cap) { I[n] = e; n++; if (n == cap) { size_t c2 = cap * 2; size_t *t = new size_t[c2 / 2]; for (size_t i = 0; i < cap; i++) t[i] = I[i]; delete[] I; I = t; cap = c2; } return 0; }
int bad_dims(double *x, size_t d, size_t m, double *&p) { size_t n(0), c(10); p = new double[c * d]; for (size_t i = 0; i < m; i++) { for (size_t k = 0; k < d; k++) p[n * d + k] = x[k]; n++; if (n == c) { c *= 2; double *t = new double[c * d]; for (size_t k = 0; k < n; k++) t[k] = p[k]; delete[] p; p = t; } } return 0; }
int ok_dims(double *x, size_t d, size_t m, double *&p) { size_t n(0), c(10); p = new double[c * d]; for (size_t i = 0; i < m; i++) { for (size_t k = 0; k < d; k++) p[n * d + k] = x[k]; n++; if (n == c) { c *= 2; double *t = new double[c * d]; for (size_t k = 0; k < n * d; k++) t[k] = p[k]; delete[] p; p = t; } } return 0; }
struct ok_Marked { size_t n, cap; size_t **p; ok_Marked(); void add(size_t *q); };
ok_Marked::ok_Marked() : n(0), cap(0), p(0) {}
void ok_Marked::add(size_t *q) { if (p == 0) { cap = 4; p = new size_t *[cap]; for (size_t i = 0; i < cap; i++) p[i] = 0; } else if (n == cap) { size_t **t = new size_t *[2 * cap]; for (size_t i = 0; i < cap; i++) t[i] = p[i]; for (size_t i = cap; i < 2 * cap; i++) t[i] = 0; delete[] p; p = t; cap = 2 * cap; } p[n] = q; n++; }
struct bad_Marked { long pad, pad2; size_t n, cap; size_t **p; bad_Marked(); void add(size_t *q); };
bad_Marked::bad_Marked() : n(0), cap(0), p(0) {}
void bad_Marked::add(size_t *q) { if (p == 0) { cap = 4; p = new size_t *[cap]; for (size_t i = 0; i < cap; i++) p[i] = 0; } else if (n == cap) { size_t **t = new size_t *[2 * cap]; for (size_t i = 0; i < cap; i++) t[i] = p[i]; delete[] p; p = t; cap = 2 * cap; } p[n] = q; n++; }
