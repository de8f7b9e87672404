#include <cstddef>
#include <cstdlib>
#include <vector>
void sink(double); void sink2(void*);
struct Pool { double** rows; double* w; size_t n; std::vector<double*> per;
  double* row(size_t i) { return rows[i]; }
  void clear() { if (rows != 0) { for (size_t i = 0; i < n; i++) delete[] rows[i]; delete[] rows; rows = 0; } if (w != 0) { delete[] w; w = 0; } n = 0; }
  ~Pool() { clear(); }
  void bad_keep() { if (w != 0) { delete[] w; } n = 0; }
  void ok_keep() { delete[] w; w = new double[n + 1]; }
  void bad_per() { for (size_t i = 0; i < per.size(); i++) delete per[i]; }
  void ok_per() { for (size_t i = 0; i < per.size(); i++) delete per[i]; per.clear(); }
};
void use_pool(Pool* p) { p->bad_keep(); p->ok_keep(); p->bad_per(); p->ok_per(); }
void bad_use(size_t n) { double* x = new double[n]; x[0] = 1; delete[] x; sink(x[0]); }
void ok_use(size_t n) { double* x = new double[n]; x[0] = 1; sink(x[0]); delete[] x; }
void bad_twice(size_t n, bool b) { double* x = new double[n]; if (b) delete[] x; sink(1); delete[] x; }
void ok_twice(size_t n, bool b) { double* x = new double[n]; if (b) delete[] x; sink(1); if (!b) delete[] x; }
void ok_flag(size_t n, int k) { double* x = new double[n]; bool gone(false); for (int i = 0; i < k; i++) { if (i * i == k) { delete[] x; gone = true; break; } } if (gone) return; sink(x[0]); delete[] x; }
void bad_form(size_t n) { double* x = new double[n]; sink2(x); delete x; }
void bad_free(size_t n) { double* x = new double[n]; sink2(x); free(x); }
void ok_form(size_t n) { double* x = new double[n]; sink2(x); delete[] x; int* y = (int*)malloc(n); sink2(y); free(y); int* z = new int; sink2(z); delete z; }
void bad_grow(size_t k) { size_t cap = 4, n = 0; double* a = new double[cap]; for (size_t i = 0; i < k; i++) { a[n++] = double(i); if (n == cap) { double* t = new double[2 * cap]; delete[] a; for (size_t j = 0; j < n; j++) t[j] = a[j]; a = t; cap *= 2; } } delete[] a; }
void ok_grow(size_t k) { size_t cap = 4, n = 0; double* a = new double[cap]; for (size_t i = 0; i < k; i++) { a[n++] = double(i); if (n == cap) { double* t = new double[2 * cap]; for (size_t j = 0; j < n; j++) t[j] = a[j]; delete[] a; a = t; cap *= 2; } } delete[] a; }
void bad_loop(size_t k) { double* a = new double[5]; for (size_t i = 0; i < k; i++) { a[0] += double(i); if (a[0] > 3) delete[] a; } }
void ok_loop(size_t k) { for (size_t i = 0; i < k; i++) { double* a = new double[5]; a[0] = double(i); if (a[0] > 3) { delete[] a; continue; } sink(a[0]); delete[] a; } }
void bad_rows(size_t n) { double** r = new double*[n]; for (size_t i = 0; i < n; i++) r[i] = new double[3]; for (size_t i = 0; i < n; i++) delete[] r[i]; sink(r[0][1]); delete[] r; }
void bad_rows2(size_t n) { double** r = new double*[n]; for (size_t i = 0; i < n; i++) r[i] = new double[3]; delete[] r; for (size_t i = 0; i < n; i++) delete[] r[i]; }
void ok_rows(size_t n) { double** r = new double*[n]; for (size_t i = 0; i < n; i++) r[i] = new double[3]; sink(r[0][1]); for (size_t i = 0; i < n; i++) delete[] r[i]; delete[] r; }
static void drop(double* x) { delete[] x; }
void bad_helper(size_t n) { double* x = new double[n]; drop(x); sink(x[0]); }
void ok_helper(size_t n) { double* x = new double[n]; sink(x[0]); drop(x); x = new double[n]; sink(x[0]); drop(x); }
static int refill(size_t n, double*& x) { if (n > 5) { delete[] x; x = 0; return 1; } return 0; }
void ok_refill(size_t n) { double* x = new double[n]; if (refill(n, x)) return; sink(x[0]); delete[] x; }
int bad_left(size_t n, double*& x) { delete[] x; if (n > 3) return 1; x = new double[n]; return 0; }
void bad_inner(Pool* p) { double* r = p->row(0); delete p; sink(r[1]); }
void ok_inner(Pool* p) { double* r = p->row(0); double v = r[1]; delete p; sink(v); }
