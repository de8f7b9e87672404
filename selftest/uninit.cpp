#include <cstddef>
int get(bool b, size_t &out) { if (!b) return 1; out = 3; return 0; }
bool find(double *x, size_t n, size_t &out) { for (size_t i = 0; i < n; i++) if (x[i] > 0) { out = i; return true; } return false; }
void closest(double *x, size_t n, size_t &i, double &d) { for (size_t k = 0; k < n; k++) if (x[k] < d) { d = x[k]; i = k; } }
size_t bad_scan(double *x, size_t n) { size_t best; double m(1e300); for (size_t i = 0; i < n; i++) if (x[i] < m) { m = x[i]; best = i; } return best; }
size_t bad_out(bool b) { size_t k; get(b, k); return k; }
size_t bad_find(double *x, size_t n) { size_t k; find(x, n, k); return k; }
double bad_branch(int m) { double v; if (m == 1) v = 1; else if (m == 2) v = 2; return v; }
double bad_closest(double *x, size_t n) { double d(1e300); size_t i; closest(x, n, i, d); return x[i]; }
size_t bad_order(size_t a) { size_t k; size_t r = a + k; k = 2; return r + k; }
size_t ok_init(double *x, size_t n) { size_t best(0); double m(1e300); for (size_t i = 0; i < n; i++) if (x[i] < m) { m = x[i]; best = i; } return best; }
size_t ok_out(bool b) { size_t k; if (get(b, k)) return 0; return k; }
size_t ok_find(double *x, size_t n) { size_t k; if (!find(x, n, k)) return 0; return k; }
double ok_closest(double *x, size_t n) { double d(1e300); size_t i; closest(x, n, i, d); if (d == 1e300) return 0; return x[i]; }
double ok_flag(int m) { double v; bool set = false; if (m > 1) { v = 1; set = true; } if (set) return v; return 0; }
double ok_cond(int m) { double v; if (m > 1) v = 1; if (m > 1) return v; return 0; }
struct bad_Member { size_t n; double *p; bad_Member() { n = 0; } size_t size() { return p ? n : 0; } };
struct bad_Branch { size_t n; double *p; int k = 0; bad_Branch(bool b) { n = 0; if (b) p = 0; } size_t size() { return p ? n : 0; } };
struct ok_Member { size_t n; double *p; int k = 0, l = 0; int clear() { p = 0; return 0; } ok_Member() : n(0) { clear(); } size_t size() { return p ? n : 0; } };
struct ok_Default { double *p = 0; size_t n = 0; ok_Default() {} size_t size() { return p ? n : 0; } };
size_t use(bool b) { bad_Member m; bad_Branch q(b); ok_Member r; ok_Default s; return m.size() + q.size() + r.size() + s.size(); }
