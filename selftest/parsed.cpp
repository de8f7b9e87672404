#include <cstddef>
#include <string>
size_t string_to_size_t(const std::string &s) { return s.size(); }
double string_to_double(const std::string &s) { return s.size(); }
void take(int n); void give(size_t *a);
void bad_store(const std::string &s, size_t *a) { a[0] = string_to_size_t(s); }
void bad_off_by_one(const std::string &s, size_t *a, size_t n) { size_t k = string_to_size_t(s); if (k > n) return; a[0] = k; }
void bad_below(const std::string &s, size_t *a, size_t n) { size_t k = string_to_size_t(s); if (k > n) return; a[0] = k - 1; }
void bad_one_branch(const std::string &s, size_t *a, size_t n, bool b) { size_t k = string_to_size_t(s); if (b && k >= n) return; a[0] = k; }
void bad_threads(const std::string &s) { int n = int(string_to_double(s)); take(n); }
double bad_subscript(const std::string &s, double *x) { return x[size_t(string_to_double(s) - 1)]; }
void bad_array(const std::string *s, size_t n) { size_t *a = new size_t[n]; for (size_t i = 0; i < n; i++) a[i] = string_to_size_t(s[i]); give(a); delete[] a; }
void ok_store(const std::string &s, size_t *a, size_t n) { size_t k = string_to_size_t(s); if (k >= n) return; a[0] = k; }
void ok_shift(const std::string &s, size_t *a, size_t n) { size_t k = string_to_size_t(s); if (k < 1 || k > n) return; a[0] = k - 1; }
void ok_threads(const std::string &s) { int n = 1; if (s != "") n = int(string_to_double(s)); if (n < 1) n = 1; take(n); }
void ok_array(const std::string *s, size_t n) { size_t *a = new size_t[n]; for (size_t i = 0; i < n; i++) a[i] = string_to_size_t(s[i]); if (a[0] <= n) give(a); delete[] a; }
