// Loops that leave entries out (bad_) and loops that do not (ok_).
#include <cstddef>
#include <omp.h>
struct Work {
  size_t num; size_t threads; double *w; size_t *out;
  void bad_first() { for (size_t i = 1; i < num; i++) w[i] = 0.0; }
  void bad_last() { for (size_t i = 0; i < num - 1; i++) w[i] = 0.0; }
  void bad_last2() { for (size_t i = 0; i + 1 < num; i++) w[i] = 0.0; }
  bool bad_pairs() { for (size_t i = 1; i < num; i++) for (size_t j = 0; j < i - 1; j++) if (w[i] == w[j]) return true; return false; }
  bool bad_pairs2() { for (size_t i = 0; i < num; i++) for (size_t j = i + 2; j < num; j++) if (w[i] == w[j]) return true; return false; }
  void bad_corner(size_t **f, size_t k) { for (size_t i = 1; i < 3; i++) f[k][i] = 0; }
  void bad_coords(double **x, size_t k) { for (size_t d = 0; d < 2; d++) x[k][d] = 0; }
  void bad_share() {
    size_t share = num / threads;
    omp_set_num_threads((int)threads);
#pragma omp parallel
    { size_t t = omp_get_thread_num(); for (size_t i = 0; i < share; i++) { size_t k = t * share + i; if (k >= num) continue; w[k] = 1; } }
  }
  void bad_overlap() {
    size_t share = num / threads; share++;
    omp_set_num_threads((int)threads);
#pragma omp parallel
    { size_t t = omp_get_thread_num(); for (size_t i = 0; i <= share; i++) { size_t k = t * share + i; if (k >= num) continue; w[k] += 1; } }
  }
  void bad_total(size_t other) {
    size_t share = other / threads; share++;
    omp_set_num_threads((int)threads);
#pragma omp parallel
    { size_t t = omp_get_thread_num(); for (size_t i = 0; i < share; i++) { size_t k = t * share + i; if (k >= num) continue; w[k] = 1; } }
  }
  void bad_omp() {
#pragma omp parallel for
    for (int i = 1; i < (int)num; i++) w[i] = 1;
  }
  void bad_rest(size_t part, size_t parts) { size_t size = num / parts; size_t a = part * size, b = a + size; for (size_t i = a; i < b; i++) w[i] = 1; }
  void ok_all() { for (size_t i = 0; i < num; i++) w[i] = 0.0; }
  void ok_le() { for (size_t i = 0; i + 1 <= num; i++) w[i] = 0.0; }
  void ok_sum() { for (size_t i = 1; i < num; i++) w[i] += w[i - 1]; }
  void ok_sum2() { for (size_t i = 0; i + 1 < num; i++) w[i + 1] += w[i]; }
  double ok_min() { double m = w[0]; for (size_t i = 1; i < num; i++) if (w[i] < m) m = w[i]; return m; }
  bool ok_pairs() { for (size_t i = 0; i < num; i++) for (size_t j = i + 1; j < num; j++) if (w[i] == w[j]) return true; return false; }
  bool ok_pairs2() { for (size_t i = 1; i < num; i++) for (size_t j = 0; j < i; j++) if (w[i] == w[j]) return true; return false; }
  void ok_last() { for (size_t i = 0; i < num - 1; i++) w[i] = 0.0; w[num - 1] = 1.0; }
  void ok_corner(size_t **f, size_t k) { for (size_t i = 1; i <= 3; i++) f[k][i] = 0; for (size_t i = 1; i <= f[k][0]; i++) f[k][i]++; }
  void bad_round() {
    size_t share = num / threads; if (share == 0) share = 1;
    omp_set_num_threads((int)threads);
#pragma omp parallel
    { size_t t = omp_get_thread_num(); for (size_t i = 0; i < share; i++) { size_t k = t * share + i; if (k >= num) continue; w[k] = 1; } }
  }
  void ok_round() {
    size_t share = num / threads; if (num % threads != 0) share++;
    omp_set_num_threads((int)threads);
#pragma omp parallel
    { size_t t = omp_get_thread_num(); for (size_t i = 0; i < share; i++) { size_t k = t * share + i; if (k >= num) continue; w[k] = 1; } }
  }
  void ok_share() {
    size_t share = num / threads; share++;
    omp_set_num_threads((int)threads);
#pragma omp parallel
    { size_t t = omp_get_thread_num(); for (size_t i = 0; i < share; i++) { size_t k = t * share + i; if (k >= num) continue; w[k] = 1; } }
  }
  void ok_share2() {
    size_t share = (num + threads - 1) / threads;
    omp_set_num_threads((int)threads);
#pragma omp parallel
    { size_t t = omp_get_thread_num(); for (size_t i = 0; i < share; i++) { size_t k = share * t + i; if (k < num) w[k] = 1; } }
  }
  void ok_rest(size_t part, size_t parts) { size_t size = num / parts; size_t a = part * size, b = part + 1 == parts ? num : a + size; for (size_t i = a; i < b; i++) w[i] = 1; }
};
int main() { Work k; k.num = 0; double **x = 0; size_t **f = 0; k.bad_first(); k.bad_last(); k.bad_last2(); k.bad_pairs(); k.bad_pairs2(); k.bad_corner(f, 1); k.bad_coords(x, 1); k.bad_share(); k.bad_round(); k.ok_round(); k.bad_overlap(); k.bad_total(3); k.bad_omp(); k.bad_rest(1, 2);
  k.ok_all(); k.ok_le(); k.ok_sum(); k.ok_sum2(); k.ok_min(); k.ok_pairs(); k.ok_pairs2(); k.ok_last(); k.ok_corner(f, 1); k.ok_share(); k.ok_share2(); k.ok_rest(0, 2); return 0; }
