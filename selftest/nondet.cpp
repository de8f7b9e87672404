#include <ctime>
#include <cstdlib>
#include <set>
#include <fstream>
#include <iostream>
#include <omp.h>
#include <chrono>
struct T { double t; size_t seed; double *out; };
void bad_branch(T *p) { if (time(0) > 5) p->out[0] = 1; }
void bad_store(T *p) { p->out[1] = (double)clock(); }
static size_t pick() { return (size_t)std::chrono::steady_clock::now().time_since_epoch().count(); }
void seed_it(T *p) { p->seed = pick(); }
void bad_use_of_seed(T *p) { p->out[p->seed % 3] = 0; }
void bad_file(const char *n) { std::ofstream f(n); f << clock(); }
void bad_rand(double *x) { x[0] = rand() / 3.0; }
void bad_address(int *a, int *b, int *r) { if (a < b) *r = 1; }
void bad_critical(double *s) {
#pragma omp parallel
  {
#pragma omp critical
    s[0] = s[0] * 2 + omp_get_thread_num();
  }
}
void bad_fp_reduction(double *a, int n) {
  double s = 0;
#pragma omp parallel for reduction(+ : s)
  for (int i = 0; i < n; i++) s += a[i];
  a[0] = s;
}
void bad_dynamic(double *a, int n) {
#pragma omp parallel for schedule(dynamic)
  for (int i = 0; i < n; i++) a[i] = omp_get_thread_num();
}
void ok_timer(T *p) { double s = omp_get_wtime(); p->out[0] = 1; p->t += omp_get_wtime() - s; std::cout << p->t; }
void ok_count(int *s) {
#pragma omp parallel
  {
#pragma omp critical
    s[0] += 1;
  }
}
void ok_max(int *s) {
#pragma omp parallel
  {
    int t = omp_get_thread_num();
#pragma omp critical
    if (t > s[0]) s[0] = t;
  }
}
void ok_static(double *a, int n) {
#pragma omp parallel for
  for (int i = 0; i < n; i++) a[i] = i;
}
