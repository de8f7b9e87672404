#include <omp.h>
struct P { double **slot; int *cnt; omp_lock_t lk; int total; double *buf; };
void bad_counter(int *n) {
  int valid = 0;
#pragma omp parallel for
  for (int i = 0; i < 100; i++) { if (n[i]) valid++; }
  n[0] = valid;
}
void bad_shared_buffer(double *out, double *x, int n) {
#pragma omp parallel for
  for (int i = 0; i < n; i++) { x[0] = i; out[i] = x[0]; }
}
void bad_neighbour(double *a, int n) {
#pragma omp parallel
  { int t = omp_get_thread_num(); a[t + 1] = a[t]; }
}
void bad_two_locks(P *p, omp_lock_t *q) {
#pragma omp parallel
  { int t = omp_get_thread_num(); if (t) { omp_set_lock(&p->lk); p->total += 1; omp_unset_lock(&p->lk); } else { omp_set_lock(q); p->total += 2; omp_unset_lock(q); } }
}
void ok_slots(P *p) {
#pragma omp parallel
  { int t = omp_get_thread_num(); p->cnt[t] = t; p->slot[t][0] = 1; p->slot[t][1] = p->slot[t][0]; }
}
void ok_loop(double *a, double *b, int n) {
#pragma omp parallel for
  for (int i = 0; i < n; i++) for (int d = 0; d < 3; d++) a[i * 3 + d] = b[d];
}
void ok_locked(P *p) {
#pragma omp parallel
  { omp_set_lock(&p->lk); p->total += 1; omp_unset_lock(&p->lk); }
}
void ok_critical(P *p) {
#pragma omp parallel
  {
#pragma omp critical
    p->total += 1;
  }
}
void ok_reduction(int *a, int n) {
  int s = 0;
#pragma omp parallel for reduction(+ : s)
  for (int i = 0; i < n; i++) s += a[i];
  a[0] = s;
}
void ok_private(double *out, int n) {
#pragma omp parallel for
  for (int i = 0; i < n; i++) { double *x = new double[3]; x[0] = i; out[i] = x[0]; delete[] x; }
}
