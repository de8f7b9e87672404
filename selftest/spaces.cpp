#include <cstddef>
struct Tree { size_t n; double **p; double *x; size_t size() { return n; } void point(size_t i, double *o) { o[0] = p[i][0]; } void shrink(size_t i, double v) { x[i] = v; } void add(double *q) { p[n] = q; n++; } };
void keep(double *);
int overlapping(double *q, Tree *t, size_t &n, size_t *&list) { n = 1; list = new size_t[1]; list[0] = t->n / 2; return 0; }
bool covered(double *q, Tree *t, size_t skip, size_t skip2) { for (size_t i = 0; i < t->n; i++) if (i != skip && i != skip2 && t->x[i] > q[0]) return true; return false; }
#define HEAD double q[4]; size_t ns = s->size(), ne = e->size(), nc = c->size(); for (size_t k = 0; k < m; k++) { size_t j = list[k];
#define TAIL keep(q); }
void ok_three(Tree *s, Tree *e, Tree *c, size_t m, size_t *list) { HEAD if (j < ns) s->point(j, q); else if (j < ns + ne) e->point(j - ns, q); else c->point(j - ns - ne, q); TAIL }
void bad_shift1(Tree *s, Tree *e, Tree *c, size_t m, size_t *list) { HEAD if (j < ns) s->point(j, q); else if (j < ns + ne) e->point(j, q); else c->point(j - ns - ne, q); TAIL }
void bad_shift2(Tree *s, Tree *e, Tree *c, size_t m, size_t *list) { HEAD if (j < ns) s->point(j, q); else if (j < ns + ne) e->point(j - ns, q); else c->point(j - ns, q); TAIL }
void bad_shift3(Tree *s, Tree *e, Tree *c, size_t m, size_t *list) { HEAD if (j < ns) s->point(j, q); else if (j < ns + ne) e->point(j - ne, q); else c->point(j - ns - ne, q); TAIL }
void bad_shift4(Tree *s, Tree *e, Tree *c, size_t m, size_t *list) { HEAD if (j < ns) s->point(j, q); else if (j < ns + ne) e->shrink(j - ns, 1); else c->shrink(j - ne - nc, 1); TAIL }
void bad_limit(Tree *s, Tree *e, Tree *c, size_t m, size_t *list) { HEAD if (j < ns) s->point(j, q); else if (j < ne) e->point(j - ns, q); else c->point(j - ns - ne, q); TAIL }
void bad_tree1(Tree *s, Tree *e, Tree *c, size_t m, size_t *list) { HEAD if (j < ns) e->point(j, q); else if (j < ns + ne) e->point(j - ns, q); else c->point(j - ns - ne, q); TAIL }
void bad_tree2(Tree *s, Tree *e, Tree *c, size_t m, size_t *list) { HEAD if (j < ns) s->point(j, q); else if (j < ns + ne) c->point(j - ns, q); else c->point(j - ns - ne, q); TAIL }
void bad_tree3(Tree *s, Tree *e, Tree *c, size_t m, size_t *list) { HEAD if (j < ns) s->point(j, q); else if (j < ns + ne) e->point(j - ns, q); else e->point(j - ns - ne, q); TAIL }
void bad_below(Tree *s, Tree *e, Tree *c, size_t m, size_t *list) { HEAD if (j < ns) s->point(j - ns, q); TAIL }
void ok_calls(Tree *s, Tree *e, Tree *c, size_t m, size_t *list) { double q[4]; for (size_t k = 0; k < m; k++) { size_t j = list[k]; if (j < s->size()) s->point(j, q); else if (j < s->size() + e->size()) e->point(j - s->size(), q); else c->point(j - (s->size() + e->size()), q); TAIL }
void bad_calls(Tree *s, Tree *e, Tree *c, size_t m, size_t *list) { double q[4]; for (size_t k = 0; k < m; k++) { size_t j = list[k]; if (j < s->size()) s->point(j, q); else if (j < s->size() + e->size()) e->point(j - s->size(), q); else c->point(j - (s->size() + c->size()), q); TAIL }
void ok_local(Tree *s, Tree *e, Tree *c, size_t m, size_t *list) { HEAD if (j < ns) { s->point(j, q); continue; } size_t i = j - ns; if (i < ne) { e->point(i, q); continue; } i -= ne; c->point(i, q); TAIL }
void bad_local(Tree *s, Tree *e, Tree *c, size_t m, size_t *list) { HEAD if (j < ns) { s->point(j, q); continue; } size_t i = j - ns; if (i < ne) { e->point(i, q); continue; } i -= nc; c->point(i, q); TAIL }
void ok_whole(Tree *s, Tree *e, Tree *c, size_t m, size_t *list) { bool *f = new bool[s->size() + e->size() + c->size()]; HEAD if (j < ns) { s->point(j, q); f[j] = true; } else if (j < ns + ne) { e->point(j - ns, q); f[j] = true; } else { c->point(j - ns - ne, q); f[j] = true; } TAIL delete[] f; }
void ok_merged(Tree *s, Tree *e, Tree *all, size_t m, size_t *list) { double q[4]; size_t ns = s->size(), ne = e->size(); for (size_t i = 0; i < ns; i++) all->point(i, q); for (size_t i = 0; i < ne; i++) all->point(ns + i, q); keep(q); }
void ok_lift(Tree *s, Tree *e, size_t *out, size_t *list, size_t m) { double q[4]; size_t n(0); size_t *a(0); overlapping(q, s, n, a); size_t n2(0); size_t *b(0); overlapping(q, e, n2, b); size_t ns = s->size(); for (size_t i = 0; i < n; i++) out[i] = a[i]; for (size_t i = 0; i < n2; i++) out[n + i] = b[i] + ns; for (size_t k = 0; k < m; k++) { size_t j = out[k]; if (j < ns) s->point(j, q); else e->point(j - ns, q); TAIL }
void bad_lift(Tree *s, Tree *e, size_t *out, size_t *list, size_t m) { double q[4]; size_t n(0); size_t *a(0); overlapping(q, s, n, a); size_t n2(0); size_t *b(0); overlapping(q, e, n2, b); size_t ns = s->size(), ne = e->size(); for (size_t i = 0; i < n; i++) out[i] = a[i]; for (size_t i = 0; i < n2; i++) out[n + i] = b[i] + ne; for (size_t k = 0; k < m; k++) { size_t j = out[k]; if (j < ns) s->point(j, q); else if (j < ns + ne) e->point(j - ns, q); TAIL }
void ok_none(Tree *s, Tree *e, size_t a, size_t b) { double q[4]; size_t ns = s->size(), ne = e->size(), i(a), j(b); if (i >= ns) i = ns; if (j >= ns) j = ns; covered(q, s, i, j); i = a; j = b; if (i < ns) i = ne; else i -= ns; if (j < ns) j = ne; else j -= ns; covered(q, e, i, j); }
void bad_none1(Tree *s, Tree *e, size_t a, size_t b) { double q[4]; size_t ns = s->size(), ne = e->size(), i(a), j(b); if (i >= ns) i = ns; if (j >= ns) j = ne; covered(q, s, i, j); }
void bad_none2(Tree *s, Tree *e, size_t a, size_t b) { double q[4]; size_t ns = s->size(), ne = e->size(), i(a), j(b); if (i < ns) i = ne; else i -= ns; if (j < ns) j = ne; else j -= ne; covered(q, e, i, j); }
void bad_none3(Tree *s, Tree *e, size_t a, size_t b) { double q[4]; size_t ns = s->size(), ne = e->size(), i(a), j(b); if (i < ns) i = ne; else i -= ns; if (j < ns) j = ne; covered(q, e, i, j); }
void ok_arrays(double *seeds, size_t n, double *inner, size_t ni, size_t *list, size_t m) { double q[4]; for (size_t i = 0; i < n; i++) seeds[i] += 1; for (size_t k = 0; k < m; k++) { size_t j = list[k]; q[0] = j < n ? seeds[j] : inner[j - n]; if (j < n) q[1] = seeds[j]; else q[1] = inner[j - n]; TAIL }
void bad_arrays(double *seeds2, size_t n, double *inner2, size_t ni, size_t *list, size_t m) { double q[4]; for (size_t i = 0; i < n; i++) seeds2[i] += 1; for (size_t k = 0; k < m; k++) { size_t j = list[k]; if (j < n) q[0] = seeds2[j]; else q[0] = inner2[j - n]; if (j < n) q[1] = seeds2[j]; else q[1] = inner2[j]; TAIL }
// lists are handed on with their own numbers of entries
double total(size_t n, double *x) { double t = 0; for (size_t i = 0; i < n; i++) t += x[i * 3]; return t; }
void pick(size_t n, double *x, size_t &c);
double ok_handed(size_t na, double *a, size_t nb, double *b) { double *c = new double[na * 3], *d = new double[nb * 3]; for (size_t i = 0; i < na; i++) c[i * 3] = a[i * 3]; for (size_t i = 0; i < nb; i++) d[i * 3] = b[i * 3]; return total(na, c) + total(nb, d) + total(na, a) + total(nb, b); }
double bad_handed(size_t na, double *a, size_t nb, double *b) { double *c = new double[na * 3], *d = new double[nb * 3]; for (size_t i = 0; i < na; i++) c[i * 3] = a[i * 3]; for (size_t i = 0; i < nb; i++) d[i * 3] = b[i * 3]; return total(na, c) + total(na, d) + total(na, a) + total(nb, b); }
void ok_guard(size_t na, double *a, size_t nb, double *b) { double *c = 0, *d = 0; if (na > 0) { c = new double[na * 3]; for (size_t i = 0; i < na; i++) c[i * 3] = a[i * 3]; } if (nb > 0) { d = new double[nb * 3]; for (size_t i = 0; i < nb; i++) d[i * 3] = b[i * 3]; } keep(c); keep(d); }
void bad_guard(size_t na, double *a, size_t nb, double *b) { double *c = 0, *d = 0; if (na > 0) { c = new double[na * 3]; for (size_t i = 0; i < na; i++) c[i * 3] = a[i * 3]; } if (na > 0) { d = new double[nb * 3]; for (size_t i = 0; i < nb; i++) d[i * 3] = b[i * 3]; } keep(c); keep(d); }
