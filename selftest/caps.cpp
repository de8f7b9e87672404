// bad_*: a sphere larger than a limit, or one that grows, or shrinks unreported; ok_*: allowed variants
#include <math.h>
#include <stddef.h>
#include <stdlib.h>
#include <string>
#include <algorithm>
class MeshingSmartTree {
public:
  MeshingSmartTree() {}
  MeshingSmartTree(const std::string &file);
  void get_closest_tree_point(double *x, size_t &i, double &h);
  double *get_tree_point(size_t i);
  void get_tree_point(size_t i, size_t n, double *x);
  double get_tree_point_attrib(size_t i, size_t a);
  void set_tree_point_attrib(size_t i, size_t a, double v);
  void add_tree_point(size_t n, double *x, double *nrm, size_t *a);
  size_t get_num_tree_points() { return _n; }
  size_t _n = 0; double **_p = nullptr;
};
MeshingSmartTree::MeshingSmartTree(const std::string &file) { _n = file.size(); }
void MeshingSmartTree::get_closest_tree_point(double *x, size_t &i, double &h) { i = 0; h = x[0]; }
double *MeshingSmartTree::get_tree_point(size_t i) { return _p[i]; }
void MeshingSmartTree::get_tree_point(size_t i, size_t n, double *x) { for (size_t k = 0; k < n; k++) x[k] = _p[i][k]; }
double MeshingSmartTree::get_tree_point_attrib(size_t i, size_t a) { return _p[i][3 + a]; }
void MeshingSmartTree::set_tree_point_attrib(size_t i, size_t a, double v) { _p[i][3 + a] = v; }
void MeshingSmartTree::add_tree_point(size_t n, double *x, double *, size_t *) { for (size_t k = 0; k < n; k++) _p[_n][k] = x[k]; _n++; }
static double distance(size_t n, double *x, double *y) { double s = 0; for (size_t k = 0; k < n; k++) s += (x[k] - y[k]) * (x[k] - y[k]); return sqrt(s); }
struct G { double distance(size_t n, double *x, double *y); } _geom;
double G::distance(size_t n, double *x, double *y) { return ::distance(n, x, y); }
static MeshingSmartTree *sizing; static const double alpha = 0.35;
static MeshingSmartTree surf, edge, corner, out;

#define CLOSEST(t) { size_t i(0); double h(1e9); t->get_closest_tree_point(s, i, h); r = fmin(r, alpha * h); }
#define NEAR for (size_t i = 0; i < spheres->get_num_tree_points(); i++) { double *q = spheres->get_tree_point(i); double d = _geom.distance(3, s, q); r = fmin(r, d / 0.9); r = fmin(r, q[3] + Lip * d); }
#define SZ if (sizing != 0) { size_t i(0); double h(1e9); sizing->get_closest_tree_point(s, i, h); double z = sizing->get_tree_point(i)[3]; if (r > z) r = z; }
#define ARGS MeshingSmartTree *sf, MeshingSmartTree *ed, MeshingSmartTree *co, MeshingSmartTree *spheres, double rmax, double Lip, double *s
void ok_all(ARGS) { double r = rmax; CLOSEST(sf) CLOSEST(ed) CLOSEST(co) NEAR SZ s[3] = r; spheres->add_tree_point(4, s, 0, 0); }
void ok_ternary(ARGS) { double r = 1e9; CLOSEST(sf) CLOSEST(ed) CLOSEST(co) NEAR SZ s[3] = r < rmax ? r : rmax; spheres->add_tree_point(4, s, 0, 0); }
void ok_stdmin(ARGS) { double r = 1e9; CLOSEST(sf) CLOSEST(ed) CLOSEST(co) NEAR SZ s[3] = std::min(r, rmax); spheres->add_tree_point(4, s, 0, 0); }
void ok_later(ARGS) { double r = 1e9; CLOSEST(sf) CLOSEST(ed) CLOSEST(co) NEAR SZ s[3] = r; if (s[3] > rmax) s[3] = rmax; spheres->add_tree_point(4, s, 0, 0); }
void ok_empty(ARGS) { double r = rmax; CLOSEST(sf) CLOSEST(ed) if (co->get_num_tree_points() > 0) CLOSEST(co) if (spheres->get_num_tree_points() > 0) NEAR SZ s[3] = r; spheres->add_tree_point(4, s, 0, 0); }
void bad_no_rmax(ARGS) { double r = 1e9; CLOSEST(sf) CLOSEST(ed) CLOSEST(co) NEAR SZ s[3] = r; spheres->add_tree_point(4, s, 0, 0); }
void bad_no_sizing(ARGS) { double r = rmax; CLOSEST(sf) CLOSEST(ed) CLOSEST(co) NEAR s[3] = r; spheres->add_tree_point(4, s, 0, 0); }
void bad_two_features(ARGS) { double r = rmax; CLOSEST(sf) CLOSEST(ed) CLOSEST(ed) NEAR SZ s[3] = r; spheres->add_tree_point(4, s, 0, 0); }
void bad_wrong_way(ARGS) { double r = 1e9; CLOSEST(sf) CLOSEST(ed) CLOSEST(co) NEAR SZ s[3] = r; if (s[3] < rmax) s[3] = rmax; spheres->add_tree_point(4, s, 0, 0); }
void bad_overwritten(ARGS) { double r = rmax; CLOSEST(sf) CLOSEST(ed) NEAR SZ CLOSEST(co) { size_t i(0); double h(1e9); co->get_closest_tree_point(s, i, h); r = alpha * h; } s[3] = r; spheres->add_tree_point(4, s, 0, 0); }
void bad_one_path(ARGS) { double r = rmax; CLOSEST(sf) CLOSEST(ed) CLOSEST(co) NEAR if (s[0] > 3) { SZ } s[3] = r; spheres->add_tree_point(4, s, 0, 0); }
void bad_max(ARGS) { double r = fmax(rmax, s[2]); CLOSEST(sf) CLOSEST(ed) CLOSEST(co) NEAR SZ s[3] = r; spheres->add_tree_point(4, s, 0, 0); }
void bad_no_lip(ARGS) { double r = rmax; CLOSEST(sf) CLOSEST(ed) CLOSEST(co) for (size_t i = 0; i < spheres->get_num_tree_points(); i++) { double *q = spheres->get_tree_point(i); double d = _geom.distance(3, s, q); r = fmin(r, d / 0.9); } SZ s[3] = r; spheres->add_tree_point(4, s, 0, 0); }

void ok_seed(MeshingSmartTree *t, MeshingSmartTree *seeds, double *a, double *b, double *c, double *x) { t->get_tree_point(1, 4, a); t->get_tree_point(2, 4, b); t->get_tree_point(3, 4, c); x[3] = fmin(a[3], b[3]); x[3] = fmin(x[3], c[3]); seeds->add_tree_point(4, x, 0, 0); }
void bad_seed(MeshingSmartTree *t, MeshingSmartTree *seeds, double *a, double *b, double *c, double *x) { t->get_tree_point(1, 4, a); t->get_tree_point(2, 4, b); t->get_tree_point(3, 4, c); x[3] = fmin(a[3], b[3]); seeds->add_tree_point(4, x, 0, 0); }

void ok_shrink(MeshingSmartTree *t, size_t i, double v, bool &shrunk) { double r = t->get_tree_point_attrib(i, 0); if (r > v) { t->set_tree_point_attrib(i, 0, v); shrunk = true; } }
void ok_shrink_before(MeshingSmartTree *t, size_t i, double v, bool &shrunk) { double *q = t->get_tree_point(i); bool larger = v < q[3]; if (larger) { shrunk = true; q[3] = v; } }
void ok_factor(MeshingSmartTree *t, size_t i, bool &shrunk) { t->get_tree_point(i)[3] *= 0.9; shrunk = true; }
bool ok_result(MeshingSmartTree *t, size_t n) { bool fine = true; for (size_t i = 0; i < n; i++) if (i % 3 == 1) { double *q = t->get_tree_point(i); q[3] *= 0.5; fine = false; } return fine; }
void ok_again(MeshingSmartTree *t, size_t n) { while (true) { bool shrunk(false); ok_shrink(t, n, 0.5, shrunk); if (shrunk) continue; if (!ok_result(t, n)) continue; break; } }
void ok_local(MeshingSmartTree *t, size_t n, double v) { while (true) { bool done = true; for (size_t i = 0; i < n; i++) { double *q = t->get_tree_point(i); if (q[3] <= v) continue; q[3] = v; done = false; } if (done) break; } }
void bad_grow(MeshingSmartTree *t, size_t i, double v, bool &shrunk) { double r = t->get_tree_point_attrib(i, 0); if (r < v) { t->set_tree_point_attrib(i, 0, v); shrunk = true; } }
void bad_other(MeshingSmartTree *t, size_t i, size_t j, double v, bool &shrunk) { double r = t->get_tree_point_attrib(i, 0); if (r > v) { t->set_tree_point_attrib(j, 0, v); shrunk = true; } }
void bad_factor(MeshingSmartTree *t, size_t i, bool &shrunk) { t->get_tree_point(i)[3] *= 1.1; shrunk = true; }
void bad_silent(MeshingSmartTree *t, size_t i, double v, bool &shrunk) { double r = t->get_tree_point_attrib(i, 0); if (r > v) t->set_tree_point_attrib(i, 0, v); }
void bad_forgotten(MeshingSmartTree *t, size_t n, double v) { while (true) { bool done = true; for (size_t i = 0; i < n; i++) { done = true; double *q = t->get_tree_point(i); if (q[3] <= v) continue; q[3] = v; done = false; } if (done) break; } }
void bad_ignored(MeshingSmartTree *t, size_t n) { while (true) { bool shrunk(false); ok_shrink(t, n, 0.5, shrunk); if (n++ < 5) continue; break; } }
void bad_ignored_result(MeshingSmartTree *t, size_t n) { while (true) { ok_result(t, n); if (n++ < 5) continue; break; } }

void run(const std::string *tokens, double *s, size_t n) {
  std::string file; double rmax = 1, lip = 1;
  for (size_t i = 0; i < n; i++) { if (tokens[0] == "SIZING_FILE") file = tokens[2]; if (tokens[0] == "R_MAX") rmax = atof(tokens[2].c_str()); if (tokens[0] == "LIP_CONST") lip = atof(tokens[2].c_str()); }
  if (file != "") sizing = new MeshingSmartTree(file);
#define RUN(f) f(&surf, &edge, &corner, &out, rmax, lip, s);
  RUN(ok_all) RUN(ok_ternary) RUN(ok_stdmin) RUN(ok_later) RUN(ok_empty) RUN(bad_no_rmax) RUN(bad_no_sizing) RUN(bad_two_features) RUN(bad_wrong_way) RUN(bad_overwritten) RUN(bad_one_path) RUN(bad_max) RUN(bad_no_lip)
}
