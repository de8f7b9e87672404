#include <cmath>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
extern "C" void omp_set_num_threads(int);
void keep(double);
double x[4];
__attribute__((noinline)) void bad_limit(double r) { if (x[3] > r) x[3] = r; }
__attribute__((noinline)) void bad_limit2(double r) { x[3] = fmin(x[2], r); }
__attribute__((noinline)) void ok_limit(double r) { if (x[3] > r) x[3] = r; x[2] = fmin(r, x[2]); x[1] = x[1] < r ? x[1] : r; }
__attribute__((noinline)) void bad_floor(double r) { if (x[3] < r) x[3] = r; }
__attribute__((noinline)) void bad_slope(double r) { x[3] = x[2] + r * x[1]; }
__attribute__((noinline)) void bad_slope2(double r) { x[3] = x[2] / (1 - r); }
__attribute__((noinline)) void ok_slope(double lip) { x[3] = x[2] / (1 - lip) + lip * x[1]; }
__attribute__((noinline)) void bad_compared(double lip) { if (x[1] < lip) keep(x[2]); }
__attribute__((noinline)) void ok_compared(double rmin, double c) { if (x[1] < rmin) keep(x[2]); if (x[2] > c) keep(x[1]); }
__attribute__((noinline)) void bad_mixed(double r) { keep(r); }
__attribute__((noinline)) void ok_same(double r) { keep(r); }
__attribute__((noinline)) void bad_constant(double lip) { keep(x[0] + lip * x[1]); }
__attribute__((noinline)) void bad_scaled(double lip) { keep(x[0] + lip * x[1]); }
__attribute__((noinline)) void bad_replaced(double lip) { if (x[0] > 1) lip = 0.1; keep(x[0] + lip * x[1]); }
__attribute__((noinline)) void bad_degrees(double a) { keep(cos(a)); }
__attribute__((noinline)) void bad_cosine(double lip) { keep(cos(lip * 3.141592653589793 / 180.0)); }
__attribute__((noinline)) double ok_degrees(double a) { return cos(a * 3.141592653589793 / 180.0); }
__attribute__((noinline)) void bad_threads(int n, double rmin) { omp_set_num_threads(int(rmin)); }
__attribute__((noinline)) void ok_threads(int n) { omp_set_num_threads(n); }
__attribute__((noinline)) int ok_read(std::string name) { std::ifstream f(name.c_str()); return f.good(); }
int main() {
  double rmin(0), rmax(1e9), lip(0.1), angle(20); int n(1); bool ok_vcg(false), bad_default(true), bad_cleared(false); std::string file, sizing; std::string line;
  while (getline(std::cin, line)) {
    std::istringstream s(line); std::vector<std::string> t; std::string w; while (s >> w) t.push_back(w); if (t.size() < 3) continue;
    if (t[0] == "R_MIN") rmin = atof(t[2].c_str());
    if (t[0] == "R_MAX") rmax = atof(t[2].c_str());
    if (t[0] == "LIP_CONST") lip = atof(t[2].c_str());
    if (t[0] == "VC_ANGLE") angle = atof(t[2].c_str());
    if (t[0] == "NUM_THREADS") n = atoi(t[2].c_str());
    if (t[0] == "INPUT_MESH_FILE") file = t[2];
    if (t[0] == "GENERATE_VCG_FILE") ok_vcg = true;
    if (t[0] == "GENERATE_EXODUS_FILE") bad_default = true;
    if (t[0] == "IMPOSE_MONITORING_POINTS") bad_cleared = false;
  }
  bad_limit(rmin); bad_limit2(lip); ok_limit(rmax); bad_floor(rmax); bad_slope(rmax); bad_slope2(rmin); ok_slope(lip); bad_compared(lip); bad_mixed(rmin); bad_mixed(rmax); ok_same(rmin); ok_same(rmin); bad_constant(lip); bad_constant(0.25); bad_scaled(lip); bad_scaled(0.5 * lip); bad_replaced(lip); bad_degrees(angle); bad_cosine(lip); double c = ok_degrees(angle); ok_compared(rmin, c); bad_threads(n, rmin); ok_threads(n); ok_read(file);
  if (ok_vcg) keep(1); if (bad_default) keep(2); if (bad_cleared) keep(3); return 0;
}
