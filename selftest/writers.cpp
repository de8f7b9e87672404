// what the file-content rules must and must not report
#include <fstream>
#include <iomanip>
#include <string>
#include <vector>
#include <cstddef>
struct S {
  int ok_obj(std::string n, size_t np, double** p, size_t nf, size_t** f) {
    std::fstream file(n.c_str(), std::ios::out);
    for (size_t i = 0; i < np; i++) { double* q = p[i]; file << std::setprecision(17) << "v"; for (int d = 0; d < 3; d++) file << ' ' << q[d]; file << "\n"; }
    for (size_t i = 0; i < nf; i++) { file << "f"; for (size_t j = 0; j < 3; j++) file << " " << f[i][j + 1] + 1; file << std::endl; }
    file.close(); return file.fail() ? 1 : 0;
  }
  int bad_obj(std::string n, size_t np, double** p, size_t nf, size_t** f) {
    std::fstream file(n.c_str(), std::ios::out);
    for (size_t i = 0; i < np; i++) file << "v " << p[i][0] << " " << p[i][2] << " " << p[i][1] << "\n";
    for (size_t i = 0; i < nf; i++) { file << "f"; for (size_t j = 0; j < 3; j++) file << " " << f[i][j]; file << std::endl; }
    file.close(); return file.fail() ? 1 : 0;
  }
  int ok_ply(std::string n, size_t nv, double* v, size_t nf, size_t** f, bool* keep) {
    size_t m = 0; for (size_t i = 0; i < nf; i++) { if (!keep[i]) continue; m++; }
    std::ofstream file(n.c_str()); file << "ply\n" << "element vertex " << nv << "\nproperty float x\nproperty float y\nproperty float z\n" << "element face " << m << "\nend_header\n";
    for (size_t i = 0; i < nv; i++) file << v[3 * i] << " " << v[3 * i + 1] << " " << v[3 * i + 2] << "\n";
    for (size_t i = 0; i < nf; i++) if (keep[i]) { file << f[i][0]; for (size_t j = 1; j <= f[i][0]; j++) file << " " << f[i][j]; file << "\n"; }
    file.close(); return file.fail() ? 1 : 0;
  }
  int bad_ply(std::string n, size_t nv, double* v, size_t nf, size_t** f, bool* keep) {
    std::ofstream file(n.c_str()); file << "ply\n" << "element vertex " << nv << "\nproperty float x\nproperty float y\nproperty float z\n" << "element face " << nf << "\nend_header\n";
    for (size_t i = 0; i < nv; i++) file << v[3 * i] << " " << v[3 * i + 1] << " " << v[3 * i + 2] << "\n";
    for (size_t i = 0; i < nf; i++) if (keep[i]) { file << f[i][0]; for (size_t j = 1; j <= f[i][0]; j++) file << " " << f[i][j]; file << "\n"; }
    file.close(); return file.fail() ? 1 : 0;
  }
  int bad_csv(std::string n, size_t k, double** s) {
    std::ofstream file(n.c_str()); file << "x,y,z,r" << std::endl; for (size_t i = 0; i < k; i++) { file << std::setprecision(16) << s[i][0] << "," << s[i][1] << "," << s[i][2] << std::endl; }
    file.close(); return file.fail() ? 1 : 0;
  }
};
int main(int c, char** v) { S s; double** p = 0; size_t** f = 0; bool* k = 0; return s.ok_obj(v[0], c, p, c, f) + s.bad_obj(v[0], c, p, c, f) + s.ok_ply(v[0], c, 0, c, f, k) + s.bad_ply(v[0], c, 0, c, f, k) + s.bad_csv(v[0], c, p); }
