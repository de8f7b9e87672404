// Linear real arithmetic over named atoms: constraints, Fourier-Motzkin refutation, for the analyses that follow paths.
#pragma once
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
namespace vcsa {
struct LinD {
  std::map<std::string, double> t; double c = 0; bool ok = true;
  static LinD K(double v) { LinD r; r.c = v; return r; }
  static LinD A(const std::string &a, double k = 1) { LinD r; r.t[a] = k; return r; }
  LinD add(const LinD &o, double k) const { LinD r = *this; for (auto &p : o.t) { double &x = r.t[p.first]; x += k * p.second; if (std::fabs(x) < 1e-15) r.t.erase(p.first); } r.c += k * o.c; r.ok = ok && o.ok; return r; }
  LinD scale(double k) const { LinD r; r.ok = ok; r.c = c * k; if (k != 0) for (auto &p : t) r.t[p.first] = p.second * k; return r; }
  bool isConst() const { return ok && t.empty(); }
  bool single(std::string &a, double &k) const { if (!ok || t.size() != 1 || c != 0) return false; a = t.begin()->first; k = t.begin()->second; return true; }
  bool has(const std::string &s) const { for (auto &p : t) if (p.first.find(s) != std::string::npos) return true; return false; }
  std::string str() const { std::string s; char b[64]; for (auto &p : t) { snprintf(b, sizeof b, "%s%.9g*", p.second >= 0 ? "+" : "", p.second); s += (p.second == 1 ? "+" : p.second == -1 ? "-" : std::string(b)) + p.first + " "; } if (c != 0 || t.empty()) { snprintf(b, sizeof b, "%+.9g", c); s += b; } return s; }
};
// products of atoms are atoms of their own: factors sorted and joined by \1
inline std::vector<std::string> factors(const std::string &k) { std::vector<std::string> f; size_t i = 0; while (true) { auto j = k.find('\1', i); f.push_back(k.substr(i, j - i)); if (j == std::string::npos) break; i = j + 1; } return f; }
inline std::string product(std::vector<std::string> f) { std::sort(f.begin(), f.end()); std::string k; for (auto &q : f) k += (k.empty() ? "" : "\1") + q; return k; }
inline LinD polyMul(const LinD &a, const LinD &b) {
  if (a.isConst()) return b.scale(a.c); if (b.isConst()) return a.scale(b.c);
  LinD r = LinD::K(a.c * b.c); r.ok = a.ok && b.ok; for (auto &x : a.t) r = r.add(LinD::A(x.first), x.second * b.c); for (auto &y : b.t) r = r.add(LinD::A(y.first), y.second * a.c);
  for (auto &x : a.t) for (auto &y : b.t) { auto f = factors(x.first), g = factors(y.first); f.insert(f.end(), g.begin(), g.end()); r = r.add(LinD::A(product(f)), x.second * y.second); }
  return r;
}
struct Con { LinD e; bool strict = false; std::string str() const { return e.str() + (strict ? ">0" : ">=0"); } };
// are the constraints unsatisfiable over the reals?
inline bool refute(std::vector<Con> cs) {
  for (int round = 0; round < 40; round++) {
    std::set<std::string> atoms; std::vector<Con> keep; std::set<std::string> seen;
    for (auto &c : cs) {
      if (!c.e.ok) continue;
      if (c.e.t.empty()) { if (c.e.c < -1e-13 || (c.strict && c.e.c <= 1e-16)) return true; continue; }
      double n = std::fabs(c.e.t.begin()->second); Con d = c; d.e = c.e.scale(1 / n);
      if (seen.insert(d.str()).second) { keep.push_back(d); for (auto &p : d.e.t) atoms.insert(p.first); }
    }
    cs = keep; if (atoms.empty()) return false;
    std::string best; long bc = -1;
    for (auto &a : atoms) { long p = 0, n = 0; for (auto &c : cs) { auto it = c.e.t.find(a); if (it == c.e.t.end()) continue; (it->second > 0 ? p : n)++; } long cost = p * n - p - n; if (bc == -1 || cost < bc || best.empty()) { bc = cost; best = a; } }
    std::vector<Con> out, P, N;
    for (auto &c : cs) { auto it = c.e.t.find(best); if (it == c.e.t.end()) out.push_back(c); else if (it->second > 0) P.push_back(c); else N.push_back(c); }
    for (auto &p : P) for (auto &n : N) { Con r; double kp = p.e.t.at(best), kn = -n.e.t.at(best); r.e = p.e.scale(1 / kp).add(n.e, 1 / kn); r.e.t.erase(best); r.strict = p.strict || n.strict; out.push_back(r); }
    if (out.size() > 3000) return false;
    cs = out;
  }
  return false;
}
inline bool entails(const std::vector<Con> &cs, const LinD &goal, bool strict = false) { // goal >= 0 (or > 0)
  if (!goal.ok) return false;
  std::vector<Con> q = cs; Con n; n.e = goal.scale(-1); n.strict = !strict; q.push_back(n); return refute(q);
}
} // namespace vcsa
