#include <fstream>
#include <string>
static void log(const char *) {}
int bad_open(std::string n, double &x) { std::ifstream f(n.c_str()); if (f.is_open()) f >> x; return 0; }
int bad_open_branch(std::string n, double &x, bool q) { std::ifstream f(n.c_str()); if (!f.good()) { if (q) return 1; return 0; } f >> x; return 0; }
int bad_write(std::string n, double x) { std::fstream f(n.c_str(), std::ios::out); f << x << std::endl; return 0; }
int bad_write_early_test(std::string n, double x) { std::fstream f(n.c_str(), std::ios::out); if (!f) return 1; f << x << std::endl; return 0; }
int bad_write_unflushed(std::string n, double x) { std::fstream f(n.c_str(), std::ios::out); f << x; return f.fail() ? 1 : 0; }
int ok_open(std::string n, double &x) { std::ifstream f(n.c_str()); if (!f.is_open() || !f.good()) return 1; f >> x; return 0; }
int ok_open_else(std::string n, double &x) { std::ifstream f(n.c_str()); if (f.is_open() && f.good()) { f >> x; } else { log("no"); return 2; } return 0; }
int ok_write(std::string n, double x) { std::ofstream f(n.c_str()); f << x; f.close(); if (f.fail()) return 1; return 0; }
int ok_write_endl(std::string n, double x) { std::fstream f(n.c_str(), std::ios::out); for (int i = 0; i < 3; i++) f << x << std::endl; return f.good() ? 0 : 1; }
int bad_dropped(std::string n, double &x) { ok_open(n, x); return 0; }
int bad_overwritten(std::string n, double &x) { int s = ok_open(n, x); s = ok_open_else(n, x); return s; }
int bad_tested_only(std::string n, double &x) { if (ok_open(n, x) != 0) log("failed"); return 0; }
int ok_passed(std::string n, double &x) { if (ok_open(n, x) != 0) return 1; return ok_open_else(n, x); }
int ok_collected(std::string n, double x) { int s = 0; for (int i = 0; i < 3; i++) if (ok_write(n, x)) s = 1; s |= ok_write_endl(n, x); if (s == 0) log("done"); return s; }
