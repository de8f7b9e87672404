#include <string>
#include <vector>
#include <cstdlib>
std::vector<std::string> split(const std::string &s);
void use(const std::string &s);
void bad_no_test(const std::string &l) { std::vector<std::string> t = split(l); use(t[0]); }
void bad_too_weak(const std::string &l) { std::vector<std::string> t = split(l); if (t.size() < 3) return; use(t[3]); }
void bad_other_vector(const std::string &l) { std::vector<std::string> t = split(l), u = split(l); if (u.size() < 3) return; use(t[2]); }
void bad_changed_after_test(const std::string &l) { std::vector<std::string> t = split(l); if (t.size() < 3) return; t.pop_back(); use(t[2]); }
void bad_loop(const std::string &l, size_t n) { std::vector<std::string> t = split(l); if (t.size() < n) return; for (size_t i = 0; i <= n; i++) use(t[i]); }
void bad_front(const std::string &l) { std::vector<std::string> t = split(l); use(t.front()); }
void ok_test(const std::string &l) { std::vector<std::string> t = split(l); if (t.size() < 3) return; use(t[0]); use(t[2]); }
void ok_nested(const std::string &l) { std::vector<std::string> t = split(l); if (!t.empty() && t[0] == "a" && t.size() >= 2) use(t[1]); }
void ok_loop(const std::string &l, size_t n) { std::vector<std::string> t = split(l); if (t.size() <= n) return; for (size_t i = 0; i <= n; i++) use(t[i]); }
void ok_all(const std::string &l) { std::vector<std::string> t = split(l); for (size_t i = 0; i < t.size(); i++) use(t[i]); }
void ok_flag(const std::string &l) { std::vector<std::string> t = split(l); bool has_value = t.size() > 2; if (has_value) use(t[2]); }
void ok_back(const std::string &l) { std::vector<std::string> t = split(l); if (t.size() > 0) use(t.back()); }
