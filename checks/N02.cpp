// N02: frame-range expressions, exhaustively for short strings over the characters that matter, against a parser written from the description.
#include "common.h"
#include "Field3D/FileSequence.h"
#include <unistd.h>

static bool digits(const std::string &s) { for (char ch : s) if (!isdigit(ch)) return false; return !s.empty(); }
static std::vector<std::string> model(const std::string &e) {
  std::vector<std::string> r; size_t m = std::string::npos; for (size_t i = 0; i < e.size(); ++i) if (e[i] == '#' || e[i] == '@') { if (m != std::string::npos) return r; m = i; } if (m == std::string::npos) return r;
  size_t d = m; while (d > 0 && isdigit(e[d - 1])) --d; std::string end = e.substr(d, m - d); if (!digits(end) || d == 0 || e[d - 1] != '-') return r;
  size_t s = d - 1; while (s > 0 && isdigit(e[s - 1])) --s; std::string start = e.substr(s, d - 1 - s); if (!digits(start)) return r;
  if (start.size() > 9 || end.size() > 9) return r; // not reached by short strings
  for (long n = atol(start.c_str()), z = atol(end.c_str()); n <= z; ++n) r.push_back(VS() << e.substr(0, s) << n << e.substr(m + 1)); return r;
}
static void verify(Ctx &c, const std::string &e, bool exists) {
  c.step(); std::vector<std::string> want = exists ? std::vector<std::string>(1, e) : model(e); FileSequence f(e); c.log(e);
  if (f.size() != f.filenames().size()) c.fail("size differs from the list", e);
  if (f.filenames() != want) c.fail(want.empty() ? "a string that is no range expands to files" : f.size() != want.size() ? "the number of files differs" : "a file name differs", VS() << "'" << e << "' gives " << f.size() << " names" << (f.size() ? ", first '" + f.filename(0) + "'" : std::string()) << ", expected " << want.size());
  for (size_t i = 0; i < want.size(); ++i) if (f.filename(i) != want[i]) c.fail("filename()", e);
  c.state(std::hash<std::string>()(e));
}
struct InDir { std::string old; InDir(const std::string &d) { char b[4096]; old = getcwd(b, sizeof b) ? b : "/"; if (chdir(d.c_str())) {} } ~InDir() { if (chdir(old.c_str())) {} } };
void vp::registerScenarios(bool th) {
  quietInit(); Msg::setVerbosity(0);
  scenario("short strings", [=](Ctx &c) { InDir in(c.tmpDir); static const char CH[] = "a12-#@."; int n = c.choose(th ? 8 : 7); std::string s; for (int k = 0; k < n; ++k) s += CH[c.choose(7)]; if (s == "." || s == "..") return; verify(c, s, false); }, opt(false, 3));
  scenario("around a range", [=](Ctx &c) { InDir in(c.tmpDir); static const char *B[] = {"", "a", "a.", "/x/y.", "a-", "a1-", "a 1.", "3", "a#", "-"}, *S[] = {"", "0", "1", "7", "9", "10", "001", "99", "123", "-1", "x"}, *D[] = {"-", "", "--", "_", " -"}, *E[] = {"", "0", "1", "2", "9", "11", "010", "101", "125", "1000", "y"}, *M[] = {"#", "@", "", "##", "%", "####"}, *X[] = {"", ".f3d", "1", "-2@", "-3", "@"};
    std::string b = B[c.choose(10)], s = S[c.choose(11)], d = D[c.choose(5)], e = E[c.choose(11)], m = M[c.choose(6)], x = X[c.choose(6)]; verify(c, b + s + d + e + m + x, false); }, opt(false, 3));
  scenario("numbers too large", [=](Ctx &c) { InDir in(c.tmpDir); static const char *N[] = {"2147483647", "2147483648", "4294967297", "9999999999", "99999999999999999999", "18446744073709551617"}; int i = c.choose(6), j = c.choose(6); c.step(); std::string e = std::string("a") + N[i] + "-" + N[j] + "#.f3d"; FileSequence f(e); // numbers that cannot be represented: nothing; those that can: exactly
    size_t want = i == 0 && j == 0 ? 1 : 0; if (f.size() != want || (want && f.filename(0) != "a2147483647.f3d")) c.fail("a range of numbers too large", VS() << e << " gives " << f.size()); { FileSequence g(std::string("a2-") + "1" + N[1 + c.choose(5)] + "@"); if (g.size()) c.fail("a range of numbers too large", "end"); } c.state(i * 6 + j); });
  scenario("an existing file", [=](Ctx &c) { InDir in(c.tmpDir); static const char *F[] = {"a1-2#", "a.f3d", "a#", "1-2@.f3d", "#", "a1-3@", "x y-2#"}; std::string f = F[c.choose(7)], e = F[c.choose(7)]; { std::ofstream o(f); o << "x"; } verify(c, e, e == f); unlink(f.c_str()); });
}
