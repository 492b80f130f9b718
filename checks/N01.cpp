// N01: name patterns, exhaustively for short patterns, lists of patterns, names and attributes.
#include "common.h"
#include "Field3D/PatternMatch.h"

// shell wildcards: * any text, ? one character, [ab] [a-c] [!a] one of a set; a set that is not closed is an ordinary character
static bool wild(const char *p, const char *s) {
  for (; *p; ++p) {
    if (*p == '*') { for (;; ++s) { if (wild(p + 1, s)) return true; if (!*s) return false; } }
    if (!*s) return false;
    if (*p == '?') { ++s; continue; }
    if (*p == '[') { const char *q = p + 1; bool neg = *q == '!' || *q == '^', hit = false; if (neg) ++q; const char *b = q; while (*q && (*q != ']' || q == b)) { if (q[1] == '-' && q[2] && q[2] != ']') { if (*q <= *s && *s <= q[2]) hit = true; q += 3; } else { if (*q == *s) hit = true; ++q; } } if (*q) { if (hit == neg) return false; p = q; ++s; continue; } }
    if (*p != *s) return false; ++s;
  }
  return !*s;
}
// nameless: the form that knows the attribute only
static bool model(const std::string *name, const std::string &attr, const std::vector<std::string> &pats, bool flag) {
  if (pats.empty()) return flag; bool in = false, out = false;
  for (std::string p : pats) { if (p.empty()) continue; bool ex = p[0] == '-' || p[0] == '^'; if (ex) p = p.substr(1); size_t k = p.find(':'); std::string s = attr; if (k != std::string::npos) { if (name) s = *name + ":" + attr; else p = p.substr(k + 1); } if (wild(p.c_str(), s.c_str())) (ex ? out : in) = true; }
  return in && !out;
}
static void verify(Ctx &c, const std::string &n, const std::string &a, const std::vector<std::string> &p) {
  c.step(); std::string joined, shown; for (auto &q : p) { joined += (joined.empty() ? "" : " ") + q; shown += "'" + q + "' "; }
  static DenseField<float>::Ptr f(new DenseField<float>); f->name = n; f->attribute = a; bool noEmpty = true; for (auto &q : p) noEmpty &= !q.empty();
  for (int e = 0; e < 2; ++e) { MatchFlags fl = e ? MatchEmptyPattern : MatchNoFlags; bool want = model(&n, a, p, e), wantA = model(0, a, p, e); std::string d = VS() << "name '" << n << "' attribute '" << a << "' patterns " << shown << "flag " << e;
    if (match(n, a, p, fl) != want) c.fail(p.empty() ? "an empty list" : want ? "a matching field is not selected" : "a field is selected that does not match", d);
    if (match(f.get(), p, fl) != want) c.fail("the field form differs", d); if (match(a, p, fl) != wantA) c.fail("the attribute form differs", d);
    if (noEmpty) { if (match(n, a, joined, fl) != want) c.fail("the string form differs", d); if (match(f.get(), joined, fl) != want) c.fail("the field and string form differs", d); if (match(a, joined, fl) != wantA) c.fail("the attribute and string form differs", d); if (match(n, a, "  " + joined + " ", fl) != want) c.fail("spaces around patterns change the result", d); }
    if (e) { if (match(n, a, p) != want || match(f.get(), p) != want || match(a, p) != wantA) c.fail("the default flag", d); } }
}
static const char *TOK[] = {"a", "b", "*", "?", ":", "-", "^", "[ab]", "[!a]", "\\", "/", "."};
static const char *NAMES[] = {"", "a", "b", "ab", "a:b", "-a"}, *ATTR[] = {"", "a", "b", "ab", "ba", "aab", "a:b", "-a", "^b", "[", "\\a", "/a", ".a", "A", "abba"};
static std::string pattern(Ctx &c, int len) { std::string p; for (int k = 0; k < len; ++k) p += TOK[c.choose(12)]; return p; }
void vp::registerScenarios(bool th) {
  quietInit();
  int L = th ? 5 : 4;
  scenario("one pattern", [=](Ctx &c) { int n = c.choose(L + 1); std::string p = pattern(c, n); c.log(p); for (auto a : ATTR) for (auto nm : NAMES) verify(c, nm, a, {p}); c.state(std::hash<std::string>()(p)); }, opt(false, 3));
  scenario("two patterns", [=](Ctx &c) { int n = c.choose(3), m = c.choose(3); std::string p = pattern(c, n), q = pattern(c, m); c.log(p + " " + q); for (auto a : ATTR) for (auto nm : NAMES) verify(c, nm, a, {p, q}); c.state(std::hash<std::string>()(p + "," + q)); }, opt(false, 3));
  static const char *PL[] = {"a", "*", "-a", "^b", "a:*", "-*:b", "?b", "-ab", "", "b:ab", "[ab]*"}; int W = th ? 5 : 4;
  scenario("lists", [=](Ctx &c) { int n = c.choose(W + 1); std::vector<std::string> p; for (int k = 0; k < n; ++k) p.push_back(PL[c.choose(11)]); std::string all; for (auto &q : p) all += q + ","; for (auto a : ATTR) for (auto nm : NAMES) verify(c, nm, a, p); c.state(std::hash<std::string>()(all)); }, opt(false, 3));
  scenario("splitting", [=](Ctx &c) { static const char CH[] = "a, b"; int n = c.choose(th ? 8 : 6); std::string s; for (int k = 0; k < n; ++k) s += CH[c.choose(4)]; static const char *SEP[] = {" ", ",", ", "}; const char *sep = SEP[c.choose(3)]; c.step(); std::vector<std::string> want; std::string cur; for (char ch : s) if (strchr(sep, ch)) { if (!cur.empty()) want.push_back(cur); cur.clear(); } else cur += ch; if (!cur.empty()) want.push_back(cur); if (split(s, sep) != want) c.fail("split", s); c.state(std::hash<std::string>()(s + sep)); }, opt(false, 3));
}
