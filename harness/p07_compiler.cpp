// The compiler answers every text with either correct code or a located diagnostic.
#include "lang.hpp"
#include "syntax.hpp"
#include "bytecode.hpp"
using namespace ref; using namespace pbt;
typedef std::vector<syn::Tok> Toks;

struct Res { bool parsed = false, assembled = false; std::string diag; std::vector<uint8_t> code; };
static Res compile_capture(const std::string& src, const std::string& name) {
  Res r; std::string ef = scratch() + "/diag.txt";
  fflush(stderr); int save = dup(2); int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); close(fd);
  bz::Compiled c; bz::compile(src, c, name);
  fflush(stderr); dup2(save, 2); close(save);
  r.diag = bz::readfile(ef); r.parsed = c.parsed; r.assembled = c.assembled; r.code = c.bcode; return r;
}
static void oracle(const std::string& src, Ctx& c, Res* out = nullptr) {
  syn::Verdict v = syn::judge(src);
  Res r = compile_capture(src, "case");
  if (out) *out = r;
  std::string first = r.diag.substr(0, r.diag.find('\n'));
  if (v.open) { c.cls("left-open"); if (r.parsed && !r.assembled) fail("the assembler rejected the compiler's output: " + first); return; }
  c.cls(v.ok ? "accepted" : "rejected"); c.cls("tokens", v.ntok);
  if (v.ok && !r.parsed) fail("a text that follows the grammar was rejected: " + first);
  if (!v.ok && r.parsed) fail(bz::fmt("a text that does not follow the grammar was accepted: line %d: %s, found '%c'", v.line, v.why.c_str(), v.at));
  if (v.ok) {
    if (!r.assembled) fail("the assembler rejected the compiler's output: " + first);
    bc::Code k; std::string e = bc::decode(r.code, k); if (e.empty()) e = bc::verify(k);
    if (!e.empty()) fail("the code of an accepted text is malformed: " + e);
    Res again = compile_capture(src, "case"); if (again.code != r.code) fail("two compilations of one text differ");
  } else {
    if (first.empty()) fail("a text was rejected without any diagnostic");
    if (first.find("case.bzz") == std::string::npos) fail("the diagnostic does not name the script: " + first);
    if (v.at != '$') { if (first.find(bz::fmt("case.bzz:%d:", v.line)) == std::string::npos) fail(bz::fmt("the offending token is on line %d (%s), but the diagnostic says: ", v.line, v.why.c_str()) + first); if (first.find(bz::fmt("case.bzz:%d:%d:", v.line, v.col)) == std::string::npos) fail(bz::fmt("the offending token is in column %d of line %d (%s), but the diagnostic says: ", v.col, v.line, v.why.c_str()) + first); c.cls("located"); }
  }
}
static std::string text(const syn::Tok& t) {
  if (t.k == 's') { return (t.v.find('"') == std::string::npos ? "\"" + t.v + "\"" : "'" + t.v + "'"); }
  return t.v.empty() ? std::string(1, t.k) : t.v;
}
static bool word(const std::string& s) { return !s.empty() && (isalnum((unsigned char)s[0]) || s[0] == '_'); }
static std::string layout(const Toks& t, Src& s, int style) {
  std::string o; std::string prev;
  for (auto& k : t) {
    if (k.k == '$' || k.k == 'X') break;
    std::string w = text(k); bool must = !prev.empty() && ((word(prev) && (word(w) || w == ".")) || strchr("=!<>", prev.back()) || (prev == "." && word(w) && isdigit((unsigned char)w[0])));
    if (style == 0) o += prev.empty() ? "" : " ";
    else switch (s.draw(style == 1 ? 6 : 12)) {
      case 0: case 1: if (must) o += " "; break; case 2: o += " "; break; case 3: o += "\n"; break; case 4: o += "\t \r\n"; break; case 5: o += " # note { ( \" if\n"; break;
      case 6: o += ";"; break; case 7: o += "\n\n;;"; break; default: o += " "; }
    o += w; prev = w;
  }
  if (style) o += s.pickl<const char*>({"", "\n", " # the end", ";", "\n\n  \n", "#"});
  return o;
}
static const std::vector<syn::Tok>& pool() {
  static const std::vector<syn::Tok> p = {{'V', "var", 0}, {'I', "if", 0}, {'E', "else", 0}, {'F', "function", 0}, {'R', "return", 0}, {'f', "for", 0}, {'w', "while", 0}, {'A', "and", 0}, {'A', "or", 0}, {'N', "not", 0}, {'0', "nil", 0},
    {'i', "x", 0}, {'i', "y", 0}, {'i', "self", 0}, {'i', "f", 0}, {'i', "included", 0}, {'i', "nilly", 0}, {'n', "1", 0}, {'n', "2.5", 0}, {'n', "7.", 0}, {'s', "s", 0}, {'s', "two\nlines", 0}, {'s', "", 0}, {'a', "+", 0}, {'a', "-", 0}, {'m', "*", 0}, {'m', "/", 0}, {'%', "%", 0}, {'^', "^", 0}, {'h', "<<", 0}, {'h', ">>", 0}, {'b', "&", 0}, {'b', "|", 0},
    {'!', "!", 0}, {'c', "==", 0}, {'c', "!=", 0}, {'c', "<", 0}, {'c', "<=", 0}, {'c', ">", 0}, {'c', ">=", 0}, {'{', "", 0}, {'}', "", 0}, {'(', "", 0}, {')', "", 0}, {'[', "", 0}, {']', "", 0}, {',', "", 0}, {'=', "", 0}, {'.', "", 0}};
  return p;
}
static std::string program(Src& s, int size) {
  Gen g(s); g.tables = g.closures = true; g.budget = size; Block p = g.program(1 + (int)s.draw(6), (int)s.draw(3)); Printer pr; pr.src = nullptr; return pr.program(p);
}
static void mutated(Src& s, Ctx& c) {
  std::string src = program(s, 10 + (int)s.draw(40)); syn::Lexed L = syn::lex(src); Toks t = L.t; t.pop_back();
  size_t n = s.draw(4); if (t.empty()) n = 0;
  for (size_t i = 0; i < n && !t.empty(); ++i) {
    size_t at = s.draw(t.size());
    switch (s.draw(8)) {
      case 0: t.erase(t.begin() + at); break;
      case 1: t.insert(t.begin() + at, s.pick(pool())); break;
      case 2: t[at] = s.pick(pool()); break;
      case 3: { size_t b = s.draw(t.size()); std::swap(t[at], t[b]); break; }
      case 4: t.insert(t.begin() + at, t[s.draw(t.size())]); break;
      case 5: t.resize(at); break;
      case 6: { size_t b = std::min(t.size(), at + 1 + s.draw(6)); Toks x(t.begin() + at, t.begin() + b); size_t w = s.draw(t.size() + 1); t.insert(t.begin() + w, x.begin(), x.end()); break; }
      default: { size_t b = std::min(t.size(), at + 1 + s.draw(6)); t.erase(t.begin() + at, t.begin() + b); break; }
    }
  }
  std::string a = layout(t, s, 1 + (int)s.draw(2)); c.note(a); Res r; oracle(a, c, &r);
  // a mutation in the middle of a token run may fuse tokens; only compare the layouts when both read back as the same tokens
  std::string b = layout(t, s, 0); auto key = [](const std::string& x) { std::string k; bool r = false; for (auto& y : syn::lex(x).t) { if (r && y.ends) k += "end\n"; r = y.k == 'R'; k += std::string(1, y.k) + y.v + "\n"; } return k; };
  if (key(a) == key(b)) { Res q = compile_capture(b, "case"); if (q.parsed != r.parsed) fail("the verdict depends on the layout: " + (r.parsed ? q.diag : r.diag)); if (q.code != r.code) fail("the code depends on blanks, newlines, separators or comments\nother layout:\n" + b); c.cls("layout-compared"); }
  c.nontrivial = t.size() > 20;
}
// programs with one mistake of a chosen kind at the start of a statement, on lines of its own
static void mistakes(Src& s, Ctx& c) {
  std::string src = program(s, 10 + (int)s.draw(40)); Toks t = syn::lex(src).t; t.pop_back(); std::vector<size_t> at; for (size_t i = 0; i < t.size(); ++i) if (t[i].k == 'V' || t[i].k == 'I' || t[i].k == 'R' || t[i].k == 'w' || t[i].k == 'f' || (t[i].k == 'i' && (t[i].v == "log" && i && (t[i - 1].k == '}' || t[i - 1].k == '{' || t[i - 1].k == ')')))) at.push_back(i);
  size_t p = at.empty() ? t.size() : s.pick(at); std::vector<std::string> near; for (size_t i = p > 40 ? p - 40 : 0; i < p; ++i) if (t[i].k == 'i' && (i == 0 || t[i - 1].k != '.')) near.push_back(t[i].v); std::string n = near.empty() ? "x" : s.pick(near), m = near.empty() ? "y" : s.pick(near);
  auto id = [](const std::string& v) { return syn::Tok{'i', v, 0}; }; auto k = [](char q, const char* v = "") { return syn::Tok{q, v, 0}; }; Toks x;
  switch (s.draw(14)) {
    case 0: case 1: x = {k('V', "var"), id(n)}; break; case 2: x = {k('V', "var"), id(n), k('='), id(m)}; break; case 3: x = {k('F', "function"), id(n), k('('), k(')'), k('{'), k('}')}; break; case 4: x = {id(n), k('('), id(m), k(')'), k('='), k('n', "1")}; break; case 5: x = {id(n)}; break;
    case 6: x = {id(n), k('='), k('{'), s.pick(pool()), k('}')}; break; case 7: x = {id(n), k('='), k('{'), k('.'), s.pick(pool()), k('='), k('n', "1"), k('}')}; break; case 8: x = {id(n), k('='), k('{'), k('.'), k('n', "1"), k('='), k('n', "1"), k(','), s.pick(pool()), s.pick(pool())}; break;
    case 9: x = {id(n), k('.'), s.pick(pool())}; break; case 10: x = {id(n), k('['), id(m), s.pick(pool()), k('='), k('n', "1")}; break; case 11: x = {id(n), k('='), k('F', "function"), k('('), id(m), s.pick(pool()), id(n), k(')'), k('{'), k('V', "var"), id(s.flip() ? n : m), k('}')}; break;
    case 12: x = {k('f', "for"), k('('), id(n), k('='), k('n', "0"), s.pick(pool()), id(n), s.pick(pool()), id(n), k('='), k('n', "1"), k(')')}; break; default: x = {k('V', "var"), s.pick(pool()), k('='), k('n', "1")}; break; }
  t.insert(t.begin() + p, x.begin(), x.end()); std::string a = layout(t, s, 1 + (int)s.draw(2)); c.note(a); oracle(a, c); c.nontrivial = t.size() > 20;
}
static void fragments(Src& s, Ctx& c) {
  std::string x; size_t n = 1 + s.len(40);
  static const std::vector<std::string> frag = {"var x = 1\n", "x = ", "f(", ")", "{", "}", "if(x) { y = 1 }", " else ", "function g(a,b) {", "return ", "return 1 }\n", "for(i = 0, i < 3, i = i + 1) {", "while(0) {", "{.a=1,.2=3}", ".k", "[1]", "[", "]", "-", "--", "not ", " and ", "== ", "\"s\"", "'q\\'", "\"un", "\n", "# c\n", ";", "1.5", "1..2", "3.", "function(x) { return x }", "foreach(t, function(k,v) {})", "nil", "self.x = 1\n", "string.", "^2", "<<1", "!x", "%3", "var", "include", "include \"nofile\"", "@", "$", "\\", "`", "~", "\x80", "\xff", ",", "=", "\"", "'", "\\n"};
  for (size_t i = 0; i < n; ++i) switch (s.draw(6)) { case 0: { size_t k = 1 + s.draw(6); while (k--) x += (char)s.range(1, 255); break; } case 1: x += text(s.pick(pool())) + (s.flip() ? " " : ""); break; default: x += s.pick(frag); if (s.flip()) x += s.flip() ? " " : "\n"; }
  c.note(x); oracle(x, c); c.nontrivial = x.size() > 20;
}
static void tokens(Src& s, Ctx& c) {
  Toks t; size_t n = 1 + s.len(25); for (size_t i = 0; i < n; ++i) t.push_back(s.pick(pool())); std::string a = layout(t, s, 1); c.note(a); oracle(a, c); c.nontrivial = n > 4;
}
static void bytesmut(Src& s, Ctx& c) {
  std::string x = program(s, 10 + (int)s.draw(40)); size_t n = 1 + s.draw(4);
  for (size_t i = 0; i < n && !x.empty(); ++i) { size_t at = s.draw(x.size()); switch (s.draw(4)) { case 0: x[at] = (char)s.range(1, 255); break; case 1: x.erase(at, 1 + s.draw(4)); break; case 2: x.insert(at, 1, (char)s.range(32, 126)); break; default: x.resize(at); } }
  c.note(x); oracle(x, c); c.nontrivial = x.size() > 60;
}
static void sizes(Src& s, Ctx& c) {
  int n = (int)s.pickl<int>({1, 10, 100, 300, 700}) + (int)s.draw(100); std::string x; auto rep = [](const std::string& a, int k) { std::string o; for (int i = 0; i < k; ++i) o += a; return o; };
  int kind = (int)s.draw(14);
  switch (kind) {
    case 0: x = "x = " + rep("(", n) + "1" + rep(")", n - (int)s.draw(2)); break;
    case 1: x = rep("if(1) { ", n) + "x = 1" + rep(" }", n - (int)s.draw(2)); break;
    case 2: x = rep("if(1) x = 1\nelse ", n) + "x = 2"; break;
    case 3: x = "x = " + rep("function() { return ", n) + "1" + rep(" }", n); break;
    case 4: x = "x = " + rep("{.a=", n) + "1" + rep("}", n); break;
    case 5: x = "x = t" + rep(".a", n) + rep("[1]", n) + rep("()", n); break;
    case 6: x = "x = " + rep("!", n) + rep("-(", n) + "1" + rep(")", n); break;
    case 7: x = rep("f(", n) + rep(")", n); break;
    case 8: x = rep("a", n * 60) + " = 1"; break;
    case 9: x = "x = '" + rep("long ", n * 40) + "'"; break;
    case 10: for (int i = 0; i < n * 2; ++i) x += bz::fmt("v%d = %d\n", i, i); break;
    case 11: x = "f("; for (int i = 0; i < n; ++i) x += bz::fmt("%s%d", i ? "," : "", i); x += ")"; break;
    case 12: x = "function g("; for (int i = 0; i < n; ++i) x += bz::fmt("%sp%d", i ? "," : "", i); x += ") { return p0 }"; break;
    default: for (int i = 0; i < n; ++i) x += bz::fmt("function g%d(a) { var b%d = a return b%d }\n", i, i, i); x += rep("\n", n); x += s.flip() ? "x = = 1" : "x = 1"; break;
  }
  if (s.chance(1, 4)) x += s.pickl<const char*>({" }", " )", " =", "\n@", " \"", " if", " var"});
  c.note(x.size() > 3000 ? x.substr(0, 1500) + "..." + x.substr(x.size() - 500) : x); c.cls(bz::fmt("shape-%d", kind)); oracle(x, c); c.nontrivial = n > 50;
}
int main(int argc, char** argv) {
  return run(argc, argv, "P07", {{"mutated-programs", mutated, 7000, 300000}, {"mistakes", mistakes, 8000, 300000}, {"fragments", fragments, 8000, 300000}, {"token-soup", tokens, 9000, 300000}, {"byte-mutations", bytesmut, 6000, 200000}, {"sizes", sizes, 700, 8000}});
}
