// Independent lexer and recogniser of the Buzz grammar.
#pragma once
#include "vmutil.hpp"
#include <set>
namespace syn {
struct Tok { char k; std::string v; int line; int col = -1; bool ends = false; };  // ends: a statement end precedes it.  // k: i id, n number, s string, V var, 0 nil, I if, E else, F function, R return, f for, w while, A and/or, N not, a +-, m */, % ^ h shift, b &|, ! { } ( ) [ ] , = . c comparison, $ eof, X lexical error
struct Lexed { std::vector<Tok> t; bool open = false; std::string why; };
inline Lexed lex(const std::string& x) {
  Lexed L; size_t i = 0; int line = 1; size_t start = 0; bool ends = false; auto add = [&](char k, const std::string& v = "") { size_t b = x.rfind('\n', start ? start - 1 : 0); if (!start || b == std::string::npos) b = 0; else ++b; L.t.push_back({k, v, line, (int)(start - b), ends}); ends = false; };
  static const std::map<std::string, char> kw = {{"var", 'V'}, {"if", 'I'}, {"else", 'E'}, {"function", 'F'}, {"return", 'R'}, {"for", 'f'}, {"while", 'w'}, {"and", 'A'}, {"or", 'A'}, {"not", 'N'}, {"nil", '0'}};
  if (x.find('\0') != std::string::npos) { L.open = true; L.why = "NUL byte"; }
  while (i < x.size()) {
    unsigned char c = x[i]; start = i;
    if (c == ' ' || c == '\t' || c == '\r') { ++i; continue; } if (c == '\n') { ends = true; ++line; ++i; continue; } if (c == ';') { ends = true; ++i; continue; }
    if (c == '#') { while (i < x.size() && x[i] != '\n') ++i; continue; }
    if (x.compare(i, 7, "include") == 0 && !(i + 7 < x.size() && (unsigned char)x[i + 7] < 128 && (isalnum((unsigned char)x[i + 7]) || x[i + 7] == '_'))) { L.open = true; L.why = "include"; }
    if (c >= '0' && c <= '9') { size_t s = i; while (i < x.size() && ((x[i] >= '0' && x[i] <= '9') || x[i] == '.')) ++i; std::string v = x.substr(s, i - s); if (std::count(v.begin(), v.end(), '.') > 1) { L.open = true; L.why = "number with several dots"; } add('n', v); continue; }
    if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) { size_t s = i; while (i < x.size() && (isalnum((unsigned char)x[i]) || x[i] == '_') && (unsigned char)x[i] < 128) ++i; std::string v = x.substr(s, i - s); auto k = kw.find(v); add(k == kw.end() ? 'i' : k->second, v); continue; }
    if (c == '"' || c == '\'') { size_t j = i + 1; int nl = 0; while (j < x.size() && x[j] != (char)c) { if (x[j] == '\\' && j + 1 < x.size()) ++j; if (x[j] == '\n') ++nl; ++j; } if (j >= x.size()) { add('X', "closing quote"); break; } add('s', x.substr(i + 1, j - i - 1)); line += nl; i = j + 1; continue; }
    auto nx = [&](char d) { return i + 1 < x.size() && x[i + 1] == d; };
    if (strchr("{}()[],.", c)) { add((char)c); ++i; continue; }
    if (c == '=') { if (nx('=')) { add('c', "=="); i += 2; } else { add('='); ++i; } continue; }
    if (c == '!') { if (nx('=')) { add('c', "!="); i += 2; } else { add('!'); ++i; } continue; }
    if (c == '<' || c == '>') { if (nx((char)c)) { add('h', std::string(2, (char)c)); i += 2; } else if (nx('=')) { add('c', std::string(1, (char)c) + "="); i += 2; } else { add('c', std::string(1, (char)c)); ++i; } continue; }
    if (c == '+' || c == '-') { add('a', std::string(1, (char)c)); ++i; continue; } if (c == '*' || c == '/') { add('m', std::string(1, (char)c)); ++i; continue; }
    if (c == '%') { add('%', "%"); ++i; continue; } if (c == '^') { add('^', "^"); ++i; continue; } if (c == '&' || c == '|') { add('b', std::string(1, (char)c)); ++i; continue; }
    add('X', "character"); break;
  }
  ends = true; add('$'); return L;
}
struct Reject { size_t at; std::string why; };
struct Parser {
  const std::vector<Tok>& t; size_t p = 0; std::vector<std::set<std::string>> sc; int depth = 0;
  explicit Parser(const std::vector<Tok>& x) : t(x) {}
  char k() const { return t[p].k; }
  void next() { if (k() != '$') ++p; }
  [[noreturn]] void no(const std::string& w) { throw Reject{p, w}; }
  void need(char c) { if (k() != c) no(std::string("expected ") + c); next(); }
  bool local(const std::string& n) { for (size_t i = 1; i < sc.size(); ++i) if (sc[i].count(n)) return true; return false; }
  void program() { sc = {{}}; while (k() != '$') { if (k() == '}') no("stray }"); stat(); } }
  void stat() { switch (k()) { case '}': return; case 'V': return var(); case 'F': return fun(); case 'I': next(); need('('); cond(); need(')'); bstat(); if (k() == 'E') { next(); bstat(); } return;
    case 'f': next(); need('('); cmd(); need(','); cond(); need(','); cmd(); need(')'); bstat(); return; case 'w': next(); need('('); cond(); need(')'); bstat(); return; default: cmd(); } }
  void bstat() { if (k() == '{') block(true); else { auto saved = sc.back(); stat(); if (sc.size() > 1) sc.back() = saved; } }  // what a single statement declares ends with it
  void block(bool push) { need('{'); if (k() == '}') { next(); return; } if (push) sc.push_back(sc.size() == 1 ? std::set<std::string>{"self"} : sc.back()); stat(); while (k() != '$' && k() != '}') stat(); need('}'); if (push) sc.pop_back(); }
  void var() { next(); if (k() != 'i') no("expected i"); if (local(t[p].v)) no("duplicate"); if (sc.size() > 1) sc.back().insert(t[p].v); next(); if (k() == '=') { next(); expr(); } }
  void params() { if (k() == ')') return; for (;;) { if (k() != 'i') no("expected i"); if (sc.size() > 1) sc.back().insert(t[p].v); next(); if (k() != ',') return; next(); } }
  void fun() { next(); if (k() != 'i') no("expected i"); if (sc.size() > 1) no("nested function"); next(); need('('); sc.push_back({"self"}); params(); need(')'); if (k() == 's') next(); block(false); sc.pop_back(); }
  void lambda() { next(); need('('); sc.push_back(sc.size() == 1 ? std::set<std::string>{"self"} : sc.back()); params(); need(')'); block(false); sc.pop_back(); }
  void cond() { if (k() == 'N') { next(); cond(); return; } cmp(); while (k() == 'A') { next(); cmp(); } }
  void cmp() { expr(); if (k() == 'c') { next(); expr(); } }
  void entry() { need('.'); if (k() != 'i' && k() != 'n') no("expected key"); next(); need('='); expr(); }
  void expr() { if (k() == '{') { next(); if (k() != '.' && k() != '}') no("expected .id"); if (k() == '.') { entry(); while (k() == ',') { next(); entry(); } } need('}'); return; } prod(); while (k() == 'a') { next(); prod(); } }
  void prod() { mod(); while (k() == 'm') { next(); mod(); } }
  void mod() { pow(); while (k() == '%') { next(); pow(); } }
  void pow() { shift(); if (k() == '^') { next(); pow(); } }
  void shift() { bits(); while (k() == 'h') { next(); bits(); } }
  void bits() { bnot(); while (k() == 'b') { next(); bnot(); } }
  void bnot() { if (k() == '!') { next(); bnot(); return; } operand(); }
  void operand() { switch (k()) { case 'F': lambda(); return; case '0': case 'n': case 's': next(); return; case '(': next(); cond(); need(')'); return; case 'a': next(); if (k() == 'n') { next(); return; } bnot(); return; default: { bool c; idref(c); } } }
  void idref(bool& call) { if (k() != 'i') no("expected i"); next(); call = false; for (;;) { if (k() == '.') { next(); need('i'); call = false; } else if (k() == '[') { next(); expr(); need(']'); call = false; } else if (k() == '(') { next(); if (k() != ')') { cond(); while (k() == ',') { next(); cond(); } } need(')'); call = true; } else return; } }
  void cmd() { if (k() == 'R') { next(); if (k() != '}' && !t[p].ends) cond(); return; } bool call; idref(call); if (k() == '=') { if (call) no("call as lvalue"); next(); expr(); return; } if (!call) no("expected call or assignment"); }
};
struct Verdict { bool ok; bool open; int line; int col; std::string why; char at; size_t ntok; };
inline Verdict judge(const std::string& src) {
  Lexed L = lex(src); Verdict v{true, L.open, 0, 0, L.why, '$', L.t.size()}; Parser P(L.t);
  try { P.program(); } catch (Reject& r) { v.ok = false; v.line = L.t[r.at].line; v.col = L.t[r.at].col; v.why = r.why; v.at = L.t[r.at].k; }
  return v;
}
}  // namespace syn
