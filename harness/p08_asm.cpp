// Assembler, disassembler and debug information.
#include "lang.hpp"
#include "bytecode.hpp"
using namespace ref; using namespace pbt;
struct Loc { uint64_t line, col; std::string f; bool operator<(const Loc& o) const { return std::tie(line, col, f) < std::tie(o.line, o.col, o.f); } bool operator==(const Loc& o) const { return line == o.line && col == o.col && f == o.f; } std::string str() const { return f + ":" + std::to_string(line) + ":" + std::to_string(col); } };
typedef std::map<int32_t, Loc> Locs;
static Locs read(buzzdebug_t d) {
  Locs m; buzzdict_foreach(d->off2script, [](const void* k, void* v, void* p) { buzzdebug_entry_t e = *(buzzdebug_entry_t*)v; (*(Locs*)p)[*(const int32_t*)k] = Loc{e->line, e->col, e->fname}; }, &m);
  if (m.size() != (size_t)buzzdebug_info_count(d)) fail("debug information holds an offset twice"); return m;
}
static std::string diff(const Locs& a, const Locs& b) {
  for (auto& x : a) { auto i = b.find(x.first); if (i == b.end()) return bz::fmt("offset %d: expected %s, found nothing", x.first, x.second.str().substr(0, 300).c_str()); if (!(i->second == x.second)) return bz::fmt("offset %d: expected %s, found %s", x.first, x.second.str().substr(0, 300).c_str(), i->second.str().substr(0, 300).c_str()); }
  for (auto& x : b) if (!a.count(x.first)) return bz::fmt("offset %d: expected nothing, found %s", x.first, x.second.str().substr(0, 300).c_str()); return "";
}
static std::string esc(const std::string& s) { std::string o; for (char c : s) if (c == '\n') o += "\\n"; else if (c == '\\') o += "\\\\"; else o += c; return o; }
static void put32(std::vector<uint8_t>& b, const void* p) { const uint8_t* q = (const uint8_t*)p; b.insert(b.end(), q, q + 4); }
// what the disassembly of `code` must look like
static void checkdeasm(const std::vector<uint8_t>& code, const Locs& loc, const std::string& txt) {
  bc::Code k; std::string e = bc::decode(code, k); if (!e.empty()) fail("malformed code: " + e);
  std::vector<std::string> L; { std::string cur; for (char ch : txt) { if (ch == '\n') { L.push_back(cur); cur.clear(); } else cur += ch; } if (!cur.empty()) fail("the disassembly does not end with a newline"); }
  size_t p = 0; auto line = [&]() -> std::string { if (p >= L.size()) fail("the disassembly ends too early"); return L[p++]; };
  std::string h = line(); if (h != "!" + bz::S(k.strings.size())) fail("string count line: " + h);
  for (auto& s : k.strings) { std::string x = line(); if (x != "'" + esc(s)) fail("string line: expected " + esc(s) + ", found " + x); }
  for (auto& i : k.ins) {
    std::string x = line(), y = x; auto err = [&](const char* w) { fail(bz::fmt("disassembly of offset %u: %s: ", i.off, w) + x.substr(0, 400)); };
    std::string dbg; size_t bar = y.find('|'); if (bar != std::string::npos) { dbg = y.substr(bar + 1); y = y.substr(0, bar); while (!y.empty() && isspace((unsigned char)y.back())) y.pop_back(); }
    size_t colon = y.find(':'); if (colon == std::string::npos || y.substr(0, colon) != bz::S(i.off)) err("offset"); y = y.substr(colon + 1); while (!y.empty() && isspace((unsigned char)y[0])) y.erase(0, 1);
    size_t sp = y.find(' '); std::string op = y.substr(0, sp), arg = sp == std::string::npos ? "" : y.substr(sp + 1);
    if (op != buzzvm_instr_desc[i.op]) err("instruction");
    if (!i.has) { if (!arg.empty()) err("superfluous argument"); }
    else if (i.op == BUZZVM_INSTR_PUSHF) { float f; memcpy(&f, &i.arg, 4); double g = strtod(arg.c_str(), nullptr); if (std::isnan(f) ? !std::isnan(g) : std::isinf(f) ? g != f : std::fabs(g - f) > 1e-6 + std::fabs(f) * 1e-6) err("float argument"); }
    else { char* end; long long v = strtoll(arg.c_str(), &end, 10); if (arg.empty() || *end || v != (int32_t)i.arg) err("integer argument"); }
    auto d = loc.find((int32_t)i.off);
    if ((d != loc.end()) != (bar != std::string::npos)) err(d != loc.end() ? "location missing" : "unexpected location");
    if (d != loc.end() && dbg != bz::fmt("%llu,%llu,", (unsigned long long)d->second.line, (unsigned long long)d->second.col) + d->second.f) err("location");
    char* one = nullptr; if (!buzz_instruction_deasm(code.data(), i.off, &one)) err("the single-instruction disassembler refuses it"); std::string o1 = one; free(one); if (o1 != y) fail("two disassemblies differ: " + o1 + " / " + y);
  }
  if (p != L.size()) fail("the disassembly has more lines than the code: " + L[p]);
}
static std::string deasm(const std::vector<uint8_t>& code, buzzdebug_t d, int* rc) { std::string f = scratch() + "/de.txt"; std::vector<uint8_t> copy(code); *rc = buzz_deasm(copy.data(), copy.size(), d, f.c_str()); if (copy != code) fail("disassembling changes the code"); return bz::readfile(f); }
static void roundtrip(buzzdebug_t d, const Locs& loc) {
  std::string f = scratch() + "/x.bdb"; if (!buzzdebug_tofile(f.c_str(), d)) fail("writing the debug information reports an error");
  buzzdebug_t e = buzzdebug_new(); if (!buzzdebug_fromfile(e, f.c_str())) fail("reading the debug information reports an error");
  std::string x = diff(loc, read(e)); if (!x.empty()) fail("debug information written and read back: " + x);
  std::map<Loc, int32_t> back; for (auto& l : loc) { auto i = back.find(l.second); if (i == back.end() || i->second > l.first) back[l.second] = l.first; }
  for (auto& b : back) { const int32_t* o = buzzdebug_info_get_fromscript(e, b.first.line, b.first.col, b.first.f.c_str()); if (!o || *o != b.second) fail(bz::fmt("location %s: expected offset %d, found %d", b.first.str().substr(0, 200).c_str(), b.second, o ? *o : -1)); }
  if (buzzdebug_info_get_fromscript(e, 4000000000u, 0, "no such file")) fail("an offset is reported for a location that does not exist");
  buzzdebug_destroy(&e);
}
// compile a program, disassemble it
static void compiled(Src& s, Ctx& c) {
  Gen g(s); g.tables = g.closures = true; g.budget = 20 + (int)s.draw(60); Printer pr; pr.src = &s; std::string src = pr.program(g.program(1 + (int)s.draw(10), (int)s.draw(4))); c.note(src);
  bz::Compiled k; std::string name = s.pickl<const char*>({"s", "a b", "x,y", "p|q", "it's", "#h", "long_long_long_long_name"}); bz::compile(src, k, name); if (!k.assembled) fail("a valid program is rejected");
  Locs loc = read(k.dbg); int rc; std::string t = deasm(k.bcode, k.dbg, &rc); if (rc) fail("the disassembler reports an error");
  checkdeasm(k.bcode, loc, t); roundtrip(k.dbg, loc);
  std::string full = scratch() + "/" + name + ".bzz"; size_t named = 0, lines = 1 + std::count(src.begin(), src.end(), '\n');
  for (auto& l : loc) if (l.second.f == full) { ++named; if (l.second.line < 1 || l.second.line > lines) fail(bz::fmt("offset %d is located on line %llu of a script of %zu lines", l.first, (unsigned long long)l.second.line, lines)); } else fail("an instruction is located in " + l.second.f + ", not in " + full);
  if (!named && src.size() > 20) fail("no instruction is located in the script");
  c.cls("instructions", k.bcode.size()); c.nontrivial = src.size() > 300;
}
// generated assembly against an independent assembler
static std::string blanks(Src& s) { return s.chance(1, 6) ? std::string(s.pickl<const char*>({" ", "\t", "   "})) : std::string(); }
static void assembly(Src& s, Ctx& c) {
  std::string a; std::vector<uint8_t> b; Locs loc; auto nl = [&] { a += s.chance(1, 10) ? "\n\n" : "\n"; if (s.chance(1, 12)) a += "   # a comment 'x @l nop\n"; };
  unsigned ns = (unsigned)s.len(12); if (s.chance(1, 40)) ns = 300 + (unsigned)s.draw(600); a += "!" + bz::S(ns); nl(); b.push_back(ns & 255); b.push_back(ns >> 8);
  for (unsigned i = 0; i < ns; ++i) { std::string x; size_t n = s.len(20); for (size_t j = 0; j < n; ++j) x += s.chance(1, 4) ? s.pickl<char>({'\n', '\\', 'n', '\'', '|', '@', ' ', '\t', '"', '!', '#'}) : (char)s.range(1, 255); if (s.chance(1, 200)) x = std::string(2000 + s.draw(70000), 'z'); a += "'" + esc(x); a += "\n"; b.insert(b.end(), x.begin(), x.end()); b.push_back(0); }
  size_t n = 1 + s.len(60); std::vector<std::string> labels; size_t nlab = s.draw(6); for (size_t i = 0; i < nlab; ++i) labels.push_back(bz::fmt("@__%s_%zu", s.pickl<const char*>({"label", "exitpoint", "f"}), i));
  std::vector<size_t> at; for (size_t i = 0; i < nlab; ++i) at.push_back(s.draw(n)); std::map<std::string, uint32_t> pos; std::vector<std::pair<size_t, std::string>> subs; int bad = 0;
  static const std::vector<std::string> files = {"/a/b.bzz", "s.bzz", "dir with space/x.bzz", "a,b.bzz", "p|q.bzz", "#x"};
  auto dbg = [&] { if (s.flip()) return std::string(); Loc l{s.draw(3000), s.draw(200), s.pick(files)}; loc[(int32_t)b.size()] = l; return "\t|" + bz::S(l.line) + "," + bz::S(l.col) + "," + l.f; };
  for (size_t i = 0; i < n; ++i) {
    for (size_t j = 0; j < nlab; ++j) if (at[j] == i) { pos[labels[j]] = b.size(); a += blanks(s) + labels[j] + dbg(); nl(); }
    int op = (int)s.draw(BUZZVM_INSTR_COUNT); std::string arg; bool lab = false;
    if (op == BUZZVM_INSTR_PUSHF) { float f = s.flip() ? (float)s.range(-100000, 100000) / 64 : std::ldexp((float)s.range(-1000, 1000), (int)s.range(-30, 30)); arg = bz::fmt(s.flip() ? "%.9g" : "%.30f", f); }
    else if (bc::hasarg(op)) { bool j = op == BUZZVM_INSTR_JUMP || op == BUZZVM_INSTR_JUMPZ || op == BUZZVM_INSTR_JUMPNZ; if (j || s.flip()) { if (labels.empty()) { op = BUZZVM_INSTR_ADD; } else { lab = true; arg = s.pick(labels); } } else arg = s.chance(1, 5) ? s.pickl<std::string>({"-2147483648", "2147483647", "-1", "0", "010", "0017", "-0100", "00000000001", "+12"}) : bz::S(s.range(-70000, 70000)); }
    std::string d = dbg(); std::string ins = buzzvm_instr_desc[op]; if (s.chance(1, 400)) { ins += "x"; bad = 1; } if (bc::hasarg(op) && s.chance(1, 400)) { arg = ""; bad = 1; } if (lab && s.chance(1, 400)) { arg += "_gone"; bad = 1; }
    a += blanks(s) + ins + (arg.empty() ? "" : " " + arg) + d + (d.empty() ? blanks(s) : ""); if (i + 1 < n || s.flip()) nl();
    b.push_back((uint8_t)op);
    if (bc::hasarg(op)) { uint32_t v = 0; if (lab) subs.push_back({b.size(), arg}); else if (op == BUZZVM_INSTR_PUSHF) { float f = strtof(arg.c_str(), nullptr); memcpy(&v, &f, 4); } else v = (uint32_t)strtoll(arg.c_str(), nullptr, 10); put32(b, &v); }
  }
  for (auto& x : subs) { auto p = pos.find(x.second); if (p == pos.end()) { bad = 1; continue; } memcpy(&b[x.first], &p->second, 4); }
  c.note(a); std::string f = scratch() + "/g.basm"; bz::writefile(f, a); bz::Compiled k;
  bool ok = bz::assemble_file(f, k); c.nontrivial = n > 10;
  if (bad) { c.cls("rejected"); if (ok) fail("an unknown instruction, a missing argument or an unknown label is accepted"); return; }
  if (!ok) fail("valid assembly is rejected"); c.cls("assembled");
  if (k.bcode != b) { size_t i = 0; while (i < b.size() && i < k.bcode.size() && b[i] == k.bcode[i]) ++i; fail(bz::fmt("the code differs at byte %zu of %zu (size %zu): expected %d, got %d", i, b.size(), k.bcode.size(), i < b.size() ? b[i] : -1, i < k.bcode.size() ? k.bcode[i] : -1)); }
  std::string x = diff(loc, read(k.dbg)); if (!x.empty()) fail("debug information: " + x);
  int rc; std::string t = deasm(k.bcode, k.dbg, &rc); if (rc) fail("the disassembler reports an error"); checkdeasm(k.bcode, loc, t); roundtrip(k.dbg, loc);
}
static void debuginfo(Src& s, Ctx& c) {
  buzzdebug_t d = buzzdebug_new(); Locs loc; std::map<Loc, int32_t> low; size_t n = s.len(200); std::vector<std::string> files = {"a", "b", ""};
  for (int l : {510, 511, 512, 513, 1024, 40000}) if (s.chance(1, 4)) files.push_back(std::string(l, 'p') + "q"), files.push_back(std::string(l, 'p')); if (s.chance(1, 10)) files.push_back(std::string(65535, 'w'));
  for (size_t i = 0; i < n; ++i) { Loc l{s.chance(1, 8) ? ~0ull - s.draw(3) : s.draw(20), s.draw(6), s.pick(files)}; int32_t o = (int32_t)s.draw(n / 2 + 2); c.note(bz::fmt("%d -> %llu,%llu,%s", o, (unsigned long long)l.line, (unsigned long long)l.col, l.f.substr(0, 20).c_str())); buzzdebug_info_set(d, o, l.line, l.col, l.f.c_str()); loc[o] = l; auto j = low.find(l); if (j == low.end() || j->second > o) low[l] = o; }
  std::string x = diff(loc, read(d)); if (!x.empty()) fail(x);
  for (auto& b : low) { const int32_t* o = buzzdebug_info_get_fromscript(d, b.first.line, b.first.col, b.first.f.c_str()); if (!o || *o != b.second) fail(bz::fmt("location %s: expected offset %d, found %d", b.first.str().substr(0, 200).c_str(), b.second, o ? *o : -1)); }
  for (int32_t o = -2; o < (int32_t)n; ++o) if (!!buzzdebug_info_exists_offset(d, &o) != !!loc.count(o)) fail(bz::fmt("existence of offset %d", o));
  roundtrip(d, loc);
  // damaged files are read without harm, and what precedes the damage is kept
  std::string f = scratch() + "/x.bdb", raw = bz::readfile(f); size_t cut = s.draw(raw.size() + 1); std::string dam = raw.substr(0, cut); if (s.flip()) for (int i = 0; i < 4; ++i) dam += (char)s.range(0, 255); bz::writefile(f, dam);
  buzzdebug_t e = buzzdebug_new(); buzzdebug_fromfile(e, f.c_str()); if (buzzdebug_info_count(e) > loc.size() + 1) fail("a cut file holds more entries"); buzzdebug_destroy(&e);
  buzzdebug_destroy(&d); c.nontrivial = n > 5;
}
static void hostile(Src& s, Ctx& c) {
  std::vector<uint8_t> b; if (s.flip()) { Gen g(s); g.budget = 20; Printer pr; bz::Compiled k; bz::compile(pr.program(g.program(2, 1)), k); b = k.bcode; size_t m = s.draw(4); for (size_t i = 0; i < m && !b.empty(); ++i) { size_t at = s.draw(b.size()); if (s.flip()) b[at] = (uint8_t)s.draw(256); else b.resize(at); } }
  else { size_t n = s.len(200); for (size_t i = 0; i < n; ++i) b.push_back((uint8_t)(s.flip() ? s.draw(4) : s.draw(256))); }
  std::string h; for (uint8_t x : b) h += bz::fmt("%02x", x); c.note(h); buzzdebug_t d = buzzdebug_new(); int rc; bc::Code k; std::string e = bc::decode(b, k);
  std::string t = deasm(b, d, &rc); c.cls(e.empty() ? "decodable" : "malformed"); c.nontrivial = b.size() > 10;
  if (e == "string table is not terminated") { c.cls("left-open"); buzzdebug_destroy(&d); return; }
  if (e.empty() != (rc == 0)) fail(e.empty() ? "well-formed code is refused" : "malformed code is disassembled without an error: " + e);
  if (!rc) checkdeasm(b, {}, t); buzzdebug_destroy(&d);
}
// a run-time error is located on the statement that fails
static void located(Src& s, Ctx& c) {
  struct Out { std::string t; int line = 1; void add(const std::string& x) { t += x; line += (int)std::count(x.begin(), x.end(), '\n'); } } main, inc; int lo = 0, hi = 0; bool ininc = s.chance(1, 4); Out* o = ininc ? &inc : &main;
  auto pad = [&](Out& w) { size_t n = s.draw(4); for (size_t i = 0; i < n; ++i) w.add(s.pickl<const char*>({"a = 1\n", "\n", "# note\n", "b = {.x=1,\n .y=2}\n", "log(a,\n 1)\n", "if(1) { a = 2 } else {\n a = 3 }\n", "c = 'two\nlines'\n", "for(i = 0, i < 2, i = i + 1) {\n log(i)\n}\n", "d = function(q) {\n return q + 1\n}\n", "; a = 4;\n"})); };
  bool top = false; auto failing = [&](Out& w) { std::string br = s.chance(1, 3) ? "\n" : " "; if (s.chance(1, 6)) w.add("a = 5; "); lo = w.line; if (top && s.chance(1, 8)) { w.add(s.flip() ? "return" : "return" + std::string(" ") + "1"); hi = w.line; w.add("\n"); return; } switch (s.draw(9)) {
      case 0: w.add("x = 1 +" + br + "nil"); break; case 1: w.add("x = t.a" + br + ".b"); break; case 2: w.add("math.abs(" + br + "'s')"); break; case 3: w.add("t[nil] =" + br + "1"); break; case 4: w.add("nofun(1," + br + "2)"); break;
      case 5: w.add("if(1 <" + br + "nil + 1) { y = 1 }"); break; case 6: w.add("while(-'s' < 1) { y = 2 }"); break; case 7: w.add("var vv = 1 %" + br + "0"); break; default: w.add("y = (1 + 2)" + br + "* (3 - 'q')"); break; }
    hi = w.line; w.add("\n"); };
  main.add("t = {}\n"); pad(main); std::string incname = scratch() + "/inc.bzz"; if (ininc) { main.add("include \"" + incname + "\"\n"); pad(inc); }
  int kind = (int)s.draw(6); top = kind == 0 || kind == 3;
  switch (kind) { case 0: failing(*o); break; case 1: o->add("function g(p) {\n"); pad(*o); failing(*o); o->add("return 1\n}\n"); break; case 2: o->add("foreach({.a=1}, function(k,v) {\n log(k)\n"); failing(*o); o->add("})\n"); break;
    case 3: o->add("if(1) {\n"); pad(*o); o->add("var i2 = 0 while(i2 < 3) {\n i2 = i2 + 1\n"); failing(*o); o->add("}\n}\n"); break; case 4: o->add("t.m = function(p) { var u = p\n"); failing(*o); o->add("}\n"); break; default: o->add("lam = function() {\n return function(z) {\n"); failing(*o); o->add("return 0 }\n}\n"); }
  pad(main); if (kind == 1) main.add("g(1)\n"); if (kind == 4) main.add("t.m(2)\n"); if (kind == 5) main.add("lam2 = lam()\nlam2(3)\n"); if (s.flip()) { pad(main); main.add("last = 1"); }
  if (ininc) { pad(inc); bz::writefile(incname, inc.t); c.note("included file:\n" + inc.t + "\nscript:"); } c.note(main.t);
  bz::Compiled k; bz::compile(main.t, k, "where"); if (!k.assembled) fail("a valid program is rejected"); bz::VM vm(1); if (!vm.load(k.bcode)) fail("load"); vm.run();
  if (vm.vm->state != BUZZVM_STATE_ERROR) fail("the script did not stop at its error"); const buzzdebug_entry_t* e = buzzdebug_info_get_fromoffset(k.dbg, &vm.vm->oldpc);
  std::string want = ininc ? incname : scratch() + "/where.bzz"; c.cls(bz::fmt("kind-%d", kind)); c.nontrivial = main.line + inc.line > 6;
  if (!e) fail("no location is known for the failing instruction"); if ((*e)->fname != want) fail("the error is located in " + std::string((*e)->fname) + " instead of " + want);
  if ((int)(*e)->line < lo || (int)(*e)->line > hi) fail(bz::fmt("the failing statement is on lines %d-%d, the error is located on line %d", lo, hi, (int)(*e)->line));
}
int main(int argc, char** argv) {
  return run(argc, argv, "P08", {{"compiled", compiled, 3000, 100000}, {"assembly", assembly, 12000, 400000}, {"debug-information", debuginfo, 4000, 100000}, {"located-errors", located, 4000, 100000}, {"any-bytes", hostile, 8000, 300000}});
}
