// Includes: a script means what it means with the included files written in place.
#include "lang.hpp"
#include <dirent.h>
using namespace ref; using namespace pbt;
struct Item { int k; std::string text, name; };   // 0 statement, 1 include, 2 include inside a block
struct File { std::string path; std::vector<Item> items; std::vector<std::string> lines; };
static std::string cap(const std::function<void()>& f) { std::string ef = scratch() + "/diag.txt"; fflush(stderr); int save = dup(2); int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); close(fd); f(); fflush(stderr); dup2(save, 2); close(save); return bz::readfile(ef); }
static std::string real(const std::string& p) { char b[PATH_MAX]; return realpath(p.c_str(), b) ? b : p; }
struct World {
  std::string root; std::vector<std::string> dirs; std::map<std::string, File> files; std::vector<std::string> path; // path: search directories
  std::string resolve(const std::string& n) { if (n[0] == '/') return files.count(n) ? n : ""; std::string m = n; while (m.compare(0, 2, "./") == 0) m = m.substr(2); if (files.count(root + "/cwd/" + m)) return root + "/cwd/" + m; for (auto& d : path) if (!d.empty() && files.count(d + "/" + m)) return d + "/" + m; return ""; }
};
struct Exp { bz::Trace trace; bool missing = false, broken = false; std::string badfile, badname; size_t badline = 0; size_t budget = 400; size_t files = 0, skipped = 0, depth = 0; };
static void expand(World& w, const std::string& f, std::vector<std::string>& open, Exp& e) {
  open.push_back(f); ++e.files; e.depth = std::max(e.depth, open.size()); File& F = w.files[f]; size_t line = 1;
  for (auto& it : F.items) { if (e.missing || e.broken) break; if (e.budget == 0) throw Discard(); --e.budget;
    if (it.k == 0) e.trace.push_back("s:" + bz::qs(it.name)); else if (it.k == 3) { e.broken = true; e.badfile = f; e.badline = line + 0; }
    else { std::string r = w.resolve(it.name); if (r.empty()) { e.missing = true; e.badfile = f; e.badline = line + std::count(it.text.begin(), it.text.begin() + it.text.find("include"), '\n'); e.badname = it.name; } else if (std::find(open.begin(), open.end(), r) != open.end()) ++e.skipped; else expand(w, r, open, e); }
    line += std::count(it.text.begin(), it.text.end(), '\n'); }
  open.pop_back();
}
static void includes(Src& s, Ctx& c) {
  World w; w.root = real(scratch()) + "/inc"; std::string cmd; auto md = [&](const std::string& d) { mkdir(d.c_str(), 0700); }; md(w.root); md(w.root + "/cwd"); md(w.root + "/cwd/sub"); for (int i = 0; i < 3; ++i) md(w.root + "/d" + bz::S(i)); std::vector<std::string> places = {w.root + "/cwd", w.root + "/d0", w.root + "/d1", w.root + "/d2", w.root + "/cwd/sub"};
  size_t nn = 1 + s.draw(4); std::vector<std::string> names; for (size_t i = 0; i < nn; ++i) names.push_back(s.pickl<const char*>({"a", "lib b", "incl-c", "d.d", "long_name_of_a_file"}) + bz::S(i) + ".bzz"); std::string main = w.root + "/cwd/main.bzz"; w.files[main]; for (auto& n : names) { size_t k = 1 + s.draw(2); for (size_t i = 0; i < k; ++i) w.files[s.pick(places) + "/" + n]; }
  { size_t np = s.draw(5); for (size_t i = 0; i < np; ++i) w.path.push_back(s.chance(1, 6) ? std::string() : s.chance(1, 8) ? w.root + "/nowhere" : w.root + "/d" + bz::S(s.draw(3))); } bool noenv = w.path.empty() && s.flip();
  int wrong = s.chance(1, 5) ? (int)s.range(1, 2) : 0; std::vector<std::string> all; for (auto& f : w.files) all.push_back(f.first); std::string victim = wrong ? s.pick(all) : ""; int serial = 0;
  std::vector<std::string> ok; for (auto& n : names) if (!w.resolve(n).empty()) ok.push_back(n);
  for (auto& f : w.files) { size_t n = s.len(7); File& F = f.second; F.path = f.first; size_t bad = f.first == victim ? s.draw(n + 1) : SIZE_MAX;
    for (size_t i = 0; i < n || i == bad; ++i) { Item it; bool last = i + 1 >= n && (i != bad); std::string nl = last && s.chance(1, 3) ? "" : s.chance(1, 4) ? "\n\n" : s.chance(1, 6) ? " # comment\n" : "\n";
      if (i == bad) { if (wrong == 1) { it.k = 1; it.name = s.pickl<const char*>({"no-such-file.bzz", "/nonexistent/x.bzz", "x"}); it.text = "include \"" + it.name + "\"\n"; } else { it.k = 3; it.text = s.pickl<const char*>({"log(1,)\n", "x = ]\n", "if x\n", ") log(2)\n"}); } F.items.push_back(it); continue; }
      if (ok.empty() || s.chance(3, 5)) { it.k = 0; it.name = "L" + bz::S(++serial); it.text = s.chance(1, 6) ? "if(1) {\nlog(\"" + it.name + "\")\n}" + nl : "log(\"" + it.name + "\")" + nl; }
      else { it.k = 1 + (int)s.chance(1, 6); std::string n2 = s.pick(ok); int sp = (int)s.draw(8); if (sp == 0) n2 = w.resolve(n2); else if (sp == 1 && w.files.count(w.root + "/cwd/" + n2)) n2 = "./" + n2; else if (sp == 2 && w.files.count(w.root + "/cwd/sub/" + n2)) n2 = "sub/" + n2; else if (sp == 3) n2 = "main.bzz"; it.name = n2; char q = s.flip() ? '"' : '\''; std::string gap = s.pickl<const char*>({" ", "  ", "\t", ""}); std::string inc = "include" + gap + q + n2 + q; it.text = it.k == 2 ? "if(1) {\n" + inc + "\n}" + nl : inc + nl; }
      F.items.push_back(it); }
    std::string text; for (auto& it : F.items) text += it.text; bz::writefile(f.first, text); c.note("--- " + f.first.substr(w.root.size()) + "\n" + text); }
  std::string env; for (size_t i = 0; i < w.path.size(); ++i) env += (i ? ":" : "") + w.path[i] + (!w.path[i].empty() && s.chance(1, 4) ? "/" : ""); c.note("BUZZ_INCLUDE_PATH=" + env); Exp e; std::vector<std::string> open; bool disc = false; try { expand(w, main, open, e); } catch (Discard&) { disc = true; }
  if (!disc) {
    int here = ::open(".", O_RDONLY); if (chdir((w.root + "/cwd").c_str())) {} if (noenv) unsetenv("BUZZ_INCLUDE_PATH"); else setenv("BUZZ_INCLUDE_PATH", env.c_str(), 1); bool absmain = s.flip(); bz::Compiled k; std::string out = scratch() + "/inc.basm"; std::string diag = cap([&] { k.parsed = bz::parse_file(absmain ? main : "main.bzz", out); if (k.parsed) bz::assemble_file(out, k); }); if (fchdir(here)) {} close(here);
    if (e.missing) { if (k.parsed) fail("a script with an include that cannot be found is accepted"); std::string loc = e.badfile + ":" + bz::S(e.badline) + ":"; if (diag.find(e.badname) == std::string::npos) fail("the diagnostic does not name the missing file " + e.badname + ": " + diag); if (diag.find(loc) == std::string::npos) fail("the diagnostic does not name the place " + loc + ": " + diag); c.cls("missing"); }
    else if (e.broken) { if (k.parsed) fail("a script with a syntax error in a file is accepted"); std::string loc = e.badfile + ":" + bz::S(e.badline) + ":"; if (diag.find(loc) == std::string::npos) fail("the diagnostic does not name the place " + loc + ": " + diag); c.cls("syntax-error"); }
    else { if (!k.parsed || !k.assembled) fail("a valid script with includes is rejected: " + diag); bz::VM vm(1); if (!vm.load(k.bcode)) fail("load"); if (!vm.run()) fail("the script did not finish"); if (vm.vm->state != BUZZVM_STATE_DONE) fail("the script stopped: " + vm.err()); if (vm.trace != e.trace) fail(bz::trace_diff(e.trace, vm.trace)); c.cls("runs"); }
    c.nontrivial = e.files > 2; c.cls("files-expanded", e.files); c.cls("depth", e.depth); if (e.skipped) c.cls("cyclic"); unsetenv("BUZZ_INCLUDE_PATH"); }
  for (auto& f : w.files) unlink(f.first.c_str()); if (disc) throw Discard();
}
// splitting a program into files does not change it
static void split(Src& s, Ctx& c) {
  std::string dir = real(scratch()) + "/sp"; mkdir(dir.c_str(), 0700); size_t n = 3 + s.draw(12); std::vector<std::string> st; for (size_t i = 0; i < n; ++i) switch (s.draw(5)) { case 0: st.push_back(bz::fmt("function fn%zu(a) {\n return a + %zu\n}\n", i, i)); break; case 1: st.push_back(bz::fmt("g%zu = \"text # %zu\"\nlog(g%zu)\n", i, i, i)); break; case 2: st.push_back(bz::fmt("var v%zu = { .a = %zu, .b = { .c = 1 } }\nlog(v%zu.a)\n", i, i, i)); break; case 3: st.push_back(bz::fmt("if(%zu > 3) { log(\"big\") } else { log(\"small\") }\n", i)); break; default: st.push_back(bz::fmt("for(i = 0, i < %zu, i = i + 1) log(i)\n", s.draw(4))); }
  std::string flat; for (auto& x : st) flat += x; std::vector<std::string> made; size_t fid = 0;
  std::function<std::string(size_t, size_t, int)> build = [&](size_t a, size_t b, int d) { std::string r; for (size_t i = a; i < b;) { if (d < 4 && s.chance(1, 3)) { size_t e = i + 1 + s.draw(b - i); std::string f = dir + bz::fmt("/p%zu.bzz", fid++), body = build(i, e, d + 1); if (s.flip() && !body.empty() && body.back() == '\n') body.pop_back(); bz::writefile(f, body); made.push_back(f); r += "include \"" + f + "\"" + s.pickl<const char*>({"\n", "\n\n", " ", ";", " # c\n"}); i = e; } else r += st[i++]; } return r; };
  std::string top = build(0, n, 0); c.note(top + "\n--- is the same as\n" + flat); bz::Trace t[2]; for (int v = 0; v < 2; ++v) { bz::Compiled k; std::string diag = cap([&] { bz::compile(v ? top : flat, k); }); if (!k.assembled) fail("rejected: " + diag); bz::VM vm(1); if (!vm.load(k.bcode)) fail("load"); if (!vm.run()) fail("did not finish"); if (vm.vm->state != BUZZVM_STATE_DONE) fail("the script stopped: " + vm.err()); t[v] = vm.trace; } if (t[0] != t[1]) fail(bz::trace_diff(t[0], t[1])); for (auto& f : made) unlink(f.c_str()); c.nontrivial = made.size() > 1;
}
// an error after includes on the same line is reported at its own column
static void columns(Src& s, Ctx& c) {
  std::string dir = real(scratch()) + "/col"; mkdir(dir.c_str(), 0700); std::vector<std::string> made; size_t serial = 0;
  auto stm = [&] { return s.pickl<const char*>({"x = 1", "log(\"a b\")", "y = { .a = 2 }", "if(1) { z = 3 }", "t = 'it is'", ""}); };
  std::string main = dir + "/main.bzz", text; std::vector<std::string> libs; bool inlib = s.flip(); size_t nl = 1 + s.draw(3);
  for (size_t i = 0; i < nl; ++i) { std::string f = dir + bz::fmt("/l%zu.bzz", i), b; for (size_t k = s.draw(4); k > 0; --k) b += std::string(stm()) + (s.flip() ? "\n" : "; "); if (!b.empty()) b += s.pickl<const char*>({"\n", "; ", "# end", "\n\n  "}); bz::writefile(f, b); made.push_back(f); libs.push_back(f); c.note("--- " + f + "\n" + b); }
  auto bl = [&] { return s.pickl<const char*>({"", " ", "  ", "\t", "     "}); };
  for (size_t k = s.draw(4); k > 0; --k) text += std::string(stm()) + (s.chance(1, 3) ? std::string("; include '") + s.pick(libs) + "'" : std::string()) + s.pickl<const char*>({"\n", "\n\n", " # c\n"});
  size_t line = 1 + std::count(text.begin(), text.end(), '\n'), from = text.size(); size_t ni = s.draw(4);
  for (size_t k = 0; k < ni; ++k) { if (s.flip()) text += std::string(bl()) + stm() + bl() + ";"; char q = s.flip() ? '"' : '\''; std::string self = inlib ? dir + "/mid.bzz" : main; text += std::string(bl()) + "include" + bl() + q + (s.chance(1, 5) ? self : s.pick(libs)) + q + bl() + (s.flip() ? ";" : " "); ++serial; }
  int kind = (int)s.draw(4); std::string bad, want; size_t col = 0;
  switch (kind) {
    case 0: bad = std::string(bl()) + ")"; col = bad.size() - 1; break;
    case 1: bad = std::string(bl()) + "x = " + bl() + "]"; col = bad.size() - 1; break;
    case 2: bad = std::string(bl()) + "f(1," + bl(); col = bad.size(); bad += "=)"; break;
    default: bad = std::string(bl()) + "var q = 1; q = " + bl() + "1 + "; col = bad.size(); bad += "while"; break;
  }
  col += text.size() - from; text += bad + s.pickl<const char*>({"", "\n", " x = 1\n", "\n\ny = 2"});
  std::string at = main; if (inlib) { at = dir + "/mid.bzz"; bz::writefile(at, text); made.push_back(at); bz::writefile(main, std::string(bl()) + stm() + ";" + bl() + "include '" + at + "' ;\n"); } else bz::writefile(main, text); made.push_back(main);
  c.note("--- " + at + "\n" + text); bool ok = false; std::string diag = cap([&] { ok = bz::parse_file(main, scratch() + "/col.basm"); }); want = at + bz::fmt(":%zu:%zu:", line, col); for (auto& f : made) unlink(f.c_str());
  if (ok) fail("a script with a syntax error is accepted"); if (diag.find(want) == std::string::npos) fail("the diagnostic does not name the place " + want + ": " + diag);
  c.nontrivial = serial > 0; c.cls("includes-on-the-line", serial);
}
int main(int argc, char** argv) {
  return run(argc, argv, "P26", {{"includes", includes, 25000, 400000}, {"split", split, 12000, 200000}, {"columns", columns, 8000, 100000}});
}
