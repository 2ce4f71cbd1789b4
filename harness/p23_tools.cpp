// The command-line tools: script to bytecode to execution, exit codes, files that cannot be read or written.
#include "lang.hpp"
#include "bytecode.hpp"
using namespace ref; using namespace pbt;
struct Out { int code = -1, sig = 0; std::string out, err; std::string show() const { return sig ? bz::fmt("killed by signal %d", sig) : bz::fmt("exit code %d", code); } };
static std::string tool(const char* n) { const char* e = getenv(n); if (!e) { fprintf(stderr, "missing %s\n", n); _exit(3); } return e; }
static std::string PARSE() { return tool("TOOL_BUZZPARSE"); } static std::string ASM() { return tool("TOOL_BUZZASM_MAIN"); } static std::string DEASM() { return tool("TOOL_BUZZDEASM_MAIN"); } static std::string RUN() { return tool("TOOL_BUZZRUN"); }
static Out spawn(const std::string& cwd, const std::vector<std::string>& a, const std::vector<std::string>& env = {}, const char* so = nullptr) {
  std::string of = scratch() + "/t.out", ef = scratch() + "/t.err"; pid_t p = fork();
  if (p == 0) { int i = open("/dev/null", O_RDONLY), o = open(so ? so : of.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(i, 0); dup2(o, 1); dup2(e, 2); if (chdir(cwd.c_str())) _exit(126); setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:allocator_may_return_null=1", 1); for (auto& x : env) putenv(strdup(x.c_str())); alarm(60); std::vector<char*> v; for (auto& x : a) v.push_back((char*)x.c_str()); v.push_back(nullptr); execv(v[0], v.data()); _exit(127); }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} Out r; if (WIFEXITED(st)) r.code = WEXITSTATUS(st); else r.sig = WTERMSIG(st); if (!so) r.out = bz::readfile(of); r.err = bz::readfile(ef); return r;
}
static void harmless(const Out& o, const std::string& what) { if (o.sig || o.code == 99 || o.err.find("runtime error:") != std::string::npos) fail(what + ": " + o.show() + "\n" + o.err.substr(0, 1500)); }
static std::string fresh(const char* n) { std::string d = scratch() + "/" + n; if (system(("rm -rf '" + d + "'").c_str())) {} mkdir(d.c_str(), 0700); return d; }
static std::string g_print; static int hook_print(buzzvm_t vm) {
  for (int64_t i = 1; i < (int64_t)buzzdarray_size(vm->lsyms->syms); ++i) { buzzvm_lload(vm, i); buzzobj_t o = buzzvm_stack_at(vm, 1); switch (o->o.type) { case BUZZTYPE_NIL: g_print += "[nil]"; break; case BUZZTYPE_INT: g_print += bz::S(o->i.value); break; case BUZZTYPE_FLOAT: g_print += bz::fmt("%f", o->f.value); break; case BUZZTYPE_STRING: g_print += o->s.value.str; break; case BUZZTYPE_TABLE: g_print += bz::fmt("[table with %u elems]", (unsigned)buzzdict_size(o->t.value)); break; case BUZZTYPE_CLOSURE: g_print += bz::fmt(o->c.value.isnative ? "[n-closure @%d]" : "[c-closure @%d]", o->c.value.ref); break; default: g_print += "?"; } buzzvm_pop(vm); }
  g_print += "\n"; return buzzvm_ret0(vm);
}
static std::vector<std::string> split(const std::string& t) { std::vector<std::string> r; std::istringstream is(t); std::string l; while (std::getline(is, l)) r.push_back(l); return r; }
// generated programs through the tools and in process
static void pipeline(Src& s, Ctx& c) {
  Gen g(s); g.chaos = s.chance(1, 3); g.tables = s.flip(); g.closures = s.chance(1, 3); g.budget = 30 + (int)s.draw(60); Block p = g.program(2 + (int)s.draw(10), (int)s.draw(3)); // any text and any number reaches the output as it is
  for (size_t i = 0, k = s.draw(3); i < k; ++i) { std::vector<E> a; for (size_t j = 0, m = 1 + s.draw(4); j < m; ++j) switch (s.draw(6)) { case 0: a.push_back(num((int32_t)s.pickl<int64_t>({0, 7, 100, INT32_MAX, -INT32_MAX, 65536}))); break; case 1: a.push_back(flt(edgeflt(s))); break; case 2: a.push_back(s.flip() ? (E)nil() : (E)mk(TAB)); break; default: { std::string t; for (size_t q = 0, w = s.draw(10); q < w; ++q) t += s.pickl<const char*>({"%", "%d", "%s", "%c", "%n", "%%", "a", " ", "\n", "\t", "'", "\"", "\\", "$", "0", "\xc3\xa9", "\x01"}); if (s.chance(1, 20)) t += std::string(1 + s.draw(5000), 'z'); a.push_back(str(t)); } } p.insert(p.begin() + s.draw(p.size() + 1), logst(a)); }
  Printer pr; pr.src = &s; std::string src = pr.program(p); Interp in; std::string why; int rc = in.run(p, &why); if (rc > 1) throw Discard(); c.note(src);
  std::string d = fresh("pipe"); bz::writefile(d + "/a.bzz", src); bool bst = s.chance(1, 4); std::vector<std::string> pa = {PARSE(), "a.bzz", "a.basm"}; std::vector<std::string> pre; if (bst) { size_t n = s.draw(6); std::string t; for (size_t i = 0; i < n; ++i) { std::string w = s.pickl<const char*>({"x", "log", "a b", "zz", "t", "unused string"}); if (std::find(pre.begin(), pre.end(), w) == pre.end()) pre.push_back(w); } for (size_t i = 0; i < pre.size(); ++i) t += pre[i] + (i + 1 == pre.size() && s.flip() ? "" : "\n"); bz::writefile(d + "/s.bst", t); pa.push_back("s.bst"); }
  Out o = spawn(d, pa); harmless(o, "bzzparse"); if (o.code != 0) fail("bzzparse of a valid script: " + o.show() + "\n" + o.err); if (!o.err.empty() || !o.out.empty()) fail("bzzparse of a valid script prints " + o.out + o.err); o = spawn(d, {ASM(), "a.basm", "a.bo", "a.bdb"}); harmless(o, "bzzasm"); if (o.code != 0) fail("bzzasm of compiler output: " + o.show() + "\n" + o.err); if (!o.err.empty() || !o.out.empty()) fail("bzzasm prints " + o.out + o.err);
  std::string bo = bz::readfile(d + "/a.bo"); std::vector<uint8_t> code(bo.begin(), bo.end()); bc::Code k; std::string e = bc::decode(code, k); if (!e.empty()) fail("the bytecode file is damaged: " + e); for (size_t i = 0; i < pre.size(); ++i) if (i >= k.strings.size() || k.strings[i] != pre[i]) fail("string " + bz::S(i) + " of the string list is " + (i < k.strings.size() ? k.strings[i] : "missing") + " instead of " + pre[i]);
  if (!bst) { bz::Compiled cc; cc.parsed = bz::parse_file(d + "/a.bzz", d + "/b.basm"); if (!cc.parsed || !bz::assemble_file(d + "/b.basm", cc) || cc.bcode != code) fail("the bytecode file is not what the compiler makes"); }
  g_print.clear(); bz::VM vm(1); if (!vm.load(code)) fail("load"); vm.hook("log", hook_print); vm.run(3000000); bool done = vm.vm->state == BUZZVM_STATE_DONE; if (done != (rc == 0)) return; bool trace = s.chance(1, 6) && vm.steps < 3000; bool nodbg = s.chance(1, 8); std::vector<std::string> ra = {RUN()}; if (trace) ra.push_back("--trace"); ra.push_back("a.bo"); ra.push_back(nodbg ? "none.bdb" : "a.bdb"); o = spawn(d, ra); harmless(o, "bzzrun"); if (o.code != (done ? 0 : 1)) fail(std::string("bzzrun of a script that ") + (done ? "ends normally" : "fails") + ": " + o.show() + "\n" + o.err);
  std::string want = g_print + (done ? "a.bo: execution terminated correctly\n\n" : ""); if (!trace) { if (o.out != want) { auto a = split(want), b = split(o.out); fail("bzzrun prints something else: " + bz::trace_diff(a, b)); } } else { // the printed lines are there, in order
    auto a = split(g_print), b = split(o.out); size_t i = 0; for (auto& l : b) if (i < a.size() && l == a[i]) ++i; if (i < a.size()) fail("bzzrun --trace does not print " + a[i]); size_t dumps = 0; for (auto& l : b) if (l.compare(0, 12, "next instr: ") == 0) ++dumps; if (dumps < vm.steps) fail(bz::fmt("bzzrun --trace shows %zu of %zu steps", dumps, (size_t)vm.steps)); if (done && o.out.find("execution terminated correctly") == std::string::npos) fail("bzzrun --trace does not end normally"); c.cls("trace"); }
  if (!done) { if (o.err.find(vm.err()) == std::string::npos) fail("bzzrun does not report the error '" + vm.err() + "': " + o.err); if (o.err.find(nodbg ? "bytecode offset" : "/a.bzz:") == std::string::npos) fail("bzzrun does not locate the error: " + o.err); }
  o = spawn(d, {DEASM(), "a.bo", nodbg ? "none.bdb" : "a.bdb", "d.basm"}); harmless(o, "bzzdeasm"); if (o.code != 0) fail("bzzdeasm: " + o.show() + "\n" + o.err); size_t ins = 0; for (auto& l : split(bz::readfile(d + "/d.basm"))) if (!l.empty() && isdigit((unsigned char)l[0])) ++ins; size_t strs = 0; for (auto& x : k.strings) (void)x, ++strs; if (ins < k.ins.size()) fail(bz::fmt("bzzdeasm lists %zu of %zu instructions", ins, k.ins.size())); c.nontrivial = src.size() > 150; c.cls(done ? "ends" : "fails");
}
static std::string bzzc_script() { static std::string f; if (f.empty()) { std::string t = bz::readfile(tool("TOOL_BZZC_IN")); size_t p; while ((p = t.find("@CPACK_PACKAGE_VERSION@")) != std::string::npos) t.replace(p, 23, "0"); f = scratch() + "/bzzc"; bz::writefile(f, t); chmod(f.c_str(), 0700); } return f; }
static std::set<std::string> list(const std::string& d) { std::set<std::string> r; FILE* p = popen(("cd '" + d + "' && find . -type f | sort").c_str(), "r"); char b[4096]; while (p && fgets(b, sizeof b, p)) { std::string l = b; while (!l.empty() && l.back() == '\n') l.pop_back(); r.insert(l.substr(2)); } if (p) pclose(p); return r; }
static void compiler(Src& s, Ctx& c) {
  std::string d = fresh("cc"); mkdir((d + "/sub").c_str(), 0700); mkdir((d + "/out dir").c_str(), 0700); mkdir((d + "/lib").c_str(), 0700); std::string base = s.pickl<const char*>({"a", "my script", "two  blanks", "a.b", "sub/x", "*", "-", "long_name_of_script"}); if (base == "-") base = "x-"; std::string script = base + ".bzz"; int bad = (int)s.draw(6); // 0: syntax error, 1: missing, 2: unwritable output
  bool inc = s.chance(1, 3); std::string src = std::string("log(\"hi\")\n") + (inc ? "include \"used.bzz\"\n" : "") + (bad == 0 ? "x = = 3\n" : "x = 3\n"); if (bad != 1) bz::writefile(d + "/" + script, src); if (inc) bz::writefile(d + "/lib/used.bzz", "log(\"inc\")\n"); std::set<std::string> want = list(d); std::vector<std::string> a = {"/bin/bash", bzzc_script()}; std::string bo = base + ".bo", bdb = base + ".bdb", basm; std::vector<std::vector<std::string>> opts;
  if (s.chance(1, 3)) { bo = s.pickl<const char*>({"q.bo", "out dir/q.bo", "sub/q"}); opts.push_back({s.flip() ? "-b" : "--bytecode", bo}); } if (bad == 2) { opts.clear(); opts.push_back({"-b", "nowhere/q.bo"}); } if (s.chance(1, 3)) { bdb = s.pickl<const char*>({"q.bdb", "out dir/q.bdb"}); opts.push_back({s.flip() ? "-d" : "--debug", bdb}); } if (s.chance(1, 3)) { basm = s.pickl<const char*>({"q.basm", "out dir/q.basm"}); opts.push_back({s.flip() ? "-a" : "--asm", basm}); } std::string first = "lib", env; if (inc) { /* where the file is found first: the environment, then the options; the same name may be in several places */
    auto I = [&] { return std::string(s.flip() ? "-I" : "--include"); }; mkdir((d + "/lib2").c_str(), 0700); if (s.flip()) { bz::writefile(d + "/lib2/used.bzz", "log(\"inc2\")\n"); want.insert("lib2/used.bzz"); }
    switch (s.draw(6)) { case 0: opts.push_back({I(), "lib"}); break; case 1: opts.push_back({I(), "nolib:lib"}); break; case 2: opts.push_back({I(), "lib:lib2"}); break; case 3: opts.push_back({I(), "lib2:lib"}); first = "lib2"; break; case 4: opts.push_back({I(), "lib2"}); env = s.flip() ? "lib" : "nolib:lib/"; break; default: opts.push_back({I(), "lib"}); env = "lib2"; first = "lib2"; } if (!want.count("lib2/used.bzz")) first = "lib"; }
  opts.push_back({script}); for (size_t i = opts.size(); i > 1; --i) std::swap(opts[i - 1], opts[s.draw(i)]); for (auto& o : opts) for (auto& x : o) a.push_back(x);
  std::string cmd = "bzzc"; for (size_t i = 2; i < a.size(); ++i) cmd += " '" + a[i] + "'"; c.note(cmd + "\n" + src); std::string path = "PATH=/usr/bin:/bin"; std::vector<std::string> vars = {path, "BZZPARSE=" + PARSE(), "BZZASM=" + ASM()}; if (!env.empty()) vars.push_back("BUZZ_INCLUDE_PATH=" + env); Out o = spawn(d, a, vars); std::set<std::string> got = list(d);
  if (bad <= 2) { if (o.code == 0) fail(cmd + " succeeds although it cannot compile"); if (o.err.empty() && o.out.empty()) fail(cmd + " fails without a message"); for (auto& f : got) if (!want.count(f) && f != bo && f != bdb && f != basm) fail(cmd + " leaves " + f + " behind"); c.cls("fails"); }
  else { if (o.code != 0) fail(cmd + ": " + o.show() + "\n" + o.err); want.insert(bo); want.insert(bdb); if (!basm.empty()) want.insert(basm); if (got != want) { std::string x; for (auto& f : got) if (!want.count(f)) x += " unexpected " + f; for (auto& f : want) if (!got.count(f)) x += " missing " + f; fail(cmd + ":" + x); } Out r = spawn(d, {RUN(), bo, bdb}); if (r.code != 0 || r.out.compare(0, !inc ? 3 : first == "lib" ? 7 : 8, !inc ? "hi\n" : first == "lib" ? "hi\ninc\n" : "hi\ninc2\n") != 0) fail("the compiled script does not run: " + r.out + r.err); c.cls("compiles"); }
  c.nontrivial = opts.size() > 2;
}
// wrong command lines, missing, unreadable and unwritable files
static void misuse(Src& s, Ctx& c) {
  std::string d = fresh("mis"); bz::writefile(d + "/a.bzz", "log(1)\nx = { .a = 2 }\nlog(x.a)\n"); spawn(d, {PARSE(), "a.bzz", "a.basm"}); spawn(d, {ASM(), "a.basm", "a.bo", "a.bdb"}); bz::writefile(d + "/empty", ""); bz::writefile(d + "/bad.bzz", "x = = 2\n"); bz::writefile(d + "/bad.basm", "!1\n'x\n\tfrobnicate 3\n"); mkdir((d + "/dir").c_str(), 0700);
  std::string junk; for (size_t i = 0, n = s.draw(60); i < n; ++i) junk += (char)s.draw(256); bz::writefile(d + "/junk", junk); int t = (int)s.draw(4); std::vector<std::string> a; bool must = false; std::string out = s.pickl<const char*>({"o1", "nowhere/o1", "dir", "/dev/full"}), out2 = s.pickl<const char*>({"o2", "nowhere/o2", "dir", "/dev/full"}); bool badout = out != "o1", badout2 = out2 != "o2";
  switch (t) { case 0: { std::string in = s.pickl<const char*>({"a.bzz", "none.bzz", "bad.bzz", "a.bzz"}); a = {PARSE(), in, out}; must = in != "a.bzz" || badout; if (s.chance(1, 3)) { std::string b = s.pickl<const char*>({"none.bst", "empty", "a.bzz"}); a.push_back(b); must |= b == "none.bst"; } break; }
    case 1: { std::string in = s.pickl<const char*>({"a.basm", "none.basm", "bad.basm", "a.basm"}); a = {ASM(), in, out, out2}; must = in != "a.basm" || badout || badout2; break; }
    case 2: { std::string in = s.pickl<const char*>({"a.bo", "none.bo", "empty", "dir", "a.bo"}); a = {DEASM(), in, s.pickl<const char*>({"a.bdb", "none.bdb", "empty"}), out}; must = in != "a.bo" || badout; break; }
    default: { std::string in = s.pickl<const char*>({"a.bo", "none.bo", "dir", "a.bo"}); a = {RUN()}; if (s.chance(1, 4)) { a.push_back("--tracy"); must = true; } a.push_back(in); a.push_back(s.pickl<const char*>({"a.bdb", "none.bdb", "empty", "junk"})); must |= in != "a.bo"; } }
  int count = (int)s.draw(6); if (count == 0) { a.resize(1 + s.draw(a.size() - 1 > 0 ? 2 : 1)); must = false; } if (count == 1) { a.push_back("extra"); a.push_back("more"); a.push_back("args"); must = false; }
  std::string cmd; for (size_t i = 0; i < a.size(); ++i) cmd += (i ? " " + a[i] : std::string(t == 0 ? "bzzparse" : t == 1 ? "bzzasm" : t == 2 ? "bzzdeasm" : "bzzrun")); c.note(cmd); Out o = spawn(d, a); harmless(o, cmd);
  if (count <= 1) { if (o.err.find("Usage") == std::string::npos) fail(cmd + " prints no usage: " + o.err); } else if (must) { if (o.code == 0) fail(cmd + " succeeds although it cannot do its work"); if (o.err.empty()) fail(cmd + " fails without a message"); } else if (o.code != 0) fail(cmd + ": " + o.show() + "\n" + o.err);
  c.nontrivial = true; c.cls(count <= 1 ? "usage" : must ? "must-fail" : "must-work");
}
int main(int argc, char** argv) {
  return run(argc, argv, "P23", {{"pipeline", pipeline, 2400, 60000}, {"bzzc", compiler, 700, 15000}, {"misuse", misuse, 1600, 30000}});
}
