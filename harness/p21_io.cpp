// Files: what a script writes is what is in the file and what is read back.
#include "lang.hpp"
using namespace ref; using namespace pbt;
static std::string text(Src& s, size_t max) { std::string r; size_t n = s.len(max); int k = (int)s.draw(3); for (size_t i = 0; i < n; ++i) { if (k == 0) r += (char)('a' + s.draw(26)); else if (k == 1) r += s.pickl<char>({'a', 'b', ' ', '\t', '%', 's', 'd', 'n', '"', '\'', '\\', '\r', '0', '1'}); else { char ch = (char)s.range(1, 255); r += ch == '\n' ? 'x' : ch; } } return r; }
static std::string content(Src& s) { std::string r; size_t n = s.len(8); for (size_t i = 0; i < n; ++i) { r += text(s, s.chance(1, 25) ? 5000 : 15); if (i + 1 < n || !s.chance(1, 3)) r += "\n"; if (s.chance(1, 8)) r += "\n"; } return r; }
static std::vector<std::string> lines(const std::string& c, size_t from) { std::vector<std::string> r; size_t p = from; while (p < c.size()) { size_t q = c.find('\n', p); if (q == std::string::npos) q = c.size(); r.push_back(c.substr(p, q - p)); p = q + 1; } return r; }
static std::string qv(const std::string& x) { return "s:" + bz::qs(x); }
struct H { size_t file; std::string mode; size_t pos; bool open, dirty; };
static void history(Src& s, Ctx& c) {
  size_t nf = 1 + s.draw(3); std::map<size_t, std::string> fs; std::string src; bz::Trace want; Printer pr; std::vector<H> hs; auto fname = [&](size_t i) { return scratch() + "/io" + bz::S(i); };
  for (size_t i = 0; i < nf; ++i) { unlink(fname(i).c_str()); src += bz::fmt("n%zu = \"", i) + fname(i) + "\"\n"; if (s.flip()) { fs[i] = content(s); bz::writefile(fname(i), fs[i]); } }
  std::map<size_t, std::string> before = fs; src += "log(io.errno, io.error_message)\n"; want.push_back("i:0 " + qv("No error")); size_t n = 3 + s.len(30), ops = 0; bool dies = false;
  for (size_t k = 0; k < n && !dies; ++k) {
    size_t op = s.draw(10); std::vector<size_t> open; for (size_t i = 0; i < hs.size(); ++i) if (hs[i].open) open.push_back(i);
    if (op < 3 || open.empty()) {
      size_t f = s.draw(nf); std::string mode = s.pickl<const char*>({"r", "w", "a", "w+", "a+"}); bool wr = mode != "r", busy = false; for (auto& h : hs) if (h.open && h.file == f && (wr || h.mode != "r")) busy = true; if (busy) continue; size_t id = hs.size(); std::string v = "f" + bz::S(id);
      if (s.chance(1, 10)) { std::string bad = s.flip() ? scratch() + "/no-such-dir/x" : scratch(); std::string m2 = s.pickl<const char*>({"w", "a", "w+", "a+"}); src += "x = io.fopen(\"" + bad + "\", \"" + m2 + "\")\nlog(x, io.errno, io.error_message)\n"; int e = bad == scratch() ? EISDIR : ENOENT; want.push_back("nil i:" + bz::S(e) + " " + qv(strerror(e))); ++ops; continue; }
      src += v + " = io.fopen(n" + bz::S(f) + ", \"" + mode + "\")\nlog(" + v + " == nil, io.errno, io.error_message)\n"; ++ops; bool ok = wr || fs.count(f); if (!ok) { want.push_back("i:1 i:" + bz::S(ENOENT) + " " + qv(strerror(ENOENT))); hs.push_back({f, mode, 0, false, false}); continue; }
      want.push_back("i:0 i:0 " + qv("No error")); if (mode[0] == 'w') fs[f] = ""; else fs[f]; hs.push_back({f, mode, 0, true, false}); src += "log(" + v + ".name == n" + bz::S(f) + ")\n"; want.push_back("i:1"); continue;
    }
    size_t hi = open[s.draw(open.size())]; H& h = hs[hi]; std::string v = "f" + bz::S(hi); std::string& d = fs[h.file]; ++ops;
    switch (op) {
      case 3: case 4: case 5: { // write
        size_t na = 1 + s.draw(4); std::string call = "io.fwrite(" + v, out; for (size_t a = 0; a < na; ++a) switch (s.draw(7)) { case 0: { int32_t x = (int32_t)s.range(-100000, 100000); call += ", " + bz::S(x); out += bz::S(x); break; } case 1: { float x = (float)s.range(-100000, 100000) / 8; call += ", " + Printer::fnum(x); out += bz::fmt("%f", x); break; } case 2: call += ", nil"; out += "[nil]"; break; case 3: { size_t e = s.draw(4); src += bz::fmt("tt%zu_%zu = {}\n", k, a); for (size_t i = 0; i < e; ++i) src += bz::fmt("tt%zu_%zu[%zu] = 1\n", k, a, i); call += bz::fmt(", tt%zu_%zu", k, a); out += bz::fmt("[table with %zu elems]", e); break; } default: { std::string t = text(s, s.chance(1, 25) ? 4000 : 12); if (s.chance(1, 8)) t += "\n" + text(s, 5); call += ", " + pr.quote(t); out += t; } }
        src += call + ")\nlog(io.errno)\n"; if (h.mode == "r") { want.push_back("i:" + bz::S(EBADF)); h.dirty = true; } else { want.push_back("i:0"); d += out + "\n"; h.pos = d.size(); } break; }
      case 6: case 7: { // lines (the C library refuses to read a stream after a failed write)
        if (h.dirty) break;
        int kind = (int)s.draw(4); std::vector<std::string> l; bool rd = h.mode == "r" || h.mode == "a+" || h.mode == "w+"; if (rd) { l = lines(d, h.pos); h.pos = d.size(); } size_t other = SIZE_MAX; for (size_t i : open) if (i != hi && hs[i].mode != "r" && hs[i].file != h.file) other = i;
        if (kind == 0 && other != SIZE_MAX) { src += "io.fforeach(" + v + ", function(l) { io.fwrite(f" + bz::S(other) + ", \"<\", l, \">\") })\n"; for (auto& x : l) fs[hs[other].file] += "<" + x + ">\n"; if (!l.empty()) hs[other].pos = fs[hs[other].file].size(); }
        else if (kind == 1) { src += "cnt = 0 sum = \"\"\nio.fforeach(" + v + ", function(l) { cnt = cnt + 1 sum = string.concat(sum, l) return cnt })\nlog(cnt, sum)\n"; std::string sum; for (auto& x : l) sum += x; want.push_back("i:" + bz::S(l.size()) + " " + qv(sum)); }
        else if (kind == 2 && s.chance(1, 8)) { src += "io.fforeach(" + v + ", " + s.pickl<const char*>({"5", "nil", "\"f\"", "{}", "1.5"}) + ")\nlog(\"not reached\")\n"; dies = true; }
        else if (kind == 2 && l.size() > 1 && s.chance(1, 6)) { size_t at = s.draw(l.size()); src += bz::fmt("cnt = 0\nio.fforeach(%s, function(l) { if(cnt == %zu) log(1 + nil) cnt = cnt + 1 log(l) })\nlog(\"not reached\")\n", v.c_str(), at); for (size_t i = 0; i < at; ++i) want.push_back(qv(l[i])); dies = true; }
        else if (kind == 3 && !l.empty() && s.chance(1, 4)) { size_t at = s.draw(l.size()); // the function closes the file
          src += bz::fmt("cnt = 0\nio.fforeach(%s, function(l) { log(l) if(cnt == %zu) { io.fclose(%s) } cnt = cnt + 1 })\nlog(cnt)\n", v.c_str(), at, v.c_str()); for (size_t i = 0; i <= at; ++i) want.push_back(qv(l[i])); want.push_back("i:" + bz::S(at + 1)); h.open = false; break; }
        else if (kind == 3 && !l.empty() && s.chance(1, 4)) { size_t at = s.draw(l.size()); // the function reads the rest
          src += bz::fmt("cnt = 0\nio.fforeach(%s, function(l) { log(1, l) if(cnt == %zu) { io.fforeach(%s, function(l) { log(2, l) }) } cnt = cnt + 1 })\nlog(cnt)\n", v.c_str(), at, v.c_str()); for (size_t i = 0; i < l.size(); ++i) want.push_back((i <= at ? "i:1 " : "i:2 ") + qv(l[i])); want.push_back("i:" + bz::S(at + 1)); }
        else if (kind == 3 && h.mode == "r" && s.chance(1, 3)) { src += "io.fforeach(" + v + ", function(l) { log(io.fsize(" + v + "), l) })\n"; for (auto& x : l) want.push_back("i:" + bz::S(d.size()) + " " + qv(x)); }
        else { src += "io.fforeach(" + v + ", function(l) { log(l, string.length(l)) })\n"; for (auto& x : l) want.push_back(qv(x) + " i:" + bz::S(x.size())); }
        if (!dies && rd && (kind != 0 || other == SIZE_MAX) && s.flip()) { src += "log(io.errno, io.error_message)\n"; want.push_back("i:0 " + qv("No error")); }
        break; }
      case 8: { src += "log(io.fsize(" + v + "))\n"; want.push_back("i:" + bz::S(d.size())); break; }
      default: { src += "io.fclose(" + v + ")\nlog(io.errno)\n"; want.push_back("i:0"); h.open = false; if (s.chance(1, 12)) { src += s.pickl<const char*>({"io.fclose(", "io.fsize(", "io.fwrite("}) + v + (src.substr(src.size() - 10) == "io.fwrite(" ? ", 1)\n" : ")\n"); if (src.find("io.fwrite(" + v + ")\n") != std::string::npos) src.insert(src.rfind(')'), ", 1"); src += "log(\"not reached\")\n"; dies = true; } }
    }
  }
  if (!dies) for (size_t i = 0; i < hs.size(); ++i) if (hs[i].open) src += "io.fclose(f" + bz::S(i) + ")\n"; std::string show; for (auto& f : before) show += "# io" + bz::S(f.first) + " holds " + bz::qs(f.second) + "\n"; c.note(show + src);
  bz::Compiled k; bz::compile(src, k); if (!k.assembled) fail("a valid program is rejected"); bz::VM vm(1); if (!vm.load(k.bcode)) fail("load"); int gc = (int)s.draw(3); uint64_t st = 0; while (vm.vm->state == BUZZVM_STATE_READY && ++st < 2000000) { if (gc == 2) vm.vm->heap->max_objs = 0; buzzvm_step(vm.vm); }
  if (vm.trace != want) fail(bz::trace_diff(want, vm.trace) + " " + vm.err()); if (dies ? vm.vm->state != BUZZVM_STATE_ERROR : vm.vm->state != BUZZVM_STATE_DONE) fail("the script ends in state " + std::string(buzzvm_state_desc[vm.vm->state]) + ": " + vm.err());
  fflush(nullptr); for (size_t i = 0; i < nf; ++i) { struct stat sb; bool ex = stat(fname(i).c_str(), &sb) == 0; if (ex != (fs.count(i) != 0)) fail("file io" + bz::S(i) + (ex ? " was created" : " does not exist")); if (ex && bz::readfile(fname(i)) != fs[i]) fail("file io" + bz::S(i) + " holds " + bz::qs(bz::readfile(fname(i))).substr(0, 1000) + " instead of " + bz::qs(fs[i]).substr(0, 1000)); unlink(fname(i).c_str()); }
  c.nontrivial = ops > 6; c.cls("operations", ops);
  // a script that stops leaves its files open: close them for the next case
  if (dies) { vm.vm->state = BUZZVM_STATE_READY; for (size_t i = 0; i < hs.size(); ++i) if (hs[i].open) { buzzvm_pushs(vm.vm, buzzvm_string_register(vm.vm, ("f" + bz::S(i)).c_str(), 0)); buzzvm_gload(vm.vm); buzzvm_pushs(vm.vm, buzzvm_string_register(vm.vm, "handle", 0)); buzzvm_tget(vm.vm); if (buzzvm_stack_at(vm.vm, 1)->o.type == BUZZTYPE_USERDATA) fclose((FILE*)buzzvm_stack_at(vm.vm, 1)->u.value); } }
}
// copying a file line by line through nested callbacks keeps it
static void copy(Src& s, Ctx& c) {
  std::string a = scratch() + "/ca", b = scratch() + "/cb", d; size_t n = s.draw(s.chance(1, 20) ? 3000 : 60); for (size_t i = 0; i < n; ++i) d += text(s, 40) + "\n"; bz::writefile(a, d); size_t rounds = 1 + s.draw(3);
  std::string src = "function copy(from, to, pre) {\n var f = io.fopen(from, \"r\")\n var g = io.fopen(to, \"w\")\n var k = 0\n io.fforeach(f, function(l) {\n  io.fwrite(g, pre, l)\n  k = k + 1\n })\n io.fclose(f)\n io.fclose(g)\n}\n"; for (size_t r = 0; r < rounds; ++r) src += "copy(\"" + a + "\", \"" + b + "\", \"\")\ncopy(\"" + b + "\", \"" + a + "\", \"+\")\n"; c.note("# " + bz::S(n) + " lines\n" + src);
  bz::Compiled k; bz::compile(src, k); if (!k.assembled) fail("a valid program is rejected"); bz::VM vm(1); if (!vm.load(k.bcode)) fail("load"); if (!vm.run(5000000)) fail("the script did not finish"); if (vm.vm->state != BUZZVM_STATE_DONE) fail("the script stopped: " + vm.err()); std::string w; for (auto& l : lines(d, 0)) w += std::string(rounds, '+') + l + "\n"; if (bz::readfile(a) != w) fail("the copy differs"); unlink(a.c_str()); unlink(b.c_str());
  c.nontrivial = n > 5; 
}
int main(int argc, char** argv) {
  return run(argc, argv, "P21", {{"history", history, 12000, 400000}, {"copy", copy, 600, 15000}});
}
