// Built-in functions called with any arguments, any receiver, anywhere: they work or stop the script, nothing else.
#include "model.hpp"
using namespace ref; using namespace pbt; using namespace net;

struct Kind { char k; std::vector<std::string> e; };
static const std::vector<Kind> KINDS = {
  {'i', {"0", "1", "-1", "7", "2147483647", "65536"}}, {'f', {"0.0", "1.5", "-2.25", "3000000000.5"}}, {'s', {"\"\"", "\"abc\"", "\"12\"", "\"1.5\"", "\"id\""}},
  {'t', {"{}", "{.a=1}", "T", "{.id=\"x\"}", "{.id=999}", "{.poses=5}", "{.poses=\"s\"}", "{.handle=3}", "{.handle=\"h\"}"}},
  {'n', {"nil", "undefinedvariable"}}, {'u', {"ud()"}}, {'c', {"math.sin", "type", "log", "swarm.create"}}, {'l', {"lam"}},
  {'w', {"sw", "sv"}}, {'v', {"vs"}}, {'g', {"neighbors"}}, {'F', {"fh"}} };
static const std::string ANY = "ifstnuclwvgF", ATAB = "twvgF", CLO = "cl";
enum Exp { OK, ERR, ANYOUT };
// arguments: allowed kinds; '~' prefix: kinds outside the set are left open; lam = number of parameters for a script closure
struct BFn { std::string f; std::vector<std::string> a; int opt = 0; bool variadic = false; int lam = 0; std::string self; bool open = false; };
static std::vector<BFn> table() {
  std::vector<BFn> v;
  for (auto x : {"type", "isnil", "isint", "isfloat", "isstring", "istable", "isclosure", "isuserdata"}) v.push_back({x, {ANY}});
  v.push_back({"clone", {"~ifstnucl"}}); v.push_back({"int", {"f"}}); v.push_back({"float", {"i"}}); v.push_back({"size", {ATAB}});
  v.push_back({"foreach", {ATAB, "~~l"}, 0, false, 2}); v.push_back({"map", {ATAB, "~~l"}, 0, false, 2}); v.push_back({"filter", {ATAB, "~~l"}, 0, false, 2}); v.push_back({"reduce", {ATAB, "~~l", ANY}, 0, false, 3});
  for (auto x : {"abs", "floor", "ceil", "round", "log", "log2", "log10", "exp", "sqrt", "sin", "cos", "tan", "asin", "acos"}) v.push_back({std::string("math.") + x, {"if"}});
  v.push_back({"math.atan", {"if", "if"}}); v.push_back({"math.min", {"~if", "~if"}}); v.push_back({"math.max", {"~if", "~if"}});
  v.push_back({"math.rng.setseed", {"i"}}); v.push_back({"math.rng.uniform", {"if", "if"}, 2}); v.push_back({"math.rng.gaussian", {"if", "if"}, 2}); v.push_back({"math.rng.exponential", {"if"}});
  v.push_back({"string.length", {"s"}}); v.push_back({"string.sub", {"s", "i", "~i"}, 1}); v.push_back({"string.concat", {"s", "s"}, 0, true}); v.push_back({"string.tostring", {ANY}}); v.push_back({"string.toint", {"s"}}); v.push_back({"string.tofloat", {"s"}});
  v.push_back({"swarm.create", {"i"}}); for (auto x : {"union", "intersection", "difference"}) v.push_back({std::string("swarm.") + x, {"i", "w", "w"}}); v.push_back({"swarm.id", {"~i"}, 1, false, 0, "", true});
  for (auto x : {"join", "leave", "in"}) v.push_back({std::string("sw.") + x, {}, 0, false, 0, "w"}); v.push_back({"sw.select", {"~i"}, 0, false, 0, "w"}); v.push_back({"sw.others", {"i"}, 0, false, 0, "w"}); v.push_back({"sw.exec", {"~~l"}, 0, false, 0, "w"});
  v.push_back({"stigmergy.create", {"i"}}); v.push_back({"vs.put", {"~ifs", ANY}, 0, false, 0, "v"}); v.push_back({"vs.get", {"~ifs"}, 0, false, 0, "v"}); v.push_back({"vs.size", {}, 0, false, 0, "v"}); v.push_back({"vs.foreach", {"~~l"}, 0, false, 3, "v"}); v.push_back({"vs.onconflict", {CLO}, 0, false, 3, "v"}); v.push_back({"vs.onconflictlost", {CLO}, 0, false, 3, "v"});
  v.push_back({"neighbors.get", {"~ifs"}, 0, false, 0, "g"}); for (auto x : {"count", "kin", "nonkin"}) v.push_back({std::string("neighbors.") + x, {}, 0, false, 0, "g"}); for (auto x : {"foreach", "map", "filter"}) v.push_back({std::string("neighbors.") + x, {"~~l"}, 0, false, 2, "g"}); v.push_back({"neighbors.reduce", {"~~l", ANY}, 0, false, 3, "g"});
  v.push_back({"neighbors.broadcast", {"s", ANY}}); v.push_back({"neighbors.listen", {"s", CLO}, 0, false, 3}); v.push_back({"neighbors.ignore", {"s"}});
  v.push_back({"io.fopen", {"s", "s"}}); v.push_back({"io.fclose", {"F"}}); v.push_back({"io.fsize", {"F"}}); v.push_back({"io.fforeach", {"F", "~~l"}, 0, false, 1}); v.push_back({"io.fwrite", {"F", ANY}, 0, true});
  return v;
}
static const std::vector<BFn>& TABLE() { static std::vector<BFn> t = table(); return t; }

struct Call { std::string src; Exp exp = OK; };
static std::string lambda(int n, int& uid) { std::string p; for (int i = 0; i < n; ++i) p += (i ? ", q" : "q") + S(uid++); return "function(" + p + ") { return 1 }"; }
static std::string val(Src& s, char k, int lam, int& uid) {
  if (k == 'l') return lambda(lam, uid);
  for (auto& x : KINDS) if (x.k == k) return s.pick(x.e);
  return "nil";
}
// table access, arithmetic and calls with operands of any type
static Call genop(Src& s, int& uid) {
  Call c; auto kind = [&](const std::string& from) { return from[s.draw(from.size())]; }; char a = s.flip() ? kind(ATAB) : kind(ANY), b = s.flip() ? kind("ifs") : kind(ANY), d = kind(ANY); std::string A = val(s, a, 0, uid), B = val(s, b, 0, uid), D = val(s, d, 1, uid); bool tab = ATAB.find(a) != std::string::npos, key = b == 'i' || b == 'f' || b == 's', num = (a == 'i' || a == 'f') && (b == 'i' || b == 'f');
  std::string pre = "ga = " + A + "\ngb = " + B + "\n";
  switch (s.draw(6)) {
    case 0: case 1: c.src = pre + "ga[gb] = " + D; c.exp = !tab || !key ? ERR : OK; if (a != 't' || A == "T" || key) { if (c.exp == OK && a != 't') c.exp = ANYOUT; } if (c.exp == OK && A == "T") c.exp = OK; if (c.exp != ERR && a != 't') c.src = pre + "log(\"x\")\nresult = ga[gb]", c.exp = OK; break;
    case 2: c.src = pre + "result = ga[gb]"; c.exp = !tab || !key ? ERR : OK; break;
    case 3: { std::string op = s.pickl<std::string>({"+", "-", "*"}); c.src = pre + "result = ga " + op + " gb"; c.exp = num ? ANYOUT : ERR; break; }
    case 4: { std::string op = s.pickl<std::string>({"&", "|"}); c.src = pre + "result = ga " + op + " gb"; c.exp = a == 'i' && b == 'i' ? OK : ERR; break; }
    default: if (a == 'c' || a == 'l') { a = 'i'; A = "7"; } c.src = "ga = " + A + "\nga(" + D + ")"; c.exp = ERR; break; }
  return c;
}
static Call gencall(Src& s, int& uid, bool listening) {
  if (s.chance(1, 6)) return genop(s, uid);
  Call c; const BFn& f = s.pick(TABLE()); size_t max = f.a.size(), min = max - f.opt, n;
  bool bad = s.chance(2, 3); n = min + s.draw(max - min + 1);
  if (f.variadic) n = max + s.draw(4);
  if (bad && s.chance(1, 4)) { n = s.draw(max + 3); if (f.variadic) n = s.draw(max + 1); }
  if (n < min || (n > max && !f.variadic)) c.exp = f.open ? ANYOUT : ERR;
  std::string args; bool wrongone = bad && s.chance(3, 4); size_t w = n ? s.draw(n) : 0;
  for (size_t i = 0; i < n; ++i) {
    std::string al = i < max ? f.a[i] : f.variadic ? f.a.back() : ANY; std::string core = al; bool open = al[0] == '~', calls = al.compare(0, 2, "~~") == 0; core.erase(0, calls ? 2 : open ? 1 : 0);
    char k = wrongone && i == w ? ANY[s.draw(ANY.size())] : core[s.draw(core.size())];
    std::string va = val(s, k, f.lam, uid); args += (i ? ", " : "") + va;
    if (core == "w" && (k == 'v' || va == "{.id=999}")) { if (c.exp == OK) c.exp = ANYOUT; }  // looks like a swarm
    else if (core.find(k) == std::string::npos) { if (calls && k == 'c') { if (c.exp == OK) c.exp = ANYOUT; } else if (open && !calls) { if (c.exp == OK) c.exp = ANYOUT; } else c.exp = c.exp == ANYOUT && i < max ? (calls ? ANYOUT : ERR) : ERR; }
  }
  if (f.f == "swarm.union" || f.f == "swarm.intersection" || f.f == "swarm.difference") {}
  // the receiver
  unsigned how = f.self.empty() ? 0 : (unsigned)s.weighted({6, 1, 2}); std::string fn = f.f, pre;
  if (how == 1) { pre = "gfun = " + f.f + "\n"; fn = "gfun"; }  // the method stays bound to its table
  if (how == 2) { char k = s.pickl<char>({'t', 't', 't', 'w', 'v', 'g', 'F'}); std::string t = val(s, k, 0, uid); if (k != f.self[0]) { if (c.exp != ERR || true) c.exp = ANYOUT;
      if (k == 't' && (t == "{.id=\"x\"}" || t == "{}" || t == "{.a=1}" || t == "T") && (f.self == "w" || f.self == "v")) c.exp = ERR; if (t == "{.id=999}" && f.self == "w") c.exp = ERR; }
    pre = "gtab = " + t + "\ngtab.gm = " + f.f + "\n"; fn = "gtab.gm"; if (f.f == "sw.exec" && t == "sv") c.exp = ANYOUT; }  // not in the swarm: the argument is not looked at
  c.src = pre + (s.chance(1, 4) ? "log(\"x\")\nresult = " : s.flip() ? "result = " : "") + fn + "(" + args + ")";
  if (f.f == "io.fclose" && args == "fh") c.src += "\nfh = io.fopen(fname, \"r\")";  // the next pass needs it
  if (f.f == "sw.exec" && c.exp == ERR) {}  // the robot is in the swarm: the argument is looked at
  (void)listening; return c;
}
static int ud(buzzvm_t vm) { buzzvm_pushu(vm, vm); return buzzvm_ret1(vm); }

static const char* PRE = "T = {}\nT[1] = 5\nT[\"k\"] = \"v\"\nT[2.5] = {}\nsw = swarm.create(1)\nsw.join()\nsv = swarm.create(2)\nvs = stigmergy.create(3)\nvs.put(\"k0\", 1)\nvs.onconflictlost(function(k, l) { })\nvs.onconflict(function(k, l, r) { return l })\nneighbors.listen(\"T\", function(a, b, c) { })\nfunction setup() { fh = io.fopen(fname, \"r\") }\n";
struct Builder {
  Src& s; int uid = 0; bool listening = false; std::vector<int> mult; explicit Builder(Src& x) : s(x) {}
  // wraps a statement into a context; ctx number chosen by the caller; returns a statement
  std::string wrap(int ctx, const std::string& in, int& times) {
    std::string a = "q" + S(uid++), b = "q" + S(uid++), c = "q" + S(uid++); times = 2;
    auto L2 = "function(" + a + ", " + b + ") {\n" + in + "\nreturn 1 }", L3 = "function(" + a + ", " + b + ", " + c + ") {\n" + in + "\nreturn 1 }", L1 = "function(" + a + ") {\n" + in + "\n}", L0 = "function() {\n" + in + "\n}";
    switch (ctx) {
      case 0: times = 1; return "if(1 == 1) {\n" + in + "\n}\n";
      case 1: times = 2; return "foreach({.x=1, .y=2}, " + L2 + ")\n";
      case 2: return "log(size(map({.x=1, .y=2}, " + L2 + ")))\n";
      case 3: return "log(size(filter({.x=1, .y=2}, " + L2 + ")))\n";
      case 4: return "log(reduce({.x=1, .y=2}, " + L3 + ", 0))\n";
      case 5: times = 1; return "sw.join()\nsw.exec(" + L0 + ")\n";
      case 6: return "neighbors.foreach(" + L2 + ")\n";
      case 7: return "neighbors.map(" + L2 + ")\n";
      case 8: return "neighbors.filter(" + L2 + ")\n";
      case 9: return "neighbors.reduce(" + L3 + ", 0)\n";
      case 10: times = 1; return "vt = stigmergy.create(" + S(100 + uid) + ")\nvt.put(1, 2)\nvt.foreach(" + L3 + ")\n";
      case 11: return "ft = io.fopen(fname, \"r\")\nif(ft != nil) { io.fforeach(ft, " + L1 + ") }\n";
      default: { times = 1; std::string z = "z" + S(uid++); return "var " + z + " = 0\nwhile(" + z + " < 1) {\n" + z + " = " + z + " + 1\n" + in + "\n}\n"; }
    }
  }
};
static void closefile(buzzvm_t vm, const char* g) {
  uint16_t sid = buzzvm_string_register(vm, g, 0); const buzzobj_t* o = buzzdict_get(vm->gsyms, &sid, buzzobj_t);
  if (!o || (*o)->o.type != BUZZTYPE_TABLE) return;
  buzzdict_foreach((*o)->t.value, [](const void* k, void* d, void*) { buzzobj_t key = *(buzzobj_t*)k, val = *(buzzobj_t*)d; if (key->o.type == BUZZTYPE_STRING && !strcmp(key->s.value.str, "handle") && val->o.type == BUZZTYPE_USERDATA && val->u.value) { fclose((FILE*)val->u.value); val->u.value = nullptr; } }, nullptr);
}
static std::string outstate(buzzvm_t vm) {
  std::string o = "queue " + S(buzzoutmsg_queue_size(vm)) + " swarms";
  std::vector<std::string> m; buzzdict_foreach(vm->swarms, [](const void* k, void* d, void* p) { ((std::vector<std::string>*)p)->push_back(S(*(uint16_t*)k) + (*(uint8_t*)d ? "+" : "-")); }, &m);
  std::sort(m.begin(), m.end()); for (auto& x : m) o += " " + x;
  // contents and handlers of the stigmergies, functions of the listeners
  auto fun = [](buzzobj_t f) { return f ? (f->o.type == BUZZTYPE_CLOSURE ? S(f->c.value.ref) + (f->c.value.isnative ? "n" : "c") : std::string("?")) : std::string("-"); };
  struct P { std::vector<std::string> v; decltype(fun)* f; } st{{}, &fun}, ls{{}, &fun};
  buzzdict_foreach(vm->vstigs, [](const void* k, void* d, void* p) { P* q = (P*)p; buzzvstig_t vs = *(buzzvstig_t*)d; std::vector<std::string> e; buzzdict_foreach(vs->data, [](const void* k, void* d, void* p) { buzzobj_t key = *(buzzobj_t*)k; buzzvstig_elem_t x = *(buzzvstig_elem_t*)d; ((std::vector<std::string>*)p)->push_back((key->o.type == BUZZTYPE_STRING ? key->s.value.str : key->o.type == BUZZTYPE_INT ? S(key->i.value) : std::string("f")) + "=" + S(x->data->o.type) + (x->data->o.type == BUZZTYPE_INT ? ":" + S(x->data->i.value) : "") + "@" + S(x->timestamp) + "/" + S(x->robot)); }, &e); std::sort(e.begin(), e.end()); std::string t = S(*(uint16_t*)k) + "(" + (*q->f)(vs->onconflict) + " " + (*q->f)(vs->onconflictlost); for (auto& y : e) t += " " + y; q->v.push_back(t + ")"); }, &st);
  buzzdict_foreach(vm->listeners, [](const void* k, void* d, void* p) { P* q = (P*)p; q->v.push_back(S(*(uint16_t*)k) + ":" + (*q->f)(*(buzzobj_t*)d)); }, &ls);
  std::sort(st.v.begin(), st.v.end()); std::sort(ls.v.begin(), ls.v.end()); o += " vstigs"; for (auto& x : st.v) o += " " + x; o += " listeners"; for (auto& x : ls.v) o += " " + x;
  return o;
}
static void errors(Src& s, Ctx& c) {
  Builder B(s); Call k = gencall(s, B.uid, false); std::string body = "mark(0)\nlog(\"b\")\nmark(1)\n" + k.src + "\nlog(\"a\")\n"; bool logx = k.src.find("log(\"x\")") != std::string::npos;
  // contexts, innermost first; the expected log of a run without error is not needed beyond the first pass
  size_t depth = s.draw(4); bool top = s.chance(1, 5), viamsg = !top && s.chance(1, 5);
  std::string stmt = body; for (size_t i = 0; i < depth; ++i) { int ctx = (int)s.draw(13), t; stmt = B.wrap(ctx, stmt, t); c.cls("context " + S(ctx)); }
  if (top && stmt.find("neighbors.") != std::string::npos) top = false;
  std::string src = PRE; src += "function go() {\n" + stmt + "log(\"end\")\n}\n";
  if (viamsg) src += "neighbors.listen(\"topic\", function(x1, x2, x3) {\n" + stmt + "log(\"end\")\n})\n";
  c.note(src + (viamsg ? "(from a message)" : "")); c.cls(k.exp == OK ? "valid call" : k.exp == ERR ? "error expected" : "open");
  Robot r(4, src); r.w.hook("ud", ud); r.hostile = s.chance(1, 3); static bool first = true; (void)first;
  static std::string marks; r.w.hook("mark", [](buzzvm_t vm) -> int { marks = outstate(vm); return buzzvm_ret0(vm); });
  std::string file = scratch() + "/two.txt"; bz::writefile(file, "l1\nl2\n");
  buzzvm_pushs(r.vm(), buzzvm_string_register(r.vm(), "fname", 0)); buzzvm_pushs(r.vm(), buzzvm_string_register(r.vm(), file.c_str(), 0)); buzzvm_gstore(r.vm());
  r.call("setup"); buzzneighbors_reset(r.vm()); buzzneighbors_add(r.vm(), 10, 1, 2, 3); buzzneighbors_add(r.vm(), 300, 1, 2, 3);
  if (viamsg) { MMsg m; m.type = BUZZMSG_BROADCAST; m.topic = vs("topic"); m.value = vi(1); r.receive(9, encode(m)); r.squeeze(); r.process(); }
  else { size_t depth0 = buzzdarray_size(r.vm()->stack); r.callraw("go", {}, true); if (r.vm()->state == BUZZVM_STATE_READY && (size_t)buzzdarray_size(r.vm()->stack) != depth0) { closefile(r.vm(), "fh"); closefile(r.vm(), "ft"); fail("the call left values on the stack"); } }
  std::string after = outstate(r.vm()), msg; buzzvm_t vm = r.vm(); bool error = vm->state == BUZZVM_STATE_ERROR;
  auto bad = [&](const std::string& m) { msg = m; };
  if (!error && vm->state != BUZZVM_STATE_READY) bad("the machine is in state " + S(vm->state));
  else if (error) {
    bz::Trace e = {"s:'b'"}; if (logx) e.push_back("s:'x'");
    if (k.exp == OK) bad("a valid call failed: " + r.w.err());
    else if (r.w.trace.size() < e.size() || bz::Trace(r.w.trace.end() - e.size(), r.w.trace.end()) != e) bad("the script went on after the error: " + bz::joinlines(r.w.trace));
    else if (std::count(r.w.trace.begin(), r.w.trace.end(), "s:'a'") && k.exp == ERR) bad("an invalid call succeeded at first");
    else if (!vm->errormsg || !*vm->errormsg) bad("no error message");
    else if (vm->error == BUZZVM_ERROR_NONE) bad("no error code");
    else if (k.exp == ERR && marks != after) bad("the failing call had an effect: before " + marks + ", after " + after);
    else {  // a stopped machine stays stopped and can be handled
      size_t n = r.w.trace.size(); buzzvm_step(vm); buzzvm_step(vm); buzzvm_process_inmsgs(vm); buzzvm_function_call(vm, "go", 0);
      if (vm->state != BUZZVM_STATE_ERROR) bad("the machine left the error state"); else if (r.w.trace.size() != n) bad("the script went on after the error");
    }
  } else {
    if (k.exp == ERR) bad("an invalid call did not stop the script");
    else if (r.w.trace.empty() || r.w.trace.back() != "s:'end'") bad("the script ended early without error: " + bz::joinlines(r.w.trace));
    else { size_t nb = std::count(r.w.trace.begin(), r.w.trace.end(), "s:'b'"), na = std::count(r.w.trace.begin(), r.w.trace.end(), "s:'a'"); if (nb != na || nb == 0) bad("the script lost its way: " + bz::joinlines(r.w.trace)); }
  }
  closefile(vm, "fh"); closefile(vm, "ft");
  if (!msg.empty()) fail(msg + "\nerror message: " + r.w.err());
  c.nontrivial = depth > 0 || k.exp != OK;
}
// errors at global scope while the script is loaded; other robots of the process are not affected
static void toplevel(Src& s, Ctx& c) {
  int uid = 0; std::string src = PRE, why; bool error = false; bz::Trace e; size_t n = 1 + s.draw(4); Call k;
  for (size_t i = 0; i < n && !error; ++i) {
    do k = gencall(s, uid, false); while (k.exp == ANYOUT || k.src.find("fh") != std::string::npos || k.src.find("ud()") != std::string::npos);
    src += "sw.join()\nlog(" + S(i) + ")\n" + k.src + "\n"; e.push_back("i:" + S(i)); if (k.src.find("log(\"x\")") != std::string::npos) e.push_back("s:'x'"); if (k.exp == ERR) error = true;
  }
  src += "log(\"end\")\n"; if (!error) e.push_back("s:'end'"); c.note(src);
  Robot other(8, "x = 1\nfunction f() { x = x + 1\nreturn x }\n"); bz::Compiled cc; bz::compile(src, cc, "top"); if (!cc.assembled) fail("a valid program was rejected");
  bz::VM vm(4); if (!vm.load(cc.bcode)) fail("loading failed"); vm.hook("ud", ud); buzzneighbors_reset(vm.vm); buzzneighbors_add(vm.vm, 10, 1, 2, 3);
  while (vm.vm->state == BUZZVM_STATE_READY) { if (++vm.steps > 100000) fail("the script does not end"); if (vm.steps % 3 == 0) other.call("f"); buzzvm_step(vm.vm); }
  if (error != (vm.vm->state == BUZZVM_STATE_ERROR)) fail(error ? "an invalid call did not stop the script" : "a valid call failed: " + vm.err());
  if (vm.trace != e) fail("trace: " + bz::trace_diff(e, vm.trace)); if (error && (!vm.vm->errormsg || !*vm.vm->errormsg)) fail("no error message");
  std::string x = other.call("f"); if (x != "i:" + S(2 + vm.steps / 3)) fail("another robot was affected: " + x);
  c.nontrivial = n > 1; c.cls(error ? "stopped" : "finished");
}
// a callback that fails is the last one called: no iteration goes on behind the error, whatever the callback is made of
static int g_calls, g_failat, g_kind;
static int hcb(buzzvm_t vm) { int i = g_calls++; if (i == g_failat) { buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "callback %d", i); return vm->state; } switch (g_kind) { case 0: return buzzvm_ret0(vm); case 1: buzzvm_pushi(vm, i); break; case 2: buzzvm_pusht(vm); break; default: buzzvm_pushnil(vm); } return buzzvm_ret1(vm); }
static void callbacks(Src& s, Ctx& c) {
  int n = (int)s.range(0, 12), how = (int)s.draw(15); bool viascript = s.chance(1, 4); g_calls = 0; g_kind = (int)s.draw(4); g_failat = s.chance(1, 5) ? 1000 : (int)s.range(0, n); int seen = n;
  static const char* F[] = {"foreach(T, hcb)", "map(T, hcb)", "filter(T, hcb)", "reduce(T, hcb, 0)", "neighbors.foreach(hcb)", "neighbors.map(hcb)", "neighbors.filter(hcb)", "neighbors.reduce(hcb, 0)", "v.foreach(hcb)", "io.fforeach(fh, hcb)", "neighbors.filter(function(a, b) { return 1 }).map(hcb)", "neighbors.map(function(a, b) { return b }).foreach(hcb)", "", "", ""};
  std::string call = F[how], file = scratch() + "/cb.txt"; if (viascript && how < 12) { size_t p = call.find("hcb"); call.replace(p, 3, "function(a1, a2, a3) { log(1) return hcb(a1) }"); if (how != 3 && how != 7 && how != 8) { p = call.find(", a3"); call.erase(p, 4); } if (how == 9) { p = call.find(", a2"); call.erase(p, 4); } }
  std::string src = "T = {}\nv = stigmergy.create(1)\nfunction build(n) {\nvar i = 0\nwhile(i < n) {\n" + std::string(s.flip() ? "T[i * 3] = i" : "T[string.concat(\"k\", string.tostring(i))] = i") + "\nv.put(i, i)\ni = i + 1\n}\n}\nfunction go() {\n";
  if (how == 9) src += "fh = io.fopen(fname, \"r\")\n"; src += how < 12 ? (s.flip() ? "r = " : "") + call + "\nlog(\"end\")\n}\n" : "neighbors.listen(\"t\", hcb)\nneighbors.listen(\"u\", function(a, b, r) { log(1) hcb() })\nv.onconflict(hcb)\n}\n";
  if (how == 14) { src.replace(src.rfind("v.onconflict(hcb)"), 17, "v.onconflictlost(hcb)"); } c.note(src + fmt("-- %d elements, call %d fails, kind %d", n, g_failat, g_kind)); std::string t; for (int i = 0; i < n; ++i) t += "line\n"; if (how == 9) bz::writefile(file, t);
  Robot r(4, src); r.w.hook("hcb", hcb); r.hostile = s.chance(1, 3); buzzvm_t vm = r.vm(); buzzvm_pushs(vm, buzzvm_string_register(vm, "fname", 0)); buzzvm_pushs(vm, buzzvm_string_register(vm, file.c_str(), 0)); buzzvm_gstore(vm);
  r.call("build", {vi(n)}); buzzneighbors_reset(vm); for (int i = 0; i < n; ++i) buzzneighbors_add(vm, (uint16_t)(10 + i), 1, 2, 3);
  r.callraw("go", {}, true); size_t scripted = 0; if (how == 12) { for (int i = 0; i < n; ++i) { MMsg m; m.type = BUZZMSG_BROADCAST; m.topic = vs(s.flip() ? "t" : "u"); m.value = vi(1); if (m.topic.s == "u" && i <= g_failat) ++scripted; r.receive(9, encode(m)); } if (vm->state == BUZZVM_STATE_READY) r.process(); }
  if (how > 12) { for (int i = 0; i < n; ++i) { MMsg m; m.type = s.flip() ? BUZZMSG_VSTIG_PUT : BUZZMSG_VSTIG_QUERY; m.id = 1; m.key = vi(i); m.e.ts = 1; m.e.robot = 9; m.e.data = vi(100); r.receive(9, encode(m)); } if (vm->state == BUZZVM_STATE_READY) r.process(); }
  closefile(vm, "fh"); bool fails = g_failat < n; int want = fails ? g_failat + 1 : seen; if (how == 12 && scripted != (size_t)std::count(r.w.trace.begin(), r.w.trace.end(), "i:1")) fail("listeners called after an error");
  if (g_calls != want) fail(fmt("the callback is called %d times instead of %d", g_calls, want));
  if (fails) { if (vm->state != BUZZVM_STATE_ERROR) fail("the error of a callback is lost"); std::string e = fmt("callback %d", g_failat); if (!vm->errormsg || !strstr(vm->errormsg, e.c_str())) fail("the error of a callback is replaced by: " + r.w.err()); if (std::count(r.w.trace.begin(), r.w.trace.end(), "s:'end'")) fail("the script goes on after the error"); }
  else { if (vm->state != BUZZVM_STATE_READY) fail("a valid iteration fails: " + r.w.err()); if (how < 12 && !std::count(r.w.trace.begin(), r.w.trace.end(), "s:'end'")) fail("the script does not go on"); }
  c.cls(fails ? "failing" : "complete"); c.cls("iterator " + S(how)); c.nontrivial = n > 1;
}
int main(int argc, char** argv) {
  std::vector<Test> t = { {"errors", errors, 26000, 800000}, {"toplevel", toplevel, 8000, 200000}, {"callbacks", callbacks, 5000, 100000} };
  return run(argc, argv, "P06", t);
}
