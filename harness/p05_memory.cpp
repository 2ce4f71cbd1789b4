// Memory is given back: nothing is left after a machine is destroyed, and steady work needs steady memory.
#include "alloc.hpp"
#include "libgen.hpp"
#include "lang.hpp"
using namespace ref; using namespace pbt; using namespace net;

struct Op { int k; uint32_t a, b; std::string s; Bytes m; };
struct Plan { std::string src; bool valid = true; uint32_t loadsteps = 0xffffffffu; std::vector<Op> ops; bool squeeze = false, viafile = false; };
static void addpeer(buzzvm_t vm, int n) { buzzneighbors_reset(vm); for (int i = 0; i < n; ++i) buzzneighbors_add(vm, 20 + i, i + 0.25f, 0.5f, 0); }
static void callf(buzzvm_t vm, const char* f) {
  buzzvm_pushs(vm, buzzvm_string_register(vm, f, 0)); buzzvm_gload(vm);
  if (buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_CLOSURE) { buzzvm_pop(vm); return; }
  if (buzzvm_closure_call(vm, 0) == BUZZVM_STATE_READY) buzzvm_pop(vm);
}
static int quiet_log(buzzvm_t vm) { return buzzvm_ret0(vm); }
static std::string execute(const Plan& p) {
  std::string end = "not compiled"; bz::Compiled cc; bz::compile(p.src, cc, "mem"); if (!cc.assembled) return end;
  buzzvm_t vm = buzzvm_new(5); std::vector<uint8_t> code = cc.bcode;
  if (buzzvm_set_bcode(vm, code.data(), code.size()) == BUZZVM_STATE_READY) {
    buzzvm_pushs(vm, buzzvm_string_register(vm, "log", 1)); buzzvm_pushcc(vm, buzzvm_function_register(vm, quiet_log)); buzzvm_gstore(vm);
    uint32_t st = 0; while (vm->state == BUZZVM_STATE_READY && st++ < p.loadsteps && st < (p.squeeze ? 15000u : 60000u)) { if (p.squeeze && st % 5 == 0) vm->heap->max_objs = 1; buzzvm_step(vm); }
    if (vm->state == BUZZVM_STATE_DONE) {
      vm->state = BUZZVM_STATE_READY;
      for (auto& o : p.ops) {
        if (p.squeeze) vm->heap->max_objs = 1;
        switch (o.k) {
          case 0: callf(vm, "step"); break;
          case 1: addpeer(vm, o.a); break;
          case 2: buzzinmsg_queue_append(vm, o.b, payload(o.m)); break;
          case 3: buzzvm_process_inmsgs(vm); break;
          case 4: buzzvm_process_outmsgs(vm); break;
          case 5: for (uint32_t i = 0; i < o.a && buzzoutmsg_queue_size(vm) > 0; ++i) { buzzmsg_payload_t m = buzzoutmsg_queue_first(vm); buzzmsg_payload_destroy(&m); buzzoutmsg_queue_next(vm); } break;
          case 6: buzzvm_function_call(vm, "step", 0); if (vm->state == BUZZVM_STATE_READY && !buzzdarray_isempty(vm->stack)) buzzvm_pop(vm); break;
          case 7: buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "host error %d", (int)o.a); break;
          default: { buzzvm_pusht(vm); buzzvm_dup(vm); buzzvm_pushi(vm, 3); buzzvm_pushs(vm, buzzvm_string_register(vm, o.s.c_str(), o.a & 1)); buzzvm_tput(vm); buzzvm_pop(vm); break; }
        }
        if (vm->state != BUZZVM_STATE_READY) break;
      }
    }
    end = buzzvm_state_desc[vm->state];
  }
  if (!buzzdarray_isempty(vm->lsymts) && buzzdarray_size(vm->stacks) > 1) end += " inside a call";
  buzzvm_destroy(&vm); if (vm) fail("the machine is not cleared by its destruction");
  return end;
}
static void destroy(Src& s, Ctx& c) {
  count_blocks(); Plan p;
  if (s.chance(1, 3)) { Gen g(s); g.budget = 15 + (int)s.draw(30); g.chaos = s.chance(1, 4); Block b = g.program(1 + (int)s.draw(5), (int)s.draw(3)); Printer pr; pr.src = &s; p.src = pr.program(b); c.cls("language program"); }
  else { p.src = lib::libscript(s, c); c.cls("library script"); }
  if (s.chance(1, 4)) p.loadsteps = (uint32_t)s.draw(400);
  p.squeeze = s.chance(1, 3);
  size_t n = s.len(16); for (size_t i = 0; i < n; ++i) { Op o; o.k = (int)s.weighted({5, 2, 5, 3, 3, 2, 1, 1, 1}); o.a = (uint32_t)s.draw(o.k == 5 ? 40 : 4); o.b = (uint32_t)s.draw(4); if (o.k == 2) o.m = lib::gen(s, s.chance(1, 3)); if (o.k == 8) o.s = "h" + S((int64_t)s.draw(5)); p.ops.push_back(o); }
  std::string t = p.src + "\n-- " + (p.loadsteps != 0xffffffffu ? "stopped after " + S(p.loadsteps) + " instructions" : "run") + ", then"; static const char* nm[] = {" step()", " add neighbors", " receive", " process in", " process out", " drain", " function_call step", " error", " push a table"};
  for (auto& o : p.ops) { t += nm[o.k]; if (o.k == 2) t += " " + hex(o.m); if (o.k == 1 || o.k == 5) t += " " + S(o.a); } c.note(t);
  int64_t l[4]; std::string e; { std::string w = execute(p); (void)w; } for (int i = 0; i < 3; ++i) { { e = execute(p); } std::string().swap(e); l[i] = g_live; }
  e = execute(p); c.cls("end: " + e);
  if (l[0] != l[1] || l[1] != l[2]) fail("every life of the machine (" + e + ") leaves " + S(l[2] - l[1]) + " blocks of memory behind");
  c.nontrivial = p.ops.size() > 2 || p.loadsteps != 0xffffffffu;
}

// the same work again and again: the memory in use after a collection does not grow
static std::string steadyscript(Src& s, Ctx& c) {
  std::string t = "n = 0\nm = 0\nx0 = nil\nx1 = nil\nx2 = nil\nacc = {}\nv = stigmergy.create(1)\nw = stigmergy.create(2)\ns = swarm.create(3)\ns2 = swarm.create(4)\nfunction mk(a) { return function(b) { return a + b } }\nfunction deep(k) { if(k > 0) { var d = {.k=k}\nreturn deep(k - 1) + size(d) }\nreturn 0 }\nfunction nop() { }\n";
  auto cyc = [&] { return "(n % " + s.pickl<std::string>({"2", "3", "5"}) + ")"; };
  auto fresh = [&] { return "string.concat(\"" + s.pickl<std::string>({"a", "b", "long string ", ""}) + "\", string.tostring(" + (s.flip() ? "n" : "m") + "))"; };
  auto val = [&]() -> std::string { switch (s.draw(7)) { case 0: return "n"; case 1: return fresh(); case 2: return "{.x=n, .y=" + fresh() + "}"; case 3: return "{.a={.b={.c=" + fresh() + "}}}"; case 4: return "mk(n)"; case 5: return "n * 1.5"; default: return "nil"; } };
  auto g = [&] { return "x" + S((int64_t)s.draw(3)); }; auto st = [&] { return std::string(s.flip() ? "v" : "w"); };
  auto one = [&]() -> std::string {
    switch (s.draw(26)) {
      case 0: return g() + " = " + val() + "\n";
      case 1: return "acc[" + cyc() + "] = " + val() + "\n";
      case 2: return "acc[string.concat(\"k\", string.tostring(" + cyc() + "))] = " + val() + "\n";
      case 3: return "var l" + S((int64_t)s.draw(1000000)) + " = " + val() + "\n";
      case 4: return "x0 = {.me=x0}\nx0.me = x0\n";
      case 5: return "x1 = {}\nx2 = {.o=x1}\nx1.o = x2\n";
      case 6: return st() + ".put(" + s.pickl<std::string>({cyc(), cyc(), cyc() + " + 0.5", "nil"}) + ", " + val() + ")\n";
      case 7: return st() + ".put(string.concat(\"v\", string.tostring(" + cyc() + ")), " + val() + ")\n";
      case 8: return st() + ".get(" + s.pickl<std::string>({cyc(), cyc() + " + 0.5", "n * 0.5", "n", "nil", fresh(), "string.concat(\"v\", string.tostring(" + cyc() + "))"}) + ")\n";
      case 9: return st() + s.pickl<std::string>({".foreach(function(kk, vv, rr) { m = m + 1 })\n", ".size()\n", ".onconflictlost(function(kk, ll) { m = m + 1 })\n"});
      case 10: return st() + ".onconflict(function(kk, ll, rr) { return ll })\n";
      case 11: return "neighbors.broadcast(\"t\", " + val() + ")\n";
      case 12: return "neighbors.listen(\"t\", function(tt, vv, rr) { x0 = vv })\n";
      case 13: { std::string f = fresh(); return "neighbors.listen(" + f + ", function(tt, vv, rr) { x0 = vv })\nneighbors.ignore(" + f + ")\n"; }
      case 14: return "neighbors.ignore(\"t\")\n";
      case 15: return "x1 = neighbors.map(function(ri, dd) { return {.d=dd.distance} })\n";
      case 16: return "neighbors.filter(function(ri, dd) { return dd.distance > 1 }).foreach(function(rj, de) { m = m + 1 })\n";
      case 17: return "neighbors.kin()\nx2 = neighbors.nonkin()\n";
      case 18: return s.pickl<std::string>({"s.join()\n", "s.leave()\n", "s2.select(n % 2)\n", "s3 = s.others(9)\n", "s4 = swarm.union(7, s, s2)\n", "s5 = swarm.create(8)\ns5.join()\n"});
      case 19: return "s.exec(function() { x0 = {.i=swarm.id()} })\n";
      case 20: return "map(acc, function(k1, v1) { return {.z=v1} })\nfilter(acc, function(k2, v2) { return isint(k2) })\n";
      case 21: return "m = reduce(acc, function(k3, v3, a3) { return a3 + 1 }, 0)\n";
      case 22: return "deep(" + S((int64_t)s.range(1, 30)) + ")\n";
      case 23: return "x2 = clone(acc)\n";
      case 24: return "x1 = mk(3)\nx1(n)\nx2 = string.sub(" + fresh() + ", 0, 1)\n";
      default: return "stigmergy.create(6).put(" + cyc() + ", 1)\n";
    }
  };
  size_t k = 1 + s.draw(7); std::string b; for (size_t i = 0; i < k; ++i) b += one(); (void)c;
  return t + "function step() {\nn = n + 1\nm = n * 7\n" + b + "}\n";
}
static void steady(Src& s, Ctx& c) {
  count_blocks(); std::string src = steadyscript(s, c); int nn = (int)s.draw(4); size_t nm = s.draw(4); std::vector<Bytes> ms; for (size_t i = 0; i < nm; ++i) ms.push_back(lib::gen(s, s.chance(1, 4))); bool forced = s.flip(), drain = s.chance(3, 4);
  std::string t = src + "-- neighbors " + S(nn); for (auto& m : ms) t += " message " + hex(m); c.note(t + (drain ? "" : " (queue not drained in between)"));
  bz::Compiled cc; bz::compile(src, cc, "steady"); if (!cc.assembled) fail("a valid program was rejected");
  bz::VM vm(5); if (!vm.load(cc.bcode) || !vm.run()) fail("loading failed: " + vm.err()); vm.vm->state = BUZZVM_STATE_READY; vm.hook("log", quiet_log);
  const int B = 60; int64_t live[3], objs[3], peak = 0; size_t strs[3];
  auto drainall = [&] { size_t g = 0; while (buzzoutmsg_queue_size(vm.vm) > 0) { if (++g > 3000) fail("the outgoing queue does not drain"); buzzmsg_payload_t m = buzzoutmsg_queue_first(vm.vm); buzzmsg_payload_destroy(&m); buzzoutmsg_queue_next(vm.vm); } };
  for (int r = 0; r < 3; ++r) {
    for (int i = 0; i < B; ++i) {
      addpeer(vm.vm, nn); for (auto& m : ms) buzzinmsg_queue_append(vm.vm, 21, payload(m));
      buzzvm_process_inmsgs(vm.vm); if (vm.vm->state == BUZZVM_STATE_READY) callf(vm.vm, "step"); if (vm.vm->state == BUZZVM_STATE_READY) buzzvm_process_outmsgs(vm.vm);
      if (vm.vm->state != BUZZVM_STATE_READY) fail("the script stopped: " + vm.err());
      if (drain) drainall(); else if (buzzoutmsg_queue_size(vm.vm) > 3000) fail("the outgoing queue has " + S(buzzoutmsg_queue_size(vm.vm)) + " messages");
      if (buzzdarray_size(vm.vm->stack) > 8) fail("values are left on the stack");
      if (r > 0) peak = std::max<int64_t>(peak, buzzdarray_size(vm.vm->heap->objs));
    }
    drainall(); addpeer(vm.vm, 0); (void)forced;
    vm.vm->heap->max_objs = 1; callf(vm.vm, "nop"); vm.vm->heap->max_objs = 1; callf(vm.vm, "nop");
    live[r] = g_live; objs[r] = buzzdarray_size(vm.vm->heap->objs); strs[r] = buzzdict_size(vm.vm->strings->id2str);
  }
  // hash buckets come and go with the strings that happen to be alive
  if (live[2] - live[1] > 50) fail(S(B) + " more steps of the same work need " + S(live[2] - live[1]) + " more blocks of memory (" + S(live[1] - live[0]) + " the time before); heap objects " + S(objs[1]) + " -> " + S(objs[2]) + ", strings " + S(strs[1]) + " -> " + S(strs[2]));
  if (objs[2] > objs[1] + 20) fail("heap objects grow: " + S(objs[1]) + " -> " + S(objs[2])); if (strs[2] > strs[1] + 20) fail("strings grow: " + S(strs[1]) + " -> " + S(strs[2]));
  if (peak > 4 * objs[2] + 3000) fail("garbage is not collected: " + S(peak) + " objects at a time, " + S(objs[2]) + " in use");
  c.cls("objects in use", objs[2]); c.cls("peak", peak); c.nontrivial = true;
}
// data of any size that is dropped again leaves nothing behind
static void release(Src& s, Ctx& c) {
  count_blocks(); std::string b, rel; size_t k = 1 + s.draw(5);
  for (size_t i = 0; i < k; ++i) {
    std::string g = "x" + S((int64_t)s.draw(3)), i1 = "i" + S((int64_t)i);
    switch (s.draw(9)) {
      case 0: b += g + " = {}\nvar " + i1 + " = 0\nwhile(" + i1 + " < n) {\n" + g + "[" + i1 + "] = {.s=string.tostring(" + i1 + ")}\n" + i1 + " = " + i1 + " + 1\n}\n"; break;
      case 1: b += g + " = nil\nvar " + i1 + " = 0\nwhile(" + i1 + " < n) {\n" + g + " = {.next=" + g + "}\n" + i1 + " = " + i1 + " + 1\n}\n"; break;
      case 2: b += g + " = {}\nvar " + i1 + " = 0\nvar p" + i1 + " = " + g + "\nwhile(" + i1 + " < n) {\nvar q" + i1 + " = {.prev=p" + i1 + "}\np" + i1 + ".next = q" + i1 + "\np" + i1 + " = q" + i1 + "\n" + i1 + " = " + i1 + " + 1\n}\n"; break;
      case 3: b += "var " + i1 + " = 0\nwhile(" + i1 + " < n) {\nacc[string.concat(\"k\", string.tostring(" + i1 + "))] = string.concat(\"v\", string.tostring(" + i1 + " * 3))\n" + i1 + " = " + i1 + " + 1\n}\n"; break;
      case 4: b += "var " + i1 + " = 0\nwhile(" + i1 + " < n) {\nneighbors.listen(string.concat(\"k\", string.tostring(" + i1 + ")), function(t1, t2, t3) { return " + i1 + " })\n" + i1 + " = " + i1 + " + 1\n}\n";
              rel += "var r" + i1 + " = 0\nwhile(r" + i1 + " < n) {\nneighbors.ignore(string.concat(\"k\", string.tostring(r" + i1 + ")))\nr" + i1 + " = r" + i1 + " + 1\n}\n"; break;
      case 5: b += g + " = function(a" + i1 + ") { return {.u=a" + i1 + "} }\n" + g + " = {.f=" + g + "}\n" + g + ".r = " + g + ".f(n)\n"; break;
      case 6: b += g + " = {}\nvar " + i1 + " = 0\nwhile(" + i1 + " < n) {\n" + g + " = {.a=clone(" + g + "), .i=" + i1 + "}\nif(" + i1 + " % 6 == 5) { " + g + " = {} }\n" + i1 + " = " + i1 + " + 1\n}\n"; break;
      case 7: b += "s.exec(function() { x0 = {} x0.f = function() { return self } x0.g = x0.f() })\n"; break;
      default: b += "var " + i1 + " = 0\nwhile(" + i1 + " < n) {\nneighbors.broadcast(string.concat(\"b\", string.tostring(" + i1 + ")), {.i=" + i1 + "})\n" + i1 + " = " + i1 + " + 1\n}\n"; break;
    }
  }
  std::string src = "x0 = nil\nx1 = nil\nx2 = nil\nacc = {}\ns = swarm.create(1)\ns.join()\nfunction nop() { }\nfunction build(n) {\n" + b + "}\nfunction drop(n) {\nx0 = nil\nx1 = nil\nx2 = nil\nacc = {}\n" + rel + "}\n"; c.note(src);
  Robot r(3, src); std::vector<int64_t> sizes = {(int64_t)s.range(1, 9), (int64_t)s.range(60, 150), (int64_t)s.range(1, 40), (int64_t)s.range(150, 300)}; std::vector<int64_t> live, objs; r.hostile = s.chance(1, 4);
  live.reserve(8); objs.reserve(8);
  for (int64_t n : sizes) {
    { r.call("build", {vi((int32_t)n)}); } { r.drain(); } { r.call("drop", {vi((int32_t)n)}); }
    for (int i = 0; i < 2; ++i) { r.vm()->heap->max_objs = 1; { r.call("nop"); } }
    live.push_back(g_live); objs.push_back(buzzdarray_size(r.vm()->heap->objs));
  }
  for (size_t i = 1; i < live.size(); ++i) { if (live[i] - live[0] > 50) fail("building and dropping data of size " + S(sizes[i]) + " leaves " + S(live[i] - live[0]) + " more blocks than size " + S(sizes[0])); if (objs[i] != objs[0]) fail("building and dropping data of size " + S(sizes[i]) + " leaves " + S(objs[i] - objs[0]) + " more objects than size " + S(sizes[0])); }
  c.nontrivial = true;
}
int main(int argc, char** argv) {
  std::vector<Test> t = { {"destroy", destroy, 2500, 100000}, {"steady", steady, 800, 30000}, {"release", release, 300, 10000} };
  return run(argc, argv, "P05", t);
}
