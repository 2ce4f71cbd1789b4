// Garbage collection is invisible to programs: any collection schedule gives the same behaviour.
#include "lang.hpp"
#include "libgen.hpp"
using namespace ref; using namespace pbt; using lib::libscript;

// language programs under a collection before every instruction
static void programs(Src& s, Ctx& c) {
  Gen g(s); g.budget = 25 + (int)s.draw(40); g.chaos = s.chance(1, 6);
  Block p = g.program(2 + (int)s.draw(8), (int)s.draw(3));
  RunOpts o; o.hostile_gc = true;
  auto out = diffrun(p, s, c, o); c.nontrivial = out.source.size() > 300;
}

struct Run { bz::Trace tr; std::vector<std::string> out; std::string end; };
static void roots(Src& s, Ctx& c) {
  std::string src = libscript(s, c); c.note(src);
  bz::Compiled cc; bz::compile(src, cc); if (!cc.assembled) fail("a valid program was rejected by the compiler");
  // messages to inject, produced by a peer running the same script
  size_t rounds = 1 + s.draw(4); bool peer = s.chance(3, 4); unsigned mode = (unsigned)s.draw(3); std::vector<unsigned> sched; for (int i = 0; i < 64; ++i) sched.push_back((unsigned)s.draw(4));
  int nn = (int)s.draw(4);
  auto go = [&](bool hostile, Run& r) {
    bz::VM v1(5), v2(9); std::string* err = &r.end;
    size_t tick = 0;
    auto squeeze = [&](bz::VM& v) { if (!hostile) v.vm->heap->max_objs = 1u << 30; else if (mode == 0) v.vm->heap->max_objs = 0; else if (sched[tick++ % 64] == 0) v.vm->heap->max_objs = 1; };
    auto runmain = [&](bz::VM& v) -> bool { if (!v.load(cc.bcode)) { *err = "load:" + v.err(); return false; } uint64_t st = 0; while (v.vm->state == BUZZVM_STATE_READY) { if (++st > 400000) fail("script did not terminate"); squeeze(v); buzzvm_step(v.vm); } if (v.vm->state != BUZZVM_STATE_DONE) { *err = "main:" + v.err(); return false; } v.vm->state = BUZZVM_STATE_READY; return true; };
    if (!runmain(v1) || (peer && !runmain(v2))) { r.tr = v1.trace; return; }
    for (size_t k = 0; k < rounds; ++k) {
      for (bz::VM* v : {&v1, &v2}) {
        if (v == &v2 && !peer) continue;
        buzzneighbors_reset(v->vm); for (int i = 0; i < nn; ++i) buzzneighbors_add(v->vm, 20 + i, (float)i + 0.25f, 0.5f, 0);
        squeeze(*v); buzzvm_process_inmsgs(v->vm); if (v->vm->state != BUZZVM_STATE_READY) { *err = "inmsg:" + v->err(); r.tr = v1.trace; return; }
        squeeze(*v); buzzvm_pushs(v->vm, buzzvm_string_register(v->vm, "step", 0)); buzzvm_gload(v->vm); buzzvm_closure_call(v->vm, 0);
        if (v->vm->state != BUZZVM_STATE_READY) { *err = "step:" + v->err(); r.tr = v1.trace; return; }
        buzzvm_pop(v->vm); buzzvm_process_outmsgs(v->vm);
        net::Bytes b; size_t guard = 0;
        while (buzzoutmsg_queue_size(v->vm) > 0 && ++guard < 500) {
          buzzmsg_payload_t m = buzzoutmsg_queue_first(v->vm); net::Bytes bb = net::bytes(m); buzzmsg_payload_destroy(&m); buzzoutmsg_queue_next(v->vm);
          if (v == &v1) { net::Bytes q = bb; if (q.size() > 1) std::sort(q.begin() + 1, q.end()); r.out.push_back(net::hex(q)); }
          if (peer) buzzinmsg_queue_append((v == &v1 ? v2 : v1).vm, v->vm->robot, net::payload(bb));
        }
      }
    }
    r.tr = v1.trace; r.tr.insert(r.tr.end(), v2.trace.begin(), v2.trace.end()); r.end = "ok";
  };
  Run quiet, hot; go(false, quiet); go(true, hot);
  if (quiet.tr != hot.tr) fail("output depends on when garbage is collected: " + bz::trace_diff(quiet.tr, hot.tr));
  if (quiet.out != hot.out) fail("messages sent depend on when garbage is collected");
  if (quiet.end != hot.end) fail("outcome depends on when garbage is collected: '" + quiet.end + "' without, '" + hot.end + "' with collections");
  c.cls("end:" + quiet.end.substr(0, 40)); c.nontrivial = quiet.tr.size() > 2; c.cls("log-lines", quiet.tr.size()); c.cls("messages", quiet.out.size());
}
// long chains of tables: collections neither lose nor choke on data that is nested very deeply
static void chains(Src& s, Ctx& c) {
  bool ring = s.chance(1, 4), clos = s.chance(1, 3); int n = (int)s.range(1000, s.chance(1, 10) ? (clos ? 16000 : 20000) : 8000), every = (int)s.range(200, 3000); std::string src = "function node(p, i) { var t = {.v=i} " + std::string(clos ? "t.up = function() { return p }" : "t.up = p") + " return t }\n"
    "t = nil\ni = 0\nfirst = nil\nwhile(i < " + bz::S(n) + ") { t = node(t, i) if(i == 0) { first = t } i = i + 1 }\n" + (ring && !clos ? "first.up = t\n" : "") + "log(\"built\", t.v)\nx = t\ns = 0\nj = 0\nwhile(j < " + bz::S(n) + ") { if(x.v != " + bz::S(n) + " - j - 1) { s = s + 1 } x = x.up" + (clos ? "()" : "") + " j = j + 1 }\nlog(\"sum\", s)\n" + (ring && !clos ? "log(\"ring\", x == t)\n" : "log(\"end\", x)\n") + "t = nil\nx = nil\nfirst = nil\nk = 0\nwhile(k < 20) { y = {} k = k + 1 }\nlog(\"done\")\n"; c.note(src);
  bz::Compiled cc; bz::compile(src, cc); if (!cc.assembled) fail("a valid program was rejected by the compiler"); bz::VM vm(1); if (!vm.load(cc.bcode)) fail("loading failed: " + vm.err()); uint64_t st = 0; int left = 1500000 / (n + 10000); while (vm.vm->state == BUZZVM_STATE_READY) { if (++st > 20000000) fail("the program does not end"); if (left && st % (every * 20) == 0) { vm.vm->heap->max_objs = 1; --left; } buzzvm_step(vm.vm); }
  if (vm.vm->state != BUZZVM_STATE_DONE) fail("the program stopped: " + vm.err()); bz::Trace e = {"s:'built' i:" + bz::S(n - 1), "s:'sum' i:0", ring && !clos ? "s:'ring' i:1" : "s:'end' nil", "s:'done'"}; if (vm.trace != e) fail(bz::trace_diff(e, vm.trace)); c.nontrivial = true; c.cls("nodes", n);
}
// the same built by the host, so much longer chains cost little
static void hostchains(Src& s, Ctx& c) {
  int n = (int)s.range(1000, 150000), cut = (int)s.range(0, n - 1); bz::VM vm(1); buzzobj_t nil = buzzheap_newobj(vm.vm, BUZZTYPE_NIL), prev = nil; std::vector<buzzobj_t> at; buzzobj_t k = buzzheap_newobj(vm.vm, BUZZTYPE_INT), kv = buzzheap_newobj(vm.vm, BUZZTYPE_INT); k->i.value = 1; kv->i.value = 2;
  for (int i = 0; i < n; ++i) { buzzobj_t t = buzzheap_newobj(vm.vm, BUZZTYPE_TABLE), v = buzzheap_newobj(vm.vm, BUZZTYPE_INT); v->i.value = i; buzzdict_set(t->t.value, &kv, &v); if (prev != nil) buzzdict_set(t->t.value, &k, &prev); prev = t; at.push_back(t); }
  buzzvm_pushs(vm.vm, buzzvm_string_register(vm.vm, "g", 0)); buzzvm_push(vm.vm, at[cut]); buzzvm_gstore(vm.vm);
  int rounds = 1 + (int)s.range(0, 1); for (int i = 0; i < rounds; ++i) { vm.vm->heap->max_objs = 1; buzzheap_gc(vm.vm); }
  buzzvm_pushs(vm.vm, buzzvm_string_register(vm.vm, "g", 0)); buzzvm_gload(vm.vm); buzzobj_t x = buzzvm_stack_at(vm.vm, 1); int i = cut;
  for (;; --i) {
    if (x->o.type != BUZZTYPE_TABLE) fail(bz::fmt("element %d of a chain of %d tables is no table any more", i, n)); k = buzzheap_newobj(vm.vm, BUZZTYPE_INT); k->i.value = 2; const buzzobj_t* v = buzzdict_get(x->t.value, &k, buzzobj_t); if (!v || (*v)->o.type != BUZZTYPE_INT || (*v)->i.value != i) fail(bz::fmt("element %d of a chain of %d tables lost its value in a collection", i, n));
    k->i.value = 1; const buzzobj_t* nx = buzzdict_get(x->t.value, &k, buzzobj_t); if (i == 0) { if (nx) fail("the end of the chain continues"); break; } if (!nx) fail(bz::fmt("a chain of %d tables is cut at element %d by a collection", n, i)); x = *nx;
  }
  c.note(bz::fmt("chain of %d tables, reachable from element %d, %d collections\n", n, cut, rounds)); c.nontrivial = cut > 1000; c.cls("reachable", cut);
}
// globals the host sets under names no script mentions, interleaved with a script that allocates and with collections
static void hostglobals(Src& s, Ctx& c) {
  std::string src = "function init() { }\nfunction step(n) { var i = 0 while(i < n) { junk = {.a={}, .b=string.concat(\"j\", string.tostring(i))} i = i + 1 } return n }\n"; bz::Compiled cc; bz::compile(src, cc); if (!cc.assembled) fail("a valid program was rejected by the compiler"); bz::VM vm(1); if (!vm.load(cc.bcode)) fail("loading failed: " + vm.err()); while (vm.vm->state == BUZZVM_STATE_READY) buzzvm_step(vm.vm); vm.vm->state = BUZZVM_STATE_READY;
  std::map<std::string, std::string> model; std::string hist; int ops = 3 + (int)s.draw(30), checked = 0, gcs = 0;
  auto get = [&](const std::string& n) { buzzvm_pushs(vm.vm, buzzvm_string_register(vm.vm, n.c_str(), 0)); buzzvm_gload(vm.vm); buzzobj_t o = buzzvm_stack_at(vm.vm, 1); std::string r; switch (o->o.type) { case BUZZTYPE_NIL: r = "nil"; break; case BUZZTYPE_INT: r = bz::fmt("i%d", o->i.value); break; case BUZZTYPE_FLOAT: r = bz::fmt("f%g", o->f.value); break; case BUZZTYPE_STRING: r = bz::fmt("s%s", o->s.value.str); break; case BUZZTYPE_TABLE: r = bz::fmt("t%u", buzzdict_size(o->t.value)); break; default: r = bz::fmt("type %d", o->o.type); } buzzvm_pop(vm.vm); return r; };
  for (int k = 0; k < ops; ++k) {
    std::string n = "host" + bz::S(s.draw(12));
    switch (s.draw(4)) {
      case 0: case 1: {
        int v = (int)s.range(-50, 50); buzzvm_pushs(vm.vm, buzzvm_string_register(vm.vm, n.c_str(), 0)); std::string m;
        switch (s.draw(4)) { case 0: buzzvm_pushi(vm.vm, v); m = bz::fmt("i%d", v); break; case 1: buzzvm_pushf(vm.vm, v * 0.5f); m = bz::fmt("f%g", v * 0.5f); break; case 2: { std::string t = "val" + bz::S(v); buzzvm_pushs(vm.vm, buzzvm_string_register(vm.vm, t.c_str(), 0)); m = "s" + t; break; } default: { int cnt = 1 + (int)s.draw(5); buzzvm_pusht(vm.vm); buzzobj_t t = buzzvm_stack_at(vm.vm, 1); for (int i = 0; i < cnt; ++i) { buzzvm_push(vm.vm, t); buzzvm_pushs(vm.vm, buzzvm_string_register(vm.vm, ("k" + bz::S(i)).c_str(), 0)); buzzvm_pushi(vm.vm, i); buzzvm_tput(vm.vm); } m = bz::fmt("t%d", cnt); } }
        buzzvm_gstore(vm.vm); model[n] = m; hist += "set " + n + " = " + m + "; "; break; }
      case 2: { int w = (int)s.draw(30); hist += "step; "; if (s.chance(1, 2)) { vm.vm->heap->max_objs = 1; ++gcs; } buzzvm_pushs(vm.vm, buzzvm_string_register(vm.vm, "step", 0)); buzzvm_gload(vm.vm); buzzvm_pushi(vm.vm, w); buzzvm_closure_call(vm.vm, 1); if (vm.vm->state != BUZZVM_STATE_READY) fail("step failed: " + vm.err()); if (buzzvm_stack_at(vm.vm, 1)->o.type != BUZZTYPE_INT || buzzvm_stack_at(vm.vm, 1)->i.value != w) fail("step returned something else; after: " + hist); buzzvm_pop(vm.vm); break; }
      default: { vm.vm->heap->max_objs = 1; buzzheap_gc(vm.vm); ++gcs; hist += "gc; "; } }
    if (s.chance(1, 3) || k + 1 == ops) for (int i = 0; i <= 12; ++i) { std::string q = "host" + bz::S(i), e = model.count(q) ? model[q] : "nil", g = get(q); checked += e != "nil"; if (g != e) { c.note(hist + "\n"); fail("global " + q + " is " + g + " instead of " + e); } }
  }
  c.note(hist + "\n"); c.nontrivial = checked > 0 && gcs > 0; c.cls("collections", gcs);
}
int main(int argc, char** argv) {
  std::vector<Test> t = { {"programs", programs, 5000, 90000}, {"roots", roots, 8000, 160000}, {"chains", chains, 40, 800}, {"hostchains", hostchains, 30, 600}, {"hostglobals", hostglobals, 3000, 60000} };
  return run(argc, argv, "P04", t);
}
