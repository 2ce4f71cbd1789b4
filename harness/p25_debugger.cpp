// Breakpoints, continuing, debugged calls and stack dumps.
#include "alloc.hpp"
#include "lang.hpp"
#include "bytecode.hpp"
using namespace ref; using namespace pbt;
static std::string show(buzzobj_t o) {
  switch (o->o.type) { case BUZZTYPE_NIL: return "[nil]"; case BUZZTYPE_INT: return bz::fmt("[int] %d", o->i.value); case BUZZTYPE_FLOAT: return bz::fmt("[float] %f", o->f.value); case BUZZTYPE_TABLE: return bz::fmt("[table] %u elements", (unsigned)buzzdict_size(o->t.value)); case BUZZTYPE_STRING: return bz::fmt("[string] %d:'", o->s.value.sid) + o->s.value.str + "'"; case BUZZTYPE_CLOSURE: return o->c.value.isnative ? "[n-closure]" : "[c-closure]"; } return "?"; }
static void dumps(bz::VM& vm) {
  std::vector<std::vector<buzzobj_t>> before; for (int64_t i = 0; i < buzzdarray_size(vm.vm->stacks); ++i) { buzzdarray_t st = buzzdarray_get(vm.vm->stacks, i, buzzdarray_t); std::vector<buzzobj_t> v; for (int64_t j = 0; j < buzzdarray_size(st); ++j) v.push_back(buzzdarray_get(st, j, buzzobj_t)); before.push_back(v); }
  int32_t pc = vm.vm->pc; int state = vm.vm->state; size_t n = before.size();
  for (size_t idx = 1; idx <= n && idx <= 6; ++idx) { char* buf = nullptr; size_t len = 0; FILE* f = open_memstream(&buf, &len); buzzdebug_stack_dump(vm.vm, (uint32_t)idx, f); fclose(f); std::string t(buf, len); free(buf); size_t from = 0; auto& st = before[n - idx];
    if (t.find(bz::fmt("pc: %d\n", pc)) == std::string::npos) fail("the stack dump does not tell the program counter:\n" + t); if (t.find(bz::fmt("stacks: %zu\t", n)) == std::string::npos) fail("the stack dump does not tell the number of stacks:\n" + t);
    for (size_t j = st.size(); j-- > 0;) { std::string w = bz::fmt("\n\t%zu\t", j) + show(st[j]); size_t p = t.find(w, from); if (p == std::string::npos) fail("the dump of stack " + bz::S(idx) + " does not show" + w + "\n" + t); from = p + 1; } }
  if (vm.vm->pc != pc || vm.vm->state != state || (size_t)buzzdarray_size(vm.vm->stacks) != n) fail("a stack dump changed the machine");
}
struct End { int state, error; std::string err; bz::Trace trace; std::map<std::string, std::string> glob; };
static void capture(bz::VM& v, End& e, const bc::Code& k) { e.state = v.vm->state; e.error = v.vm->error; e.err = v.vm->errormsg ? v.vm->errormsg : ""; e.trace = v.trace; for (auto& n : k.strings) { uint16_t sid = buzzvm_string_register(v.vm, n.c_str(), 0); const buzzobj_t* o = buzzdict_get(v.vm->gsyms, &sid, buzzobj_t); if (o) e.glob[n] = bz::dump(*o); } }
static void same(const End& a, const End& b, const char* how) { if (a.trace != b.trace) fail(std::string(how) + ": " + bz::trace_diff(a.trace, b.trace)); if (a.state != b.state) fail(bz::fmt("%s: the machine ends in state %s instead of %s", how, buzzvm_state_desc[b.state], buzzvm_state_desc[a.state])); if (a.error != b.error || a.err != b.err) fail(std::string(how) + ": error " + b.err + " instead of " + a.err); if (a.glob != b.glob) fail(std::string(how) + ": the global symbols differ"); }
static std::string locstr(buzzdebug_entry_t e) { return bz::fmt("%llu:%llu:", (unsigned long long)e->line, (unsigned long long)e->col) + e->fname; }
static void program(Src& s, std::string& src, bz::Compiled& cc, Ctx& c) {
  Gen g(s); g.chaos = s.chance(1, 5); g.budget = 20 + (int)s.draw(50); Block p = g.program(3 + (int)s.draw(10), (int)s.draw(3)); { Interp in; if (in.run(p) == 2) throw Discard(); }  // the order of two tables, say, depends on where they lie in memory
  Printer pr; pr.src = &s; src = pr.program(p); c.note(src); bz::compile(src, cc); if (!cc.parsed || !cc.assembled) fail("a valid program was rejected");
}
static void breakpoints(Src& s, Ctx& c) {
  std::string src; bz::Compiled cc; program(s, src, cc, c); bc::Code k; { std::string e = bc::decode(cc.bcode, k); if (!e.empty()) fail("malformed code: " + e); }
  std::vector<int32_t> hist; End plain, dbg; { bz::VM v(1); if (!v.load(cc.bcode)) fail("load"); while (v.vm->state == BUZZVM_STATE_READY) { if (hist.size() > 4000) throw Discard(); hist.push_back(v.vm->pc); buzzvm_step(v.vm); } capture(v, plain, k); }
  if (hist.empty()) throw Discard(); std::set<int32_t> bp; auto pick = [&]() -> int32_t { switch (s.draw(4)) { case 0: return s.pick(k.ins).off; case 1: return (int32_t)s.range(-5, (int64_t)cc.bcode.size() + 5); default: return s.pick(hist); } };
  auto& d = cc.dbg; auto add = [&] { int32_t o = pick(); if (s.chance(1, 3)) { const buzzdebug_entry_t* e = buzzdebug_info_get_fromoffset(d, &o); if (e) { const int32_t* f = buzzdebug_info_get_fromscript(d, (*e)->line, (*e)->col, (*e)->fname); if (!f) fail("location " + locstr(*e) + " is not found"); o = *f; c.cls("by-location"); } } buzzdebug_breakpoint_set_offset(d, o); bp.insert(o); };
  auto consistent = [&] { if ((size_t)buzzdebug_breakpoint_count(d) != bp.size()) fail(bz::fmt("%u breakpoints instead of %zu", (unsigned)buzzdebug_breakpoint_count(d), bp.size())); std::set<int32_t> got; for (size_t i = 0; i < bp.size(); ++i) got.insert(buzzdebug_breakpoint_get_offset(d, i)); if (got != bp) fail("the breakpoints are not those that were set"); for (int i = 0; i < 4; ++i) { int32_t o = pick(); if (!!buzzdebug_breakpoint_exists(d, o) != !!bp.count(o)) fail("buzzdebug_breakpoint_exists is wrong about " + bz::S(o)); } };
  size_t nb = s.len(6); for (size_t i = 0; i < nb; ++i) add(); consistent();
  { bz::VM v(1); if (!v.load(cc.bcode)) fail("load"); size_t at = 0, stops = 0; bool started = false;
    for (size_t round = 0;; ++round) { size_t j = started ? at + 1 : 0; while (j < hist.size() && !bp.count(hist[j])) ++j; started = true;
      if (round > 40) { buzzdebug_breakpoint_clear(d); bp.clear(); consistent(); j = hist.size(); }
      buzzvm_state r = buzzdebug_continue(v.vm, d); if (r != v.vm->state) fail("the result of buzzdebug_continue is not the state");
      if (j < hist.size()) { ++stops; at = j; if (r != BUZZVM_STATE_STOPPED) fail(bz::fmt("the machine does not stop at the breakpoint at %d (state %s, pc %d)", hist[j], buzzvm_state_desc[r], v.vm->pc)); if (v.vm->pc != hist[j]) fail(bz::fmt("the machine stops at %d instead of the breakpoint at %d", v.vm->pc, hist[j])); if (buzzvm_step(v.vm) != BUZZVM_STATE_STOPPED || v.vm->pc != hist[j]) fail("a stopped machine goes on by itself"); if (s.chance(1, 4)) dumps(v);
        if (s.chance(1, 4)) { if (s.flip()) add(); else if (!bp.empty()) { size_t i = s.draw(bp.size()); bp.erase(buzzdebug_breakpoint_get_offset(d, i)); buzzdebug_breakpoint_remove(d, i); } consistent(); } }
      else { if (r == BUZZVM_STATE_STOPPED) fail(bz::fmt("the machine stops at %d, where there is no breakpoint to come", v.vm->pc)); break; } }
    capture(v, dbg, k); if (buzzdebug_continue(v.vm, d) != dbg.state) fail("continuing a finished machine changes its state"); dumps(v); c.cls("stops", stops); c.nontrivial = stops > 1; c.cls(plain.state == BUZZVM_STATE_DONE ? "finished" : "runtime-error"); }
  same(plain, dbg, "with breakpoints");
}
// calls made by the host under the debugger
static void calls(Src& s, Ctx& c) {
  size_t nf = 1 + s.draw(3); std::string src = "total = 0\n"; std::vector<size_t> ar; for (size_t f = 0; f < nf; ++f) { size_t a = s.draw(4); ar.push_back(a); std::string ps, sum = bz::S(s.range(0, 9)); for (size_t i = 0; i < a; ++i) { ps += (i ? ", p" : "p") + bz::S(i); sum += s.flip() ? " + p" + bz::S(i) : " * p" + bz::S(i); }
    src += "function fn" + bz::S(f) + "(" + ps + ") {\n"; size_t n = s.draw(5); for (size_t i = 0; i < n; ++i) switch (s.draw(6)) { case 0: src += "  log(\"in\", " + bz::S(f) + ")\n"; break; case 1: src += "  total = total + 1\n"; break; case 2: src += "  var v" + bz::S(i) + " = { .a = " + bz::S(i) + " }\n  v" + bz::S(i) + ".me = v" + bz::S(i) + "\n"; break; case 3: if (f) { size_t g = s.draw(f); std::string args; for (size_t q = 0; q < ar[g]; ++q) args += (q ? ", " : "") + bz::S(q + 2); src += "  log(fn" + bz::S(g) + "(" + args + "))\n"; } break; case 4: src += "  for(i = 0, i < 3, i = i + 1) { log(i) }\n"; break; default: if (s.chance(1, 3)) src += "  log(total.none)\n"; else if (a) src += "  if(p0 > 2) { log(\"big\", p0) } else { log(p0) }\n"; }
    if (s.chance(3, 4)) src += "  return " + sum + "\n"; src += "}\n"; }
  src += "log(\"ready\")\n"; c.note(src); bz::Compiled cc; bz::compile(src, cc); if (!cc.parsed || !cc.assembled) fail("a valid program was rejected"); bc::Code k; bc::decode(cc.bcode, k); bz::VM a(1), b(1); bz::VM* vs2[] = {&a, &b}; for (auto v : vs2) { if (!v->load(cc.bcode) || !v->run()) fail("load"); }
  size_t nc = 1 + s.draw(5), stops = 0; auto& d = cc.dbg; bool closure = s.flip();
  for (size_t q = 0; q < nc; ++q) { size_t f = s.draw(nf + (s.chance(1, 8) ? 1 : 0)); size_t argc = f < nf ? ar[f] : s.draw(3); std::vector<int> args; for (size_t i = 0; i < argc; ++i) args.push_back((int)s.range(-5, 9)); std::string fn = "fn" + bz::S(f); buzzdebug_breakpoint_clear(d); std::set<int32_t> bp; size_t nb = s.len(5); for (size_t i = 0; i < nb; ++i) { int32_t o = s.pick(k.ins).off; bp.insert(o); buzzdebug_breakpoint_set_offset(d, o); }
    std::string note = "call " + fn + " with"; for (int x : args) note += " " + bz::S(x); note += ", breakpoints at"; for (int32_t x : bp) note += " " + bz::S(x); c.note(note);
    std::vector<int32_t> hist; bool missing = f >= nf; size_t base = buzzvm_stack_top(a.vm);
    // the plain machine, stepped by hand to know where it passes
    auto start = [&](bz::VM& v) { if (v.vm->state == BUZZVM_STATE_DONE) v.vm->state = BUZZVM_STATE_READY; for (int x : args) buzzvm_pushi(v.vm, x); };
    { start(a); if (missing) buzzvm_function_call(a.vm, fn.c_str(), argc); else { buzzobj_t nil = buzzheap_newobj(a.vm, BUZZTYPE_NIL); buzzvm_pushs(a.vm, buzzvm_string_register(a.vm, fn.c_str(), 0)); buzzvm_gload(a.vm); buzzobj_t fo = buzzvm_stack_at(a.vm, 1); buzzvm_pop(a.vm); buzzdarray_insert(a.vm->stack, buzzdarray_size(a.vm->stack) - argc, &nil); buzzdarray_insert(a.vm->stack, buzzdarray_size(a.vm->stack) - argc, &fo); buzzvm_pushi(a.vm, argc); int64_t depth = buzzdarray_size(a.vm->stacks); if (buzzvm_callc(a.vm) == BUZZVM_STATE_READY) while (a.vm->state == BUZZVM_STATE_READY && buzzdarray_size(a.vm->stacks) > depth) { hist.push_back(a.vm->pc); buzzvm_step(a.vm); } } }
    start(b); buzzvm_state r; if (closure && !missing) { buzzvm_pushs(b.vm, buzzvm_string_register(b.vm, fn.c_str(), 0)); buzzvm_gload(b.vm); buzzobj_t fo = buzzvm_stack_at(b.vm, 1); buzzvm_pop(b.vm); buzzdarray_insert(b.vm->stack, buzzdarray_size(b.vm->stack) - argc, &fo); r = buzzdebug_closure_call(b.vm, argc, d); } else r = buzzdebug_function_call(b.vm, fn.c_str(), argc, d);
    size_t at = 0; for (bool first = true;; first = false) { size_t j = first ? 0 : at + 1; while (j < hist.size() && !bp.count(hist[j])) ++j; if (j < hist.size()) { if (r != BUZZVM_STATE_STOPPED || b.vm->pc != hist[j]) fail(bz::fmt("the call does not stop at %d (state %s, pc %d)", hist[j], buzzvm_state_desc[r], b.vm->pc)); ++stops; at = j; if (s.chance(1, 3)) dumps(b); r = buzzdebug_continue(b.vm, d); } else break; }
    // a resumed call goes on after its end, to where the machine was before
    if (r == BUZZVM_STATE_STOPPED) { buzzdebug_breakpoint_clear(d); r = buzzdebug_continue(b.vm, d); }
    if (a.trace != b.trace) fail(bz::trace_diff(a.trace, b.trace)); bool aerr = a.vm->state == BUZZVM_STATE_ERROR, berr = r == BUZZVM_STATE_ERROR; if (aerr != berr) fail("the outcome differs: " + (aerr ? a.err() : b.err())); if (aerr) { if (a.vm->error != b.vm->error) fail("a different error: " + b.err() + " instead of " + a.err()); c.cls("error"); break; }
    if ((size_t)buzzvm_stack_top(a.vm) != base + 1 || buzzvm_stack_top(b.vm) != buzzvm_stack_top(a.vm)) fail(bz::fmt("the stack holds %d values instead of %zu", (int)buzzvm_stack_top(b.vm), base + 1)); if (bz::dump(buzzvm_stack_at(a.vm, 1)) != bz::dump(buzzvm_stack_at(b.vm, 1))) fail("the call returns " + bz::dump(buzzvm_stack_at(b.vm, 1)) + " instead of " + bz::dump(buzzvm_stack_at(a.vm, 1))); for (auto v : vs2) { buzzvm_pop(v->vm); v->vm->state = BUZZVM_STATE_READY; } }
  c.cls("stops", stops); c.nontrivial = stops > 0 && nc > 1;
}
// every location in a script is found, and leads to the first code there; no other location is found
static void locations(Src& s, Ctx& c) {
  std::string src; bz::Compiled cc; program(s, src, cc, c); bc::Code k; bc::decode(cc.bcode, k); auto& d = cc.dbg; size_t n = 0; std::set<int32_t> offs; for (auto& i : k.ins) offs.insert((int32_t)i.off); uint64_t lines = std::count(src.begin(), src.end(), '\n') + 1;
  for (auto& i : k.ins) { int32_t o = (int32_t)i.off; const buzzdebug_entry_t* e = buzzdebug_info_get_fromoffset(d, &o); if (!!e != !!buzzdebug_info_exists_offset(d, &o)) fail("buzzdebug_info_exists_offset is wrong"); if (!e) continue; ++n; const int32_t* f = buzzdebug_info_get_fromscript(d, (*e)->line, (*e)->col, (*e)->fname); if (!f) fail("location " + locstr(*e) + " is not found"); if (*f > o || !offs.count(*f)) fail("location " + locstr(*e) + " of offset " + bz::S(o) + " leads to offset " + bz::S(*f)); }
  for (int i = 0; i < 8; ++i) { int32_t o = (int32_t)s.pick(k.ins).off; const buzzdebug_entry_t* e = buzzdebug_info_get_fromoffset(d, &o); if (!e) continue; uint64_t l = (*e)->line, col = (*e)->col; std::string fn = (*e)->fname; switch (s.draw(3)) { case 0: l += lines; break; case 1: col += src.size() + 1; break; default: fn += "x"; } if (buzzdebug_info_get_fromscript(d, l, col, fn.c_str())) fail(bz::fmt("location %llu:%llu of ", (unsigned long long)l, (unsigned long long)col) + fn + " is found, but nothing is there"); }
  if ((size_t)buzzdebug_info_count(d) != n) fail("entries for offsets that are not instructions"); if (!!buzzdebug_info_isempty(d) != (n == 0)) fail("isempty"); c.nontrivial = n > 20; c.cls("entries", n);
}
// the location table by itself, against two maps
static void table(Src& s, Ctx& c) {
  count_blocks(); { buzzdebug_t w = buzzdebug_new(); buzzdebug_destroy(&w); } size_t n = 1 + s.len(40); struct Op { int32_t off; uint64_t l, col; const char* f; }; std::vector<Op> ops; static const char* names[] = {"a.bzz", "/x/y.bzz", "b", "name with blanks.bzz", ""}; for (size_t i = 0; i < n; ++i) ops.push_back({(int32_t)s.pickl<int64_t>({s.range(0, 12), s.range(0, 12), s.range(-3, 100000)}), (uint64_t)s.range(0, 5), (uint64_t)(s.chance(1, 8) ? s.range(0, 1ll << 40) : s.range(0, 3)), names[s.draw(5)]});
  std::map<int32_t, size_t> last; std::map<std::tuple<std::string, uint64_t, uint64_t>, int32_t> first; std::string note; for (size_t i = 0; i < n; ++i) { auto& o = ops[i]; last[o.off] = i; auto key = std::make_tuple(std::string(o.f), o.l, o.col); auto it = first.find(key); if (it == first.end() || it->second > o.off) first[key] = o.off; note += bz::fmt("%d = %llu:%llu:%s\n", o.off, (unsigned long long)o.l, (unsigned long long)o.col, o.f); } c.note(note);
  std::string bad; int64_t before = g_live; buzzdebug_t d = buzzdebug_new(); for (auto& o : ops) buzzdebug_info_set(d, o.off, o.l, o.col, o.f); bool wrong = (size_t)buzzdebug_info_count(d) != last.size();
  for (auto& x : last) { int32_t o = x.first; const buzzdebug_entry_t* e = buzzdebug_info_get_fromoffset(d, &o); auto& w = ops[x.second]; if (!e || (*e)->line != w.l || (*e)->col != w.col || strcmp((*e)->fname, w.f)) wrong = true; } bool wrong2 = false; for (auto& x : first) { const int32_t* f = buzzdebug_info_get_fromscript(d, std::get<1>(x.first), std::get<2>(x.first), std::get<0>(x.first).c_str()); if (!f || *f != x.second) wrong2 = true; }
  buzzdebug_destroy(&d); int64_t after = g_live; if (wrong) fail("the location of an offset is not the last one set"); if (wrong2) fail("a location does not lead to the first offset set for it"); if (after != before) fail(bz::fmt("%lld heap blocks are left after the table is destroyed", (long long)(after - before))); c.nontrivial = n > 5;
}
int main(int argc, char** argv) { return run(argc, argv, "P25", {{"breakpoints", breakpoints, 6000, 150000}, {"calls", calls, 8000, 200000}, {"locations", locations, 2500, 50000}, {"table", table, 12000, 200000}}); }
