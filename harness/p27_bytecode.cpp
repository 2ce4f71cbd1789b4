// The instructions of the virtual machine against a model, and arbitrary bytecode.
#include "alloc.hpp"
#include "ref.hpp"
#include "bytecode.hpp"
using namespace pbt; using ref::Val; using ref::vi; using ref::vf; using ref::vs;
typedef ref::Interp I;
struct MClos : ref::Clos { bool native = true; uint32_t ref = 0; std::vector<Val> act; };
static Val mkclos(bool native, uint32_t r, std::vector<Val> act) { Val v; v.t = ref::VCLO; auto c = std::make_shared<MClos>(); c->native = native; c->ref = r; c->act = act; if (!native) c->builtin = "c"; v.clo = c; return v; }
static MClos& clos(const Val& v) { return *static_cast<MClos*>(v.clo.get()); }
// what a type error, a missing operand, ... must be reported as
struct Stop { int code; };
static uint32_t log_id() { static uint32_t id = UINT32_MAX; if (id == UINT32_MAX) { uint8_t b[] = {0, 0, BUZZVM_INSTR_NOP, BUZZVM_INSTR_DONE}; buzzvm_t vm = buzzvm_new(1); buzzvm_set_bcode(vm, b, sizeof b); id = buzzvm_function_register(vm, bz::hook_log); buzzvm_destroy(&vm); } return id; }
struct Model {
  const std::vector<uint8_t>& b; std::vector<std::string> strs; uint32_t pc; I in; bool done = false; size_t calls = 0, maxdepth = 1;
  struct Frame { std::vector<Val> stack; bool haslocals = false; std::vector<Val> loc; }; std::vector<Frame> fr; std::map<std::string, Val> globals; std::map<void*, std::vector<Val>*> dummy;
  Model(const std::vector<uint8_t>& b_, const bc::Code& k) : b(b_), strs(k.strings), pc(k.start) { fr.resize(1); }
  std::vector<Val>& st() { return fr.back().stack; }
  void need(size_t n) { if (st().size() < n) throw Stop{BUZZVM_ERROR_STACK}; }
  Val& at(size_t n) { need(n); return st()[st().size() - n]; }
  Val pop() { need(1); Val v = st().back(); st().pop_back(); return v; }
  void locals() { if (!fr.back().haslocals) { fr.back().haslocals = true; fr.back().loc = {Val()}; } }
  void go(uint32_t p) { if (p >= b.size()) throw Stop{BUZZVM_ERROR_PC}; pc = p; }
  void leave(Val r) { if (fr.size() < 2) throw Stop{BUZZVM_ERROR_STACK}; fr.pop_back(); Val ra = pop(); pc = (uint32_t)ra.i; st().push_back(r); }
  void step() {
    uint8_t op = b[pc]; if (op >= BUZZVM_INSTR_COUNT) throw Stop{BUZZVM_ERROR_INSTR}; uint32_t arg = 0; uint32_t next = pc + 1; if (op != BUZZVM_INSTR_DONE && bc::hasarg(op)) { if ((size_t)pc + 5 >= b.size()) throw Stop{BUZZVM_ERROR_PC}; memcpy(&arg, &b[pc + 1], 4); next = pc + 5; }
    static const std::map<int, const char*> arith = {{BUZZVM_INSTR_ADD, "+"}, {BUZZVM_INSTR_SUB, "-"}, {BUZZVM_INSTR_MUL, "*"}, {BUZZVM_INSTR_DIV, "/"}, {BUZZVM_INSTR_MOD, "%"}, {BUZZVM_INSTR_POW, "^"}, {BUZZVM_INSTR_BAND, "&"}, {BUZZVM_INSTR_BOR, "|"}, {BUZZVM_INSTR_LSHIFT, "<<"}, {BUZZVM_INSTR_RSHIFT, ">>"}};
    static const std::map<int, const char*> cmp = {{BUZZVM_INSTR_EQ, "=="}, {BUZZVM_INSTR_NEQ, "!="}, {BUZZVM_INSTR_GT, ">"}, {BUZZVM_INSTR_GTE, ">="}, {BUZZVM_INSTR_LT, "<"}, {BUZZVM_INSTR_LTE, "<="}};
    auto it = arith.find(op), ic = cmp.find(op);
    if (it != arith.end()) { need(2); Val y = pop(), x = pop(); try { st().push_back(in.arith(it->second, x, y)); } catch (ref::RtErr&) { throw Stop{BUZZVM_ERROR_TYPE}; } return go(next); }
    if (ic != cmp.end()) { need(2); Val y = pop(), x = pop(); try { st().push_back(in.docmp(ic->second, x, y)); } catch (ref::RtErr&) { throw Stop{BUZZVM_ERROR_TYPE}; } return go(next); }
    auto key = [&](const Val& k) { if (k.t != ref::VINT && k.t != ref::VFLT && k.t != ref::VSTR) throw Stop{BUZZVM_ERROR_TYPE}; if (k.t == ref::VFLT && std::isnan(k.f)) throw ref::Ambig{"nan key"}; if (k.t == ref::VINT && (k.i > (1 << 24) || k.i < -(1 << 24))) throw ref::Ambig{"large int key"}; };
    switch (op) {
      case BUZZVM_INSTR_NOP: break;
      case BUZZVM_INSTR_DONE: done = true; return;
      case BUZZVM_INSTR_PUSHNIL: st().push_back(Val()); break;
      case BUZZVM_INSTR_DUP: st().push_back(Val(at(1))); break;
      case BUZZVM_INSTR_POP: pop(); break;
      case BUZZVM_INSTR_RET0: return leave(Val());
      case BUZZVM_INSTR_RET1: { if (fr.size() < 2) throw Stop{BUZZVM_ERROR_STACK}; Val v = pop(); return leave(v); }
      case BUZZVM_INSTR_UNM: { Val v = pop(); if (v.t == ref::VINT) st().push_back(vi(I::chk(-(int64_t)v.i))); else if (v.t == ref::VFLT) st().push_back(vf(-v.f)); else throw Stop{BUZZVM_ERROR_TYPE}; break; }
      case BUZZVM_INSTR_LAND: case BUZZVM_INSTR_LOR: { need(2); bool y = ref::truthy(pop()), x = ref::truthy(pop()); st().push_back(vi(op == BUZZVM_INSTR_LAND ? x && y : x || y)); break; }
      case BUZZVM_INSTR_LNOT: { Val v = pop(); st().push_back(vi(!ref::truthy(v))); break; }
      case BUZZVM_INSTR_BNOT: { Val v = pop(); if (v.t != ref::VINT) throw Stop{BUZZVM_ERROR_TYPE}; st().push_back(vi(~v.i)); break; }
      case BUZZVM_INSTR_GLOAD: { Val v = pop(); if (v.t != ref::VSTR) throw Stop{BUZZVM_ERROR_TYPE}; st().push_back(globals.count(v.s) ? globals[v.s] : Val()); break; }
      case BUZZVM_INSTR_GSTORE: { need(2); Val v = pop(), n = pop(); if (n.t != ref::VSTR) throw Stop{BUZZVM_ERROR_TYPE}; globals[n.s] = v; break; }
      case BUZZVM_INSTR_PUSHT: { Val t; t.t = ref::VTAB; t.tab = std::make_shared<ref::Table>(); st().push_back(t); break; }
      case BUZZVM_INSTR_TPUT: { need(3); Val v = pop(), k = pop(), t = pop(); if (t.t != ref::VTAB) throw Stop{BUZZVM_ERROR_TYPE}; key(k); if (v.t == ref::VCLO) { auto a = clos(v).act; a[0] = t; v = mkclos(clos(v).native, clos(v).ref, a); }
        auto& kv = t.tab->kv; bool found = false; for (size_t i = 0; i < kv.size() && !found; ++i) if (ref::keyeq(kv[i].first, k)) { found = true; if (v.t == ref::VNIL) kv.erase(kv.begin() + i); else { kv[i].second = v; kv[i].first = k; } } if (!found && v.t != ref::VNIL) kv.push_back({k, v}); break; }
      case BUZZVM_INSTR_TGET: { need(2); Val k = pop(), t = pop(); if (t.t != ref::VTAB) throw Stop{BUZZVM_ERROR_TYPE}; key(k); st().push_back(in.tget(t, k)); break; }
      case BUZZVM_INSTR_CALLC: case BUZZVM_INSTR_CALLS: {
        Val n = at(1); if (n.t != ref::VINT) throw Stop{BUZZVM_ERROR_TYPE}; pop(); if (n.i < 0 || (size_t)n.i + 1 > st().size()) throw Stop{BUZZVM_ERROR_STACK}; Val f = at(n.i + 1); if (f.t != ref::VCLO) throw Stop{BUZZVM_ERROR_TYPE}; if (!clos(f).native && clos(f).ref != log_id()) throw Stop{BUZZVM_ERROR_FLIST};
        std::vector<Val> loc = clos(f).act; for (size_t i = n.i; i > 0; --i) loc.push_back(at(i)); for (int i = 0; i <= n.i; ++i) pop(); if (!st().empty()) pop(); ++calls;
        if (!clos(f).native) { std::string l; ref::DumpR d; for (size_t i = 1; i < loc.size(); ++i) l += (i > 1 ? " " : "") + d.dump(loc[i]); in.trace.push_back(l); st().push_back(Val()); return go(next); }
        if (next >= b.size()) throw Stop{BUZZVM_ERROR_PC}; st().push_back(vi((int32_t)next)); Frame nf; nf.haslocals = true; nf.loc = loc; fr.push_back(nf); maxdepth = std::max(maxdepth, fr.size()); return go(clos(f).ref); }
      case BUZZVM_INSTR_PUSHF: { float f; memcpy(&f, &arg, 4); st().push_back(vf(f)); break; }
      case BUZZVM_INSTR_PUSHI: st().push_back(vi((int32_t)arg)); break;
      case BUZZVM_INSTR_PUSHS: if ((arg & 0xffff) >= strs.size()) { if (arg < 5000) throw ref::Ambig{"a string of the library"}; throw Stop{BUZZVM_ERROR_STRING}; } st().push_back(vs(strs[arg & 0xffff])); break;
      case BUZZVM_INSTR_PUSHCN: st().push_back(mkclos(true, arg, {Val()})); break;
      case BUZZVM_INSTR_PUSHCC: st().push_back(mkclos(false, arg, {Val()})); break;
      case BUZZVM_INSTR_PUSHL: st().push_back(mkclos(true, arg, fr.back().haslocals ? fr.back().loc : std::vector<Val>{Val()})); break;
      case BUZZVM_INSTR_LLOAD: locals(); if (arg >= fr.back().loc.size()) throw Stop{BUZZVM_ERROR_LNUM}; st().push_back(fr.back().loc[arg]); break;
      case BUZZVM_INSTR_LSTORE: { Val v = pop(); locals(); if (arg > 100000) throw ref::Ambig{"huge local"}; if (arg >= fr.back().loc.size()) fr.back().loc.resize(arg + 1); fr.back().loc[arg] = v; break; }
      case BUZZVM_INSTR_LREMOVE: locals(); if (arg >= fr.back().loc.size()) throw Stop{BUZZVM_ERROR_LNUM}; fr.back().loc.resize(fr.back().loc.size() - arg); break;
      case BUZZVM_INSTR_JUMP: return go(arg);
      case BUZZVM_INSTR_JUMPZ: case BUZZVM_INSTR_JUMPNZ: { bool t = ref::truthy(pop()); if (t == (op == BUZZVM_INSTR_JUMPNZ)) return go(arg); break; }
    }
    go(next);
  }
};
struct GIns { int op; uint32_t arg; bool label; };
// code with sensible stack use most of the time
static std::vector<uint8_t> genprog(Src& s, size_t maxn, std::string& txt) {
  static const char* pool[] = {"a", "b", "key", "", "long string with blanks", "g5"}; size_t ns = 2 + s.draw(5); std::vector<GIns> p; p.push_back({BUZZVM_INSTR_NOP, 0, false});
  auto A = [&](int op, uint32_t a = 0, bool l = false) { p.push_back({op, a, l}); }; uint32_t lid = log_id();
  size_t nseg = 1 + s.draw(4); std::vector<size_t> seg; size_t n = 4 + s.len(maxn); std::vector<size_t> patchseg; bool wild = s.chance(1, 3);
  for (size_t g = 0; g < nseg; ++g) { seg.push_back(p.size()); int d = 0; size_t nl = g ? 2 : 0; size_t m = g == 0 ? n : 2 + s.len(std::max<size_t>(4, maxn / 3));
    auto push = [&]() { switch (s.draw(9)) { case 0: A(BUZZVM_INSTR_PUSHNIL); break; case 1: case 2: A(BUZZVM_INSTR_PUSHI, (uint32_t)s.pickl<int32_t>({0, 1, 2, 3, -1, 7, 31, 100, -50, INT32_MAX, INT32_MIN})); break; case 3: { float f = s.pickl<float>({0.f, 1.f, 1.5f, -2.5f, 3.f, 1e10f, -0.f}); uint32_t u; memcpy(&u, &f, 4); A(BUZZVM_INSTR_PUSHF, u); break; }
      case 4: A(BUZZVM_INSTR_PUSHS, s.draw(ns)); break; case 5: A(BUZZVM_INSTR_PUSHT); break; case 6: A(BUZZVM_INSTR_PUSHCN, 1000000 + s.draw(nseg)); break; case 7: if (nl) { A(BUZZVM_INSTR_LLOAD, s.draw(nl + 1)); break; } /* fall */ default: A(s.flip() ? BUZZVM_INSTR_PUSHL : BUZZVM_INSTR_PUSHCC, p.back().op == BUZZVM_INSTR_PUSHL ? lid : 0); if (p.back().op == BUZZVM_INSTR_PUSHL) p.back().arg = 1000000 + s.draw(nseg); else p.back().arg = s.chance(1, 12) ? 70000 : lid; } ++d; };
    auto num = [&]() { if (s.chance(1, 8)) { push(); return; } if (s.flip()) A(BUZZVM_INSTR_PUSHI, (uint32_t)(int32_t)s.range(-9, 40)); else { float f = (float)s.range(-20, 40) / 4; uint32_t u; memcpy(&u, &f, 4); A(BUZZVM_INSTR_PUSHF, u); } ++d; };
    for (size_t i = 0; i < m; ++i) switch (s.draw(wild ? 17 : 14)) {
      case 0: push(); break;
      case 1: num(); num(); A(BUZZVM_INSTR_ADD + (int)s.draw(6)); --d; break;
      case 2: num(); if (s.chance(2, 3)) { num(); A(BUZZVM_INSTR_EQ + (int)s.draw(6)); --d; } else { push(); A(s.flip() ? BUZZVM_INSTR_EQ : BUZZVM_INSTR_NEQ); --d; } break;
      case 3: A(BUZZVM_INSTR_PUSHI, s.draw(64)); A(BUZZVM_INSTR_PUSHI, s.draw(8)); A(s.pickl<int>({BUZZVM_INSTR_BAND, BUZZVM_INSTR_BOR, BUZZVM_INSTR_LSHIFT, BUZZVM_INSTR_RSHIFT})); ++d; break;
      case 4: if (d >= 2) { A(s.flip() ? BUZZVM_INSTR_LAND : BUZZVM_INSTR_LOR); --d; } else { push(); A(BUZZVM_INSTR_LNOT); } break;
      case 5: num(); A(s.chance(1, 3) ? BUZZVM_INSTR_BNOT : BUZZVM_INSTR_UNM); break;
      case 6: A(BUZZVM_INSTR_PUSHS, s.draw(ns)); push(); A(BUZZVM_INSTR_GSTORE); --d; break;
      case 7: A(BUZZVM_INSTR_PUSHS, s.draw(ns)); A(BUZZVM_INSTR_GLOAD); ++d; break;
      case 8: { A(BUZZVM_INSTR_PUSHT); size_t k = 1 + s.draw(3); for (size_t j = 0; j < k; ++j) { A(BUZZVM_INSTR_DUP); if (s.flip()) A(BUZZVM_INSTR_PUSHS, s.draw(ns)); else { num(); --d; } push(); --d; A(BUZZVM_INSTR_TPUT); } if (s.flip()) { if (s.flip()) A(BUZZVM_INSTR_PUSHS, s.draw(ns)); else { num(); --d; } A(BUZZVM_INSTR_TGET); } ++d; break; }
      case 9: if (d > 0) { if (s.flip()) { A(BUZZVM_INSTR_DUP); ++d; } else { A(BUZZVM_INSTR_POP); --d; } } else push(); break;
      case 10: { push(); size_t x = s.draw(4); A(BUZZVM_INSTR_LSTORE, nl + (x ? 1 : s.draw(4))); --d; ++nl; if (s.chance(1, 4)) { A(BUZZVM_INSTR_LREMOVE, 1 + s.draw(2)); if (nl) --nl; } break; }
      case 11: { A(BUZZVM_INSTR_PUSHNIL); bool c = s.flip(); size_t k = c ? s.draw(4) : 2; if (c) A(BUZZVM_INSTR_PUSHCC, lid); else if (s.chance(1, 3)) A(BUZZVM_INSTR_PUSHL, 1000000 + s.draw(nseg)); else { size_t how = s.draw(3); if (how == 0) A(BUZZVM_INSTR_PUSHCN, 1000000 + s.draw(nseg)); else if (how == 1) { A(BUZZVM_INSTR_PUSHS, s.draw(ns)); A(BUZZVM_INSTR_GLOAD); } else { A(BUZZVM_INSTR_PUSHT); A(BUZZVM_INSTR_DUP); A(BUZZVM_INSTR_PUSHI, 1); A(BUZZVM_INSTR_PUSHCN, 1000000 + s.draw(nseg)); A(BUZZVM_INSTR_TPUT); A(BUZZVM_INSTR_PUSHI, 1); A(BUZZVM_INSTR_TGET); } }
        for (size_t j = 0; j < k; ++j) { push(); --d; } A(BUZZVM_INSTR_PUSHI, (uint32_t)k); A(s.chance(1, 6) ? BUZZVM_INSTR_CALLS : BUZZVM_INSTR_CALLC); ++d; break; }
      case 12: if (d > 0 && s.chance(2, 3)) { A(s.flip() ? BUZZVM_INSTR_JUMPZ : BUZZVM_INSTR_JUMPNZ, 2000000 + (uint32_t)s.draw(12), true); --d; } else A(BUZZVM_INSTR_JUMP, 2000000 + (uint32_t)s.draw(5), true); break;
      case 13: if (d > 0) { A(BUZZVM_INSTR_PUSHNIL); A(BUZZVM_INSTR_PUSHCC, lid); for (size_t j = 0; j < 2; ++j) { num(); --d; } A(BUZZVM_INSTR_PUSHI, 2); A(BUZZVM_INSTR_CALLC); A(BUZZVM_INSTR_POP); } break;
      case 14: A((int)s.draw(BUZZVM_INSTR_PUSHF)); break;
      case 15: A(BUZZVM_INSTR_PUSHF + (int)s.draw(BUZZVM_INSTR_COUNT - BUZZVM_INSTR_PUSHF), (uint32_t)s.draw(40)); if (p.back().op == BUZZVM_INSTR_PUSHCC) p.back().arg = lid; break;
      default: switch (s.draw(6)) { case 0: A(BUZZVM_INSTR_PUSHS, 6000 + s.draw(100)); break; case 1: A(BUZZVM_INSTR_JUMP, s.flip() ? 3000000u + (uint32_t)s.draw(3) : 0xfffffff0u); break; case 2: A(BUZZVM_INSTR_PUSHCN, 0x7fffffff); ++d; break; case 3: A(BUZZVM_INSTR_LLOAD, 50 + s.draw(1000)); break; case 4: A(200 + (int)s.draw(50)); break; default: A(BUZZVM_INSTR_PUSHI, (uint32_t)(int32_t)s.range(-3, 6)); A(BUZZVM_INSTR_CALLC); }
    }
    if (g == 0) A(BUZZVM_INSTR_DONE); else { if (s.flip()) { push(); A(BUZZVM_INSTR_RET1); } else A(BUZZVM_INSTR_RET0); } }
  A(BUZZVM_INSTR_NOP);
  std::vector<uint8_t> b(2); uint16_t n16 = (uint16_t)ns; memcpy(b.data(), &n16, 2); for (size_t i = 0; i < ns; ++i) { const char* q = pool[i % 6]; b.insert(b.end(), q, q + strlen(q) + 1); if (i >= 6) break; }
  std::vector<uint32_t> off; uint32_t o = b.size(); for (auto& x : p) { off.push_back(o); o += 1 + 4 * (x.op < BUZZVM_INSTR_COUNT && bc::hasarg(x.op)); }
  for (size_t i = 0; i < p.size(); ++i) { auto& x = p[i]; uint32_t a = x.arg; if (a >= 1000000 && a < 1000100) a = off[seg[a - 1000000]]; else if (a >= 2000000 && a < 2000100) { int64_t t = (int64_t)i + 1 + (int64_t)(a - 2000000) - (a - 2000000 >= 10 ? 14 : 0); if (t < 1) t = 1; if (t >= (int64_t)p.size()) t = p.size() - 1; a = off[t]; } else if (a >= 3000000 && a < 3000100) a = o + (a - 3000000);
    b.push_back((uint8_t)x.op); bool has = x.op < BUZZVM_INSTR_COUNT && bc::hasarg(x.op); if (has) { const uint8_t* q = (const uint8_t*)&a; b.insert(b.end(), q, q + 4); } txt += bz::fmt("%u: %s", off[i], x.op < BUZZVM_INSTR_COUNT ? buzzvm_instr_desc[x.op] : "?") + (has ? bz::fmt(" %d", (int)a) : "") + "\n"; }
  return b;
}
static bc::Code header(const std::vector<uint8_t>& b) { bc::Code k; uint16_t n; memcpy(&n, b.data(), 2); size_t p = 2; for (unsigned i = 0; i < n; ++i) { std::string x = (const char*)&b[p]; k.strings.push_back(x); p += x.size() + 1; } k.start = p; return k; }
static void instructions(Src& s, Ctx& c) {
  std::string txt; std::vector<uint8_t> b = genprog(s, 30, txt); c.note(txt); bc::Code k = header(b); count_blocks(); Model m(b, k); unsigned gc = (unsigned)s.draw(3); size_t steps = 0; std::string why;
  { bz::VM vm(1); if (!vm.load(b)) fail("load: " + vm.err()); ++m.pc; int expect = 0; bool ambig = false;
    while (vm.vm->state == BUZZVM_STATE_READY && steps < 600) {
      if ((uint32_t)vm.vm->pc != m.pc) fail(bz::fmt("the program counter is %d instead of %u after %zu steps", vm.vm->pc, m.pc, steps));
      if (gc && (gc == 1 || steps % 3 == 0)) vm.vm->heap->max_objs = gc == 1 ? 0 : 1; uint32_t at = m.pc; ++steps; buzzvm_step(vm.vm);
      try { m.step(); } catch (Stop& x) { expect = x.code; } catch (ref::Ambig& a) { ambig = true; }
      if (ambig) break; std::string w = bz::fmt("after %s at %u (step %zu): ", b[at] < BUZZVM_INSTR_COUNT ? buzzvm_instr_desc[b[at]] : "an unknown opcode", at, steps);
      if (expect) { if (vm.vm->state != BUZZVM_STATE_ERROR) fail(w + "the machine went on"); if (vm.vm->error != expect) fail(w + bz::fmt("error %d (%s) instead of %d", vm.vm->error, vm.err().c_str(), expect)); if (!vm.vm->errormsg || !*vm.vm->errormsg) fail(w + "no error message"); c.cls(buzzvm_error_desc[expect]); break; }
      if (m.done) { if (vm.vm->state != BUZZVM_STATE_DONE) fail(w + "the machine is not done"); c.cls("done"); break; }
      if (vm.vm->state != BUZZVM_STATE_READY) fail(w + "the machine stopped: " + vm.err());
      if ((size_t)buzzdarray_size(vm.vm->stacks) != m.fr.size()) fail(w + "call depth"); auto& st = m.st(); if ((size_t)buzzvm_stack_top(vm.vm) != st.size()) fail(w + bz::fmt("the stack holds %d values instead of %zu", (int)buzzvm_stack_top(vm.vm), st.size()));
      for (size_t i = 1; i <= st.size() && i <= 4; ++i) { ref::DumpR d; std::string e = d.dump(st[st.size() - i]), g = bz::dump(buzzvm_stack_at(vm.vm, (int)i)); if (e != g) fail(w + bz::fmt("stack value #%zu is ", i) + g + " instead of " + e); }
      size_t nl = m.fr.back().haslocals ? m.fr.back().loc.size() : 0; size_t rl = vm.vm->lsyms ? buzzdarray_size(vm.vm->lsyms->syms) : 0; if (nl != rl && !(nl <= 1 && rl <= 1)) fail(w + bz::fmt("%zu local symbols instead of %zu", rl, nl)); for (size_t i = 0; i < nl && i < rl; ++i) { ref::DumpR d; std::string e = d.dump(m.fr.back().loc[i]), g = bz::dump(buzzdarray_get(vm.vm->lsyms->syms, i, buzzobj_t)); if (e != g) fail(w + bz::fmt("local %zu is ", i) + g + " instead of " + e); }
    }
    if (!ambig) { if (vm.trace != m.in.trace) fail(bz::trace_diff(m.in.trace, vm.trace)); for (auto& g : m.globals) { uint16_t sid = buzzvm_string_register(vm.vm, g.first.c_str(), 0); const buzzobj_t* o = buzzdict_get(vm.vm->gsyms, &sid, buzzobj_t); ref::DumpR d; if (!o) fail("global " + g.first + " is missing"); if (bz::dump(*o) != d.dump(g.second)) fail("global " + g.first + " is " + bz::dump(*o)); } }
    if (ambig) c.cls("open"); }
  c.nontrivial = steps > 12; c.cls("calls", m.calls); c.cls("depth", m.maxdepth);
}
// bytecode damaged in any way never harms the host
static void damaged(Src& s, Ctx& c) {
  std::string txt; std::vector<uint8_t> b; bool random = s.chance(1, 6); if (random) { size_t n = s.len(120); for (size_t i = 0; i < n; ++i) b.push_back(s.chance(2, 3) ? (uint8_t)s.draw(BUZZVM_INSTR_COUNT + 2) : (uint8_t)s.draw(256)); } else { b = genprog(s, 30, txt); size_t nm = s.len(8); for (size_t i = 0; i < nm && !b.empty(); ++i) { size_t at = s.draw(b.size()); switch (s.draw(6)) { case 0: b[at] = (uint8_t)s.draw(256); break; case 1: b[at] ^= (uint8_t)(1 << s.draw(8)); break; case 2: b.resize(at); break; case 3: b.insert(b.begin() + at, (uint8_t)s.draw(BUZZVM_INSTR_COUNT)); break; case 4: b.erase(b.begin() + at); break; default: { size_t e = std::min(b.size(), at + 1 + s.draw(8)); std::vector<uint8_t> cut(b.begin() + at, b.begin() + e); size_t to = s.draw(b.size()); b.insert(b.begin() + to, cut.begin(), cut.end()); } } } }
  uint32_t lid = log_id(); for (size_t i = 0; i + 5 <= b.size(); ++i) { uint32_t a; memcpy(&a, &b[i + 1], 4); if (b[i] == BUZZVM_INSTR_PUSHCC && a < lid) memcpy(&b[i + 1], &lid, 4); else if (b[i] == BUZZVM_INSTR_LSTORE && a > 0xffff) b[i + 3] = b[i + 4] = 0; }
  { std::string h; for (auto x : b) h += bz::fmt("%02x", x); c.note(h); }
  // loops at load time are the script's own; leave them out: nothing before the first nop may jump or call
  { uint16_t n = 0; if (b.size() >= 2) memcpy(&n, b.data(), 2); size_t p = 2; for (unsigned i = 0; i < n && p < b.size(); ++i) { while (p < b.size() && b[p]) ++p; ++p; } while (p < b.size() && b[p] != BUZZVM_INSTR_NOP) { uint8_t op = b[p]; if (op == BUZZVM_INSTR_JUMP || op == BUZZVM_INSTR_JUMPZ || op == BUZZVM_INSTR_JUMPNZ || op == BUZZVM_INSTR_CALLC || op == BUZZVM_INSTR_CALLS) { c.cls("loop-at-load"); throw Discard(); } p += 1 + 4 * (op < BUZZVM_INSTR_COUNT && bc::hasarg(op)); } }
  count_blocks(); { bz::VM warm(1); } std::vector<uint8_t> exact(b); exact.shrink_to_fit(); size_t steps = 0, hostcalls = 0; bool gc = s.flip(); int64_t before = g_live;
  buzzvm_t vm = buzzvm_new(1); buzzvm_set_bcode(vm, exact.data(), exact.size());
  if (vm->state == BUZZVM_STATE_READY) { buzzvm_pushs(vm, buzzvm_string_register(vm, "log", 1)); buzzvm_pushcc(vm, buzzvm_function_register(vm, bz::hook_log)); buzzvm_gstore(vm); auto go = [&] { while (vm->state == BUZZVM_STATE_READY && steps < 700) { if (gc) vm->heap->max_objs = 0; buzzvm_step(vm); ++steps; } }; go();
    if (vm->state == BUZZVM_STATE_DONE) for (const char* g : {"a", "b"}) { vm->state = BUZZVM_STATE_READY; buzzvm_pushnil(vm); buzzvm_pushs(vm, buzzvm_string_register(vm, g, 0)); buzzvm_gload(vm); if (buzzvm_stack_at(vm, 1)->o.type != BUZZTYPE_CLOSURE) continue; buzzvm_pushi(vm, 0); buzzvm_callc(vm); ++hostcalls; go(); } }
  int st = vm->state, er = vm->error; bool msg = vm->errormsg && *vm->errormsg; buzzvm_destroy(&vm); int64_t after = g_live; if (st == BUZZVM_STATE_ERROR) { if (!msg) fail("no error message"); c.cls(buzzvm_error_desc[er]); } else c.cls(st == BUZZVM_STATE_DONE ? "done" : "running"); c.cls("host-call", hostcalls); if (after != before) fail(bz::fmt("%lld heap blocks are left after the machine is destroyed", (long long)(after - before)));
  c.nontrivial = steps > 5;
}
int main(int argc, char** argv) { return run(argc, argv, "P27", {{"instructions", instructions, 50000, 1500000}, {"damaged", damaged, 40000, 1500000}}); }
