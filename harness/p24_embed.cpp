// The C API: what hosts and scripts hand to each other, nested calls, errors, isolation of machines.
#include "lang.hpp"
#include "net.hpp"
using namespace ref; using namespace pbt;
// values as the host sees them
struct HV { int t = 0; int32_t i = 0; float f = 0; std::string s; std::vector<std::pair<HV, HV>> kv; void* u = nullptr; };   // 0 nil 1 int 2 float 3 string 4 table 5 userdata
static HV hi(int32_t x) { HV v; v.t = 1; v.i = x; return v; }
static HV hs(const std::string& x) { HV v; v.t = 3; v.s = x; return v; }
static int g_obj[4];
static std::string str(const HV& v) { switch (v.t) { case 0: return "nil"; case 1: return "i:" + bz::S(v.i); case 2: return bz::fl(v.f); case 3: return "s:" + bz::qs(v.s); case 5: return bz::fmt("u:%p", v.u); } std::vector<std::string> it; for (auto& p : v.kv) if (p.second.t) it.push_back(str(p.first) + "=" + str(p.second)); std::sort(it.begin(), it.end()); std::string r = "t{"; for (auto& x : it) r += x + ","; return r + "}"; }
static std::string str(buzzobj_t o) {
  if (buzzobj_isnil(o)) return "nil"; if (buzzobj_isint(o)) return "i:" + bz::S(buzzobj_getint(o)); if (buzzobj_isfloat(o)) return bz::fl(buzzobj_getfloat(o)); if (buzzobj_isstring(o)) return "s:" + bz::qs(buzzobj_getstring(o)); if (buzzobj_isuserdata(o)) return bz::fmt("u:%p", buzzobj_getuserdata(o)); if (buzzobj_isclosure(o)) return "closure"; if (!buzzobj_istable(o)) return "?";
  std::vector<std::string> it; buzzdict_foreach(o->t.value, [](const void* k, void* d, void* p) { ((std::vector<std::string>*)p)->push_back(str(*(buzzobj_t*)k) + "=" + str(*(buzzobj_t*)d)); }, &it); std::sort(it.begin(), it.end()); std::string r = "t{"; for (auto& x : it) r += x + ","; return r + "}";
}
static void push(buzzvm_t vm, const HV& v) {
  switch (v.t) { case 0: buzzvm_pushnil(vm); break; case 1: buzzvm_pushi(vm, v.i); break; case 2: buzzvm_pushf(vm, v.f); break; case 3: buzzvm_pushs(vm, buzzvm_string_register(vm, v.s.c_str(), 0)); break; case 5: buzzvm_pushu(vm, v.u); break;
    default: buzzvm_pusht(vm); for (auto& p : v.kv) { buzzvm_dup(vm); push(vm, p.first); push(vm, p.second); buzzvm_tput(vm); } }
}
static HV gen(Src& s, int depth = 0) {
  HV v; switch (s.draw(depth > 2 ? 5 : 7)) { case 0: break; case 1: v = hi((int32_t)s.pickl<int64_t>({s.range(-5, 20), s.range(-5, 20), INT32_MAX, INT32_MIN})); break; case 2: v.t = 2; v.f = (float)s.range(-40, 40) / 8; break; case 3: v = hs(s.pickl<const char*>({"", "a", "text", "a longer string with blanks", "k"})); if (s.chance(1, 3)) v.s += bz::S(s.draw(1000)); break; case 4: v.t = 5; v.u = &g_obj[s.draw(4)]; break;
    default: { v.t = 4; size_t n = s.draw(4); for (size_t i = 0; i < n; ++i) v.kv.push_back({s.flip() ? hi((int32_t)i) : hs("f" + bz::S(i)), gen(s, depth + 1)}); } } return v; }
static bz::Trace* T(buzzvm_t vm) { return bz::sinks()[vm]; }
// ---- C functions registered by the host
static int h_args(buzzvm_t vm) { int64_t n = buzzvm_lnum(vm); std::string l = "args"; for (int64_t i = 1; i <= n; ++i) { buzzvm_lload(vm, i); l += " " + str(buzzvm_stack_at(vm, 1)); buzzvm_pop(vm); } T(vm)->push_back(l); buzzvm_pushi(vm, n); return buzzvm_ret1(vm); }
static int h_pair(buzzvm_t vm) { buzzvm_lnum_assert(vm, 2); buzzvm_pusht(vm); for (int i = 1; i <= 2; ++i) { buzzvm_dup(vm); buzzvm_pushi(vm, i); buzzvm_lload(vm, i); buzzvm_tput(vm); } return buzzvm_ret1(vm); }
static int h_call(buzzvm_t vm) { buzzvm_lnum_assert(vm, 2); buzzvm_lload(vm, 1); buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE); buzzvm_lload(vm, 2); if (buzzvm_closure_call(vm, 1) != BUZZVM_STATE_READY) return vm->state; return buzzvm_ret1(vm); }
static int h_ping(buzzvm_t vm) { buzzvm_lnum_assert(vm, 1); T(vm)->push_back("host"); buzzvm_lload(vm, 1); if (buzzvm_function_call(vm, "ping", 1) != BUZZVM_STATE_READY) return vm->state; return buzzvm_ret1(vm); }
static int h_self(buzzvm_t vm) { buzzvm_lload(vm, 0); T(vm)->push_back("self " + str(buzzvm_stack_at(vm, 1))); return buzzvm_ret1(vm); }
static int h_fail(buzzvm_t vm) { buzzvm_lnum_assert(vm, 1); buzzvm_lload(vm, 1); buzzvm_type_assert(vm, 1, BUZZTYPE_INT); buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "host says %d", buzzvm_stack_at(vm, 1)->i.value); return vm->state; }
static int h_nothing(buzzvm_t vm) { return buzzvm_ret0(vm); }
static int h_sum(buzzvm_t vm) { buzzvm_lnum_assert(vm, 2); buzzvm_lload(vm, 1); buzzvm_lload(vm, 2); if (buzzvm_add(vm) != BUZZVM_STATE_READY) return vm->state; return buzzvm_ret1(vm); }
static const char* prelude = R"(
calls = 0
store = {}
function same(a) { calls = calls + 1 return a }
function pair(a, b) { calls = calls + 1 return { .1 = a, .2 = b } }
function first3(a, b, c) { return { .1 = a, .2 = b, .3 = c } }
function noret(a) { calls = calls + 1 last = a }
function three(a, b, c) { calls = calls + 1 return { .1 = c, .2 = b, .3 = a } }
function put(k, v) { calls = calls + 1 store[k] = v }
function get(k) { calls = calls + 1 return store[k] }
function fact(n) { if(n < 2) { return 1 } return n * fact(n - 1) }
function ping(n) { if(n <= 0) { return "end" } return host_ping(n - 1) }
function forward(a, b, c) { calls = calls + 1 return host_args(c, a, b, a) }
function viahost(a) { calls = calls + 1 return host_call(same, a) }
function lambda(a) { var x = a return host_call(function(y) { return host_pair(x, y) }, "arg") }
function method(a) { var t = { .v = a } t.m = host_self return t.m() }
function isdata(a) { return { .1 = isnil(a), .2 = isint(a), .3 = isfloat(a), .4 = isstring(a), .5 = istable(a), .6 = isuserdata(a), .7 = isclosure(a), .8 = type(a) } }
function failing(a) { calls = calls + 1 host_fail(a) calls = calls + 1000 }
function sum(a, b) { return host_sum(a, b) }
function badcount(n) { calls = calls + 0 if(n == 0) { string.length() } if(n == 1) { math.sin(1, 2) } if(n == 2) { host_sum(1) } host_pair() }
function none() { return host_nothing() }
function deep(n) { if(n <= 0) { host_fail("x") } return host_call(deep, n - 1) }
global = 1
)";
static const std::vector<uint8_t>& code() { static std::vector<uint8_t> b; if (b.empty()) { bz::Compiled c; bz::compile(prelude, c); if (!c.assembled) throw std::runtime_error("prelude"); b = c.bcode; } return b; }
static void session(Src& s, Ctx& c) {
  code(); bz::VM vm(7); if (!vm.load(code())) fail("load"); struct R { const char* n; buzzvm_funp f; }; for (auto& r : std::vector<R>{{"host_args", h_args}, {"host_pair", h_pair}, {"host_call", h_call}, {"host_ping", h_ping}, {"host_self", h_self}, {"host_fail", h_fail}, {"host_nothing", h_nothing}, {"host_sum", h_sum}}) vm.hook(r.n, r.f); if (!vm.run()) fail("did not finish"); if (vm.vm->state != BUZZVM_STATE_DONE) fail("prelude: " + vm.err());
  std::map<std::string, HV> glob, store; int calls = 0; bz::Trace want; size_t n = 1 + s.len(16); std::string note; bool dead = false; size_t nested = 0; unsigned gc = (unsigned)s.draw(3); bool popname = s.flip();
  for (size_t q = 0; q < n && !dead; ++q) {
    if (gc && (gc == 1 || s.flip())) vm.vm->heap->max_objs = gc == 1 ? 0 : 1; int64_t depth = buzzvm_stack_top(vm.vm), stacks = buzzdarray_size(vm.vm->stacks);
    auto call = [&](const char* f, const std::vector<HV>& a) { note = std::string("call ") + f; for (auto& x : a) note += " " + str(x); c.note(note); for (auto& x : a) push(vm.vm, x); buzzvm_state r; if (popname) { r = buzzvm_function_call(vm.vm, f, a.size()); } else { if (vm.vm->state == BUZZVM_STATE_DONE) vm.vm->state = BUZZVM_STATE_READY; buzzvm_pushs(vm.vm, buzzvm_string_register(vm.vm, f, 0)); buzzvm_gload(vm.vm); buzzobj_t fo = buzzvm_stack_at(vm.vm, 1); buzzvm_pop(vm.vm); buzzdarray_insert(vm.vm->stack, buzzdarray_size(vm.vm->stack) - a.size(), &fo); r = buzzvm_closure_call(vm.vm, a.size()); } if (r != vm.vm->state) fail("the result of the call is not the state of the machine"); };
    auto result = [&](const std::string& e) { if (vm.vm->state != BUZZVM_STATE_READY) fail(note + ": the machine stopped: " + vm.err()); if (buzzvm_stack_top(vm.vm) != depth + 1) fail(note + bz::fmt(": leaves %d values on the stack instead of 1", (int)(buzzvm_stack_top(vm.vm) - depth))); if (buzzdarray_size(vm.vm->stacks) != stacks) fail(note + ": leaves another stack"); std::string g = str(buzzvm_stack_at(vm.vm, 1)); if (g != e) fail(note + " returns " + g + " instead of " + e); buzzvm_pop(vm.vm); };
    HV a = gen(s), b = gen(s), d = gen(s); auto tab = [](std::vector<HV> v) { HV t; t.t = 4; for (size_t i = 0; i < v.size(); ++i) t.kv.push_back({hi((int32_t)i + 1), v[i]}); return t; };
    if (s.chance(1, 10)) { // any number of arguments, to a C function and to a script function
      size_t k = s.flip() ? s.draw(12) : s.draw(300); std::vector<HV> v; std::string e = "args"; for (size_t i = 0; i < k; ++i) { v.push_back(s.chance(1, 4) ? gen(s) : hi((int32_t)i)); e += " " + str(v.back()); }
      if (s.chance(1, 3) && k > 3) { call("first3", v); result(str(tab({v[0], v[1], v[2]}))); } else { call("host_args", v); want.push_back(e); result("i:" + bz::S(k)); } if (vm.trace != want) fail(note + ": " + bz::trace_diff(want, vm.trace)); continue; }
    switch (s.draw(20)) {
      case 0: call("same", {a}); ++calls; result(str(a)); break;
      case 1: call("pair", {a, b}); ++calls; result(str(tab({a, b}))); break;
      case 2: call("noret", {a}); ++calls; glob["last"] = a; result("nil"); break;
      case 3: call("three", {a, b, d}); ++calls; result(str(tab({d, b, a}))); break;
      case 4: { std::string k = "k" + bz::S(s.draw(4)); call("put", {hs(k), a}); ++calls; store[k] = a; result("nil"); break; }
      case 5: { std::string k = "k" + bz::S(s.draw(4)); call("get", {hs(k)}); ++calls; result(str(store[k])); break; }
      case 6: { int k = (int)s.draw(11); int32_t f = 1; for (int i = 2; i <= k; ++i) f *= i; call("fact", {hi(k)}); result("i:" + bz::S(f)); break; }
      case 7: { int k = (int)s.draw(9); call("ping", {hi(k)}); for (int i = 0; i < k; ++i) want.push_back("host"); result("s:'end'"); nested += k; break; }
      case 8: call("forward", {a, b, d}); ++calls; want.push_back("args " + str(d) + " " + str(a) + " " + str(b) + " " + str(a)); result("i:4"); ++nested; break;
      case 9: call("viahost", {a}); calls += 2; result(str(a)); ++nested; break;
      case 10: call("lambda", {a}); result(str(tab({a, hs("arg")}))); ++nested; break;
      case 11: { call("method", {a}); if (vm.vm->state != BUZZVM_STATE_READY) fail("method: " + vm.err()); buzzobj_t o = buzzvm_stack_at(vm.vm, 1); if (!buzzobj_istable(o)) fail("self is not the table of the method"); HV t; t.t = 4; t.kv.push_back({hs("v"), a}); std::string e = str(t); e.insert(2, "s:'m'=closure,"); if (str(o) != e) fail("self is " + str(o) + " instead of " + e); want.push_back("self " + e); buzzvm_pop(vm.vm); if (buzzvm_stack_top(vm.vm) != depth) fail("method leaves values on the stack"); break; }
      case 12: { static const char* ty[] = {"nil", "integer", "float", "string", "table", "userdata"}; call("isdata", {a}); result(str(tab({hi(a.t == 0), hi(a.t == 1), hi(a.t == 2), hi(a.t == 3), hi(a.t == 4), hi(a.t == 5), hi(0), hs(ty[a.t])}))); break; }
      case 13: { std::string k = "g" + bz::S(s.draw(4)); c.note("global " + k + " = " + str(a)); buzzvm_pushs(vm.vm, buzzvm_string_register(vm.vm, k.c_str(), 1)); push(vm.vm, a); buzzvm_gstore(vm.vm); glob[k] = a; if (buzzvm_stack_top(vm.vm) != depth) fail("storing a global symbol changes the stack depth"); break; }
      case 14: { std::string k = s.chance(1, 4) ? "last" : "g" + bz::S(s.draw(4)); note = "global " + k; buzzvm_pushs(vm.vm, buzzvm_string_register(vm.vm, k.c_str(), 1)); buzzvm_gload(vm.vm); vm.vm->state = BUZZVM_STATE_READY; result(str(glob[k])); break; }
      case 15: call("none", {}); result("nil"); break;
      case 16: { HV x = hi((int32_t)s.range(-9, 9)), y = hi((int32_t)s.range(-9, 9)); call("sum", {x, y}); result("i:" + bz::S(x.i + y.i)); break; }
      case 17: { note = "host table"; push(vm.vm, a.t == 4 ? a : tab({a, b})); HV t = a.t == 4 ? a : tab({a, b}); for (auto& p : t.kv) { buzzvm_dup(vm.vm); push(vm.vm, p.first); if (buzzvm_tget(vm.vm) != BUZZVM_STATE_READY) fail("tget: " + vm.err()); if (str(buzzvm_stack_at(vm.vm, 1)) != str(p.second)) fail("tget returns " + str(buzzvm_stack_at(vm.vm, 1)) + " instead of " + str(p.second)); buzzvm_pop(vm.vm); } vm.vm->state = BUZZVM_STATE_READY; result(str(t)); break; }
      case 18: { // errors
        if (s.chance(2, 3)) break; dead = true; std::string msg; int code = 0; int before = calls; (void)before; switch (s.draw(8)) {
          case 6: { size_t k = s.draw(6); if (k == 1) k = 0; std::vector<HV> v; for (size_t i = 0; i < k; ++i) v.push_back(gen(s)); c.note("host_fail with " + bz::S(k)); buzzvm_pushs(vm.vm, buzzvm_string_register(vm.vm, "host_fail", 1)); buzzvm_gload(vm.vm); for (auto& x : v) push(vm.vm, x); vm.vm->state = BUZZVM_STATE_READY; buzzvm_closure_call(vm.vm, k); code = BUZZVM_ERROR_LNUM; break; }
          case 7: { call("badcount", {hi((int32_t)s.draw(4))}); code = BUZZVM_ERROR_LNUM; break; }
          case 0: { HV x = hi((int32_t)s.range(-99, 99)); call("failing", {x}); ++calls; msg = "host says " + bz::S(x.i); code = BUZZVM_ERROR_TYPE; break; }
          case 1: call("failing", {hs("text")}); ++calls; msg = "int"; code = BUZZVM_ERROR_TYPE; break;
          case 2: c.note("unknown function"); buzzvm_function_call(vm.vm, "no_such_function", 0); msg = "no_such_function"; code = BUZZVM_ERROR_TYPE; break;
          case 3: c.note("not a function"); buzzvm_function_call(vm.vm, "global", 0); msg = "closure"; code = BUZZVM_ERROR_TYPE; break;
          case 4: call("deep", {hi((int32_t)s.draw(6))}); code = BUZZVM_ERROR_TYPE; ++nested; break;
          default: { HV x = hs("a"); call("sum", {x, hi(1)}); code = BUZZVM_ERROR_TYPE; } }
        if (vm.vm->state != BUZZVM_STATE_ERROR) fail("the machine is not in the error state"); if (vm.vm->error != code) fail(bz::fmt("error %d instead of %d: ", vm.vm->error, code) + vm.err()); std::string em = buzzvm_strerror(vm.vm) ? buzzvm_strerror(vm.vm) : ""; if (em.find(msg) == std::string::npos || em.empty()) fail("the error message does not tell '" + msg + "': " + em); size_t tl = vm.trace.size(); c.cls("error");
        // the machine stays stopped whatever the host tries
        for (size_t i = 0, k = 1 + s.draw(5); i < k; ++i) { int w = (int)s.draw(5); c.note("after the error: " + bz::S(w)); switch (w) { case 0: push(vm.vm, hi(3)); buzzvm_function_call(vm.vm, "same", 1); break; case 1: buzzvm_function_call(vm.vm, "none", 0); break; case 2: buzzvm_step(vm.vm); break; case 3: push(vm.vm, a); push(vm.vm, b); push(vm.vm, d); buzzvm_function_call(vm.vm, "forward", 3); break; default: buzzvm_execute_script(vm.vm); } if (vm.vm->state != BUZZVM_STATE_ERROR || vm.trace.size() != tl) fail("a machine in the error state goes on"); if (vm.vm->error != code || em != (buzzvm_strerror(vm.vm) ? buzzvm_strerror(vm.vm) : "")) fail("the error of a stopped machine changes to " + std::string(buzzvm_strerror(vm.vm) ? buzzvm_strerror(vm.vm) : "nothing")); }
        break; }
      default: { // a C function called by the host
        buzzvm_pushs(vm.vm, buzzvm_string_register(vm.vm, "host_pair", 1)); buzzvm_gload(vm.vm); push(vm.vm, a); push(vm.vm, b); vm.vm->state = BUZZVM_STATE_READY; note = "host_pair"; buzzvm_closure_call(vm.vm, 2); result(str(tab({a, b}))); }
    }
    if (vm.trace != want) fail(bz::trace_diff(want, vm.trace));
  }
  uint16_t sid = buzzvm_string_register(vm.vm, "calls", 1); const buzzobj_t* o = buzzdict_get(vm.vm->gsyms, &sid, buzzobj_t); if (!o || str(*o) != "i:" + bz::S(calls)) fail("calls made: " + (o ? str(*o) : std::string("?")) + " instead of " + bz::S(calls)); c.nontrivial = n > 5; c.cls("nested", nested);
}
// host functions registered in several machines, in any order, under any names, with the machines made and removed at any time
template <int N> static int hk(buzzvm_t vm) { int64_t n = buzzvm_lnum(vm); int32_t x = -1; if (n > 0) { buzzvm_lload(vm, 1); if (buzzobj_isint(buzzvm_stack_at(vm, 1))) x = buzzobj_getint(buzzvm_stack_at(vm, 1)); buzzvm_pop(vm); } T(vm)->push_back(bz::fmt("f%d of robot %u with %d", N, vm->robot, x)); buzzvm_pushi(vm, N * 1000 + x); return buzzvm_ret1(vm); }
static void hooks(Src& s, Ctx& c) {
  static const buzzvm_funp F[] = {hk<0>, hk<1>, hk<2>, hk<3>, hk<4>, hk<5>, hk<6>, hk<7>}; static std::vector<uint8_t> bco; if (bco.empty()) { bz::Compiled k; bz::compile("function u0(x) { return h0(x) }\nfunction u1(x) { return h1(x) }\nfunction u2(x) { return h2(x) }\nfunction u3(x) { return h3(x) }\nfunction u4(x) { return h4(x) }\nt = {}\nfunction keep(f) { t.f = f }\nfunction kept(x) { return t.f(x) }\n", k); bco = k.bcode; }
  struct M { std::unique_ptr<bz::VM> v; std::map<int, int> at; int kept = -1; bz::Trace want; uint16_t id = 0; }; std::vector<M> ms; uint16_t next = 1; size_t n = 5 + s.len(40), calls = 0;
  for (size_t q = 0; q < n; ++q) { int op = (int)s.draw(10); if (ms.empty() || op == 0) { if (ms.size() < 4) { ms.emplace_back(); M& m = ms.back(); m.id = next; m.v.reset(new bz::VM(next++)); if (!m.v->load(bco) || !m.v->run()) fail("load"); m.v->vm->state = BUZZVM_STATE_READY; c.note("new robot " + bz::S(m.id)); } continue; }
    size_t i = s.draw(ms.size()); M& m = ms[i]; buzzvm_t vm = m.v->vm; if (s.chance(1, 6)) vm->heap->max_objs = 1;
    auto res = [&](const std::string& what, int f, int x) { ++calls; if (vm->state != BUZZVM_STATE_READY) fail(what + ": " + m.v->err()); m.want.push_back(bz::fmt("f%d of robot %u with %d", f, m.id, x)); if (m.v->trace != m.want) fail(what + ": " + bz::trace_diff(m.want, m.v->trace)); std::string g = str(buzzvm_stack_at(vm, 1)); if (g != "i:" + bz::S(f * 1000 + x)) fail(what + " returns " + g); buzzvm_pop(vm); };
    if (op <= 4) { int h = (int)s.draw(5), f = (int)s.draw(8); c.note(bz::fmt("robot %u: h%d is f%d", m.id, h, f)); uint32_t k1 = buzzvm_function_register(vm, F[f]); if (s.chance(1, 4) && buzzvm_function_register(vm, F[f]) != k1) fail("one function has two numbers"); buzzvm_pushs(vm, buzzvm_string_register(vm, ("h" + bz::S(h)).c_str(), s.flip())); buzzvm_pushcc(vm, k1); buzzvm_gstore(vm); m.at[h] = f; }
    else if (op <= 7) { if (m.at.empty()) continue; auto it = m.at.begin(); std::advance(it, s.draw(m.at.size())); int x = (int)s.draw(100); bool direct = s.flip(); std::string what = bz::fmt("robot %u calls h%d", m.id, it->first); c.note(what); buzzvm_pushi(vm, x); buzzvm_function_call(vm, ((direct ? "h" : "u") + bz::S(it->first)).c_str(), 1); res(what, it->second, x); }
    else if (op == 8) { int f = (int)s.draw(8); c.note(bz::fmt("robot %u keeps f%d", m.id, f)); buzzvm_pushcc(vm, buzzvm_function_register(vm, F[f])); buzzvm_function_call(vm, "keep", 1); if (vm->state != BUZZVM_STATE_READY) fail("keep: " + m.v->err()); buzzvm_pop(vm); m.kept = f; if (s.flip()) { int x = (int)s.draw(50); buzzvm_pushi(vm, x); buzzvm_function_call(vm, "kept", 1); res("kept function", f, x); } }
    else if (s.flip()) { c.note("robot " + bz::S(m.id) + " is removed"); ms.erase(ms.begin() + i); } }
  for (auto& m : ms) for (auto& h : m.at) { buzzvm_t vm = m.v->vm; buzzvm_pushi(vm, 1); buzzvm_function_call(vm, ("u" + bz::S(h.first)).c_str(), 1); std::string what = bz::fmt("robot %u calls h%d", m.id, h.first); if (vm->state != BUZZVM_STATE_READY) fail(what + ": " + m.v->err()); m.want.push_back(bz::fmt("f%d of robot %u with 1", h.second, m.id)); if (m.v->trace != m.want) fail(what + ": " + bz::trace_diff(m.want, m.v->trace)); buzzvm_pop(vm); ++calls; }
  c.nontrivial = calls > 3; c.cls("calls", calls);
}
// machines of one process do not see one another
static void isolation(Src& s, Ctx& c) {
  size_t nv = 2 + s.draw(3); std::vector<std::unique_ptr<bz::Compiled>> cs; std::vector<std::string> src; bool samecode = s.chance(1, 3);
  for (size_t i = 0; i < nv; ++i) { if (i && samecode) { cs.emplace_back(new bz::Compiled); cs[i]->bcode = cs[0]->bcode; continue; } Gen g(s); g.budget = 10 + (int)s.draw(20); Block p = g.program(2 + (int)s.draw(5), (int)s.draw(2)); { Interp in; if (in.run(p) == 2) throw Discard(); } Printer pr; std::string t = pr.program(p); t += "\nmath.rng.setseed(" + bz::S(s.draw(1000)) + ")\nvs = stigmergy.create(" + bz::S(s.draw(3)) + ")\nneighbors.listen(\"t\", function(vid, v, r) { log(v) })\nsw = swarm.create(" + bz::S(s.draw(3)) + ")\nfor(i = 0, i < " + bz::S(2 + s.draw(8)) + ", i = i + 1) {\n log(math.rng.uniform(1000))\n vs.put(i, string.concat(\"v\", string.tostring(i)))\n log(vs.get(i), vs.size())\n neighbors.broadcast(\"t\", i)\n sw.join()\n log(sw.in(), id)\n}\n"; cs.emplace_back(new bz::Compiled); bz::compile(t, *cs[i]); if (!cs[i]->assembled) fail("rejected: " + t); c.note(t); }
  auto prep = [&](bz::VM& v, size_t i) { if (!v.load(cs[i]->bcode)) fail("load"); }; auto drain = [&](bz::VM& v) { std::string r; buzzvm_process_outmsgs(v.vm); size_t g = 0; while (buzzoutmsg_queue_size(v.vm) > 0 && ++g < 300) { buzzmsg_payload_t m = buzzoutmsg_queue_first(v.vm); r += net::hex(net::bytes(m)) + "\n"; buzzmsg_payload_destroy(&m); buzzoutmsg_queue_next(v.vm); } return r; };
  std::vector<bz::Trace> alone; std::vector<std::string> out, err; for (size_t i = 0; i < nv; ++i) { bz::VM v((uint16_t)(i + 1)); prep(v, i); if (!v.run(100000)) throw Discard(); alone.push_back(v.trace); err.push_back(v.vm->errormsg ? v.vm->errormsg : ""); out.push_back(v.vm->state == BUZZVM_STATE_DONE ? drain(v) : ""); }
  std::vector<std::unique_ptr<bz::VM>> vs2(nv); size_t live = 0, switches = 0; std::vector<bool> done(nv, false);
  while (live < nv) { size_t i = s.draw(nv); if (done[i]) { size_t k = i; for (size_t j = 0; j < nv; ++j) if (!done[(k + j) % nv]) { i = (k + j) % nv; break; } } if (!vs2[i]) { vs2[i].reset(new bz::VM((uint16_t)(i + 1))); prep(*vs2[i], i); } size_t m = switches > 300 ? 100000 : 1 + s.len(400); ++switches; while (m-- && vs2[i]->vm->state == BUZZVM_STATE_READY) buzzvm_step(vs2[i]->vm);
    if (vs2[i]->vm->state != BUZZVM_STATE_READY) { done[i] = true; ++live; if (vs2[i]->trace != alone[i]) fail("robot " + bz::S(i + 1) + " next to others: " + bz::trace_diff(alone[i], vs2[i]->trace)); if (err[i] != (vs2[i]->vm->errormsg ? vs2[i]->vm->errormsg : "")) fail("robot " + bz::S(i + 1) + " next to others: another error"); if (vs2[i]->vm->state == BUZZVM_STATE_DONE && drain(*vs2[i]) != out[i]) fail("robot " + bz::S(i + 1) + " next to others sends other messages"); if (s.flip()) vs2[i]->destroy(); } }
  c.nontrivial = switches > nv; c.cls("switches", switches);
}
int main(int argc, char** argv) { return run(argc, argv, "P24", {{"session", session, 25000, 300000}, {"hooks", hooks, 8000, 150000}, {"isolation", isolation, 4000, 60000}}); }
