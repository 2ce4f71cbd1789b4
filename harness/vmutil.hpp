// Helpers around the public Buzz API used by every harness.
#pragma once
#include "pbt.hpp"
#include <buzz/buzzvm.h>
#include <buzz/buzzasm.h>
#include <buzz/buzzdebug.h>
#include <buzz/buzzparser.h>
#include <memory>
#include <cinttypes>
#include <cstdarg>

// Collections on demand. A harness that sets a heap's max_objs to 0 has the collector run before every instruction from then on,
// those inside callbacks and host calls included (before the first CAP ones, then before every 16th); 1 asks for one collection;
// 1 << 30 ends it. Linked with --wrap=buzzheap_gc.
namespace bz {
struct GcWatch { buzzvm_t vm; uint64_t n; };
inline GcWatch* gc_watch(buzzvm_t vm, bool add) {
  static thread_local GcWatch w[16]; static thread_local unsigned next = 0;
  for (auto& x : w) if (x.vm == vm) return &x;
  if (!add) return nullptr;
  GcWatch* x = &w[next++ % 16]; x->vm = vm; x->n = 0; return x;
}
inline void gc_forget(buzzvm_t vm) { if (GcWatch* w = gc_watch(vm, false)) w->vm = nullptr; }
}
extern "C" {
void __real_buzzheap_gc(buzzvm_t vm) __attribute__((weak));
__attribute__((used)) void __wrap_buzzheap_gc(buzzvm_t vm) {
  const uint64_t CAP = 400; bz::GcWatch* w = bz::gc_watch(vm, vm->heap->max_objs == 0);
  if (w && vm->heap->max_objs >= 1u << 30) { w->vm = nullptr; w = nullptr; }
  if (w && (++w->n <= CAP || w->n % 16 == 0)) vm->heap->max_objs = 0;
  __real_buzzheap_gc(vm);
}
}

namespace bz {
using pbt::Ctx; using pbt::Src; using pbt::fail; using pbt::require;

inline std::string S(int64_t x) { return std::to_string(x); }
inline std::string fmt(const char* f, ...) {
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

inline void writefile(const std::string& p, const std::string& s) {
  FILE* f = fopen(p.c_str(), "wb"); if (!f) { throw std::runtime_error("cannot write " + p); }
  fwrite(s.data(), 1, s.size(), f); fclose(f);
}
inline std::string readfile(const std::string& p, bool* ok = nullptr) {
  FILE* f = fopen(p.c_str(), "rb"); if (ok) *ok = f != nullptr; if (!f) return "";
  std::string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s;
}

// Compile stage, in process, with the real lexer/parser/assembler.
struct Compiled {
  bool parsed = false, assembled = false;
  std::vector<uint8_t> bcode;
  buzzdebug_t dbg = nullptr;
  std::string basm;
  Compiled() {}
  Compiled(const Compiled&) = delete;
  ~Compiled() { if (dbg) buzzdebug_destroy(&dbg); }
};

inline bool parse_file(const std::string& in, const std::string& out, const std::string& strfile = "") {
  const char* argv[4] = {"bzzparse", in.c_str(), out.c_str(), strfile.c_str()};
  buzzparser_t p = buzzparser_new(strfile.empty() ? 3 : 4, (char**)argv);
  if (!p) return false;
  int r = buzzparser_parse(p);
  buzzparser_destroy(&p);
  return r == 1;
}
inline bool assemble_file(const std::string& in, Compiled& c) {
  uint8_t* buf = nullptr; uint32_t size = 0; buzzdebug_t d = nullptr;
  if (buzz_asm(in.c_str(), &buf, &size, &d) != 0) return false;
  c.bcode.assign(buf, buf + size); free(buf); c.dbg = d; c.assembled = true;
  return true;
}
inline void compile(const std::string& source, Compiled& c, const std::string& name = "s") {
  std::string in = pbt::scratch() + "/" + name + ".bzz", out = pbt::scratch() + "/" + name + ".basm";
  writefile(in, source);
  c.parsed = parse_file(in, out);
  if (!c.parsed) return;
  c.basm = readfile(out);
  assemble_file(out, c);
}

inline std::string qs(const std::string& s) { return "'" + pbt::jesc(s) + "'"; }
inline std::string fl(float f) {
  if (std::isnan(f)) return "f:nan";
  char b[64]; snprintf(b, sizeof b, "f:%.9g", f); return b;
}

struct Dumper {
  int depth = 0; std::vector<void*> path;
  std::string dump(buzzobj_t o) {
    if (!o) return "<null>";
    switch (o->o.type) {
      case BUZZTYPE_NIL: return "nil";
      case BUZZTYPE_INT: return "i:" + S(o->i.value);
      case BUZZTYPE_FLOAT: return fl(o->f.value);
      case BUZZTYPE_STRING: return "s:" + qs(o->s.value.str);
      case BUZZTYPE_CLOSURE: return o->c.value.isnative ? "closure" : "cclosure";
      case BUZZTYPE_USERDATA: return "userdata";
      case BUZZTYPE_TABLE: {
        for (void* x : path) if (x == (void*)o->t.value) return "t{cycle}";
        if (depth > 4) return "t{...}";
        ++depth; path.push_back((void*)o->t.value);
        std::vector<std::string> items;
        struct P { std::vector<std::string>* v; Dumper* d; } p{&items, this};
        buzzdict_foreach(o->t.value, [](const void* k, void* d, void* params) {
          P* p = (P*)params; p->v->push_back(p->d->dump(*(buzzobj_t*)k) + "=" + p->d->dump(*(buzzobj_t*)d));
        }, &p);
        --depth; path.pop_back();
        std::sort(items.begin(), items.end());
        std::string s = "t{"; for (size_t i = 0; i < items.size(); ++i) s += (i ? "," : "") + items[i];
        if ((size_t)buzzdict_size(o->t.value) != items.size()) s += fmt("!size=%d", (int)buzzdict_size(o->t.value));
        return s + "}";
      }
    }
    return "<bad type " + S(o->o.type) + ">";
  }
};
inline std::string dump(buzzobj_t o) { Dumper d; return d.dump(o); }

// trace sink for the `log` hook (one VM at a time is "current"; robots have their own)
typedef std::vector<std::string> Trace;
inline std::map<buzzvm_t, Trace*>& sinks() { static std::map<buzzvm_t, Trace*> m; return m; }
inline int hook_log(buzzvm_t vm) {
  std::string line;
  for (int64_t i = 1; i < (int64_t)buzzdarray_size(vm->lsyms->syms); ++i) {
    buzzvm_lload(vm, i);
    buzzobj_t o = buzzvm_stack_at(vm, 1);
    if (i > 1) line += " ";
    line += dump(o);
    buzzvm_pop(vm);
  }
  auto it = sinks().find(vm);
  if (it != sinks().end()) it->second->push_back(line);
  return buzzvm_ret0(vm);
}

struct VM {
  buzzvm_t vm = nullptr;
  Trace trace;
  std::vector<uint8_t> code;
  uint64_t steps = 0;
  explicit VM(uint16_t robot = 1) { vm = buzzvm_new(robot); gc_forget(vm); sinks()[vm] = &trace; }
  VM(const VM&) = delete;
  ~VM() { destroy(); }
  void destroy() { if (vm) { sinks().erase(vm); buzzvm_destroy(&vm); vm = nullptr; } }
  void hook(const char* name, buzzvm_funp f) {
    buzzvm_pushs(vm, buzzvm_string_register(vm, name, 1));
    buzzvm_pushcc(vm, buzzvm_function_register(vm, f));
    buzzvm_gstore(vm);
  }
  bool load(const std::vector<uint8_t>& b) {
    code = b;
    if (buzzvm_set_bcode(vm, code.data(), code.size()) != BUZZVM_STATE_READY) return false;
    hook("log", hook_log);
    return true;
  }
  // runs to completion; false if the step budget is exhausted
  bool run(uint64_t maxsteps = 2000000) {
    while (vm->state == BUZZVM_STATE_READY) {
      if (++steps > maxsteps) return false;
      buzzvm_step(vm);
    }
    return true;
  }
  std::string err() const { return vm->errormsg ? vm->errormsg : "(no message)"; }
};

inline std::string joinlines(const Trace& t, size_t from = 0) {
  std::string s; for (size_t i = from; i < t.size(); ++i) s += "  " + t[i] + "\n"; return s;
}

inline std::string trace_diff(const Trace& exp, const Trace& got) {
  size_t i = 0; while (i < exp.size() && i < got.size() && exp[i] == got[i]) ++i;
  return fmt("first difference at line %zu: expected %s, got %s", i + 1, i < exp.size() ? exp[i].substr(0, 1000).c_str() : "<end>",
             i < got.size() ? got[i].substr(0, 1000).c_str() : "<end>");
}

}  // namespace bz
