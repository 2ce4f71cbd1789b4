// Independent decoder and consistency check of Buzz bytecode.
#pragma once
#include "vmutil.hpp"
#include <set>
namespace bc {
struct Ins { uint32_t off; uint8_t op; uint32_t arg; bool has; };
struct Code { std::vector<std::string> strings; uint32_t start = 0; std::vector<Ins> ins; };
inline bool hasarg(uint8_t op) { return op >= BUZZVM_INSTR_PUSHF; }
inline std::string decode(const std::vector<uint8_t>& b, Code& c) {
  if (b.size() < 2) return "shorter than its header"; uint16_t n; memcpy(&n, b.data(), 2); size_t p = 2;
  for (unsigned i = 0; i < n; ++i) { size_t e = p; while (e < b.size() && b[e]) ++e; if (e >= b.size()) return "string table is not terminated"; c.strings.emplace_back(b.begin() + p, b.begin() + e); p = e + 1; }
  c.start = p;
  while (p < b.size()) { Ins i{(uint32_t)p, b[p], 0, hasarg(b[p])}; if (i.op >= BUZZVM_INSTR_COUNT) return "unknown opcode at " + bz::S(p); ++p; if (i.has) { if (p + 4 > b.size()) return "argument cut off at " + bz::S(p); memcpy(&i.arg, &b[p], 4); p += 4; } c.ins.push_back(i); }
  return "";
}
// every jump and closure lands on an instruction, every string exists, the operand stack is used consistently
inline std::string verify(const Code& c) {
  std::map<uint32_t, size_t> at; for (size_t i = 0; i < c.ins.size(); ++i) at[c.ins[i].off] = i;
  std::vector<size_t> entries = {0}; if (c.ins.empty()) return "no instruction";
  for (auto& i : c.ins) {
    switch (i.op) { case BUZZVM_INSTR_PUSHCN: case BUZZVM_INSTR_PUSHL: case BUZZVM_INSTR_JUMP: case BUZZVM_INSTR_JUMPZ: case BUZZVM_INSTR_JUMPNZ: if (!at.count(i.arg)) return bz::fmt("the target %u of %s at %u is not an instruction", i.arg, buzzvm_instr_desc[i.op], i.off); if (i.op == BUZZVM_INSTR_PUSHCN || i.op == BUZZVM_INSTR_PUSHL) entries.push_back(at[i.arg]); break;
      case BUZZVM_INSTR_PUSHS: if (i.arg >= c.strings.size()) return bz::fmt("pushs %u at %u: there are %zu strings", i.arg, i.off, c.strings.size()); break; }
  }
  std::vector<int> depth(c.ins.size(), -1);
  for (size_t e : entries) {
    std::vector<std::pair<size_t, int>> work = {{e, 0}};
    while (!work.empty()) {
      size_t i = work.back().first; int d = work.back().second; work.pop_back();
      for (;;) {
        if (i >= c.ins.size()) return "control runs off the end of the code";
        if (depth[i] >= 0) { if (depth[i] != d) return bz::fmt("stack depth at %u is %d or %d", c.ins[i].off, depth[i], d); break; }
        depth[i] = d; const Ins& x = c.ins[i]; int pop = 0, push = 0; bool stop = false;
        switch (x.op) {
          case BUZZVM_INSTR_NOP: case BUZZVM_INSTR_LREMOVE: break;
          case BUZZVM_INSTR_DONE: stop = true; break;
          case BUZZVM_INSTR_PUSHNIL: case BUZZVM_INSTR_PUSHF: case BUZZVM_INSTR_PUSHI: case BUZZVM_INSTR_PUSHS: case BUZZVM_INSTR_PUSHCN: case BUZZVM_INSTR_PUSHCC: case BUZZVM_INSTR_PUSHL: case BUZZVM_INSTR_PUSHT: case BUZZVM_INSTR_LLOAD: push = 1; break;
          case BUZZVM_INSTR_DUP: pop = 1; push = 2; break;
          case BUZZVM_INSTR_POP: case BUZZVM_INSTR_LSTORE: pop = 1; break;
          case BUZZVM_INSTR_RET0: stop = true; break; case BUZZVM_INSTR_RET1: pop = 1; stop = true; break;
          case BUZZVM_INSTR_ADD: case BUZZVM_INSTR_SUB: case BUZZVM_INSTR_MUL: case BUZZVM_INSTR_DIV: case BUZZVM_INSTR_MOD: case BUZZVM_INSTR_POW: case BUZZVM_INSTR_LAND: case BUZZVM_INSTR_LOR: case BUZZVM_INSTR_BAND: case BUZZVM_INSTR_BOR: case BUZZVM_INSTR_LSHIFT: case BUZZVM_INSTR_RSHIFT: case BUZZVM_INSTR_EQ: case BUZZVM_INSTR_NEQ: case BUZZVM_INSTR_GT: case BUZZVM_INSTR_GTE: case BUZZVM_INSTR_LT: case BUZZVM_INSTR_LTE: case BUZZVM_INSTR_TGET: pop = 2; push = 1; break;
          case BUZZVM_INSTR_UNM: case BUZZVM_INSTR_LNOT: case BUZZVM_INSTR_BNOT: case BUZZVM_INSTR_GLOAD: pop = 1; push = 1; break;
          case BUZZVM_INSTR_GSTORE: pop = 2; break; case BUZZVM_INSTR_TPUT: pop = 3; break;
          case BUZZVM_INSTR_CALLC: case BUZZVM_INSTR_CALLS: if (i == 0 || c.ins[i - 1].op != BUZZVM_INSTR_PUSHI) return bz::fmt("call at %u without an argument count", x.off); pop = 3 + (int)c.ins[i - 1].arg; push = 1; break;
          case BUZZVM_INSTR_JUMP: break; case BUZZVM_INSTR_JUMPZ: case BUZZVM_INSTR_JUMPNZ: pop = 1; break;
          default: return bz::fmt("unexpected opcode %u", x.op);
        }
        if (d < pop) return bz::fmt("%s at %u takes %d values from a stack of %d", buzzvm_instr_desc[x.op], x.off, pop, d);
        d += push - pop; if (stop) break;
        if (x.op == BUZZVM_INSTR_JUMP) { i = at[x.arg]; continue; } if (x.op == BUZZVM_INSTR_JUMPZ || x.op == BUZZVM_INSTR_JUMPNZ) work.push_back({at[x.arg], d});
        ++i;
      }
    }
  }
  return "";
}
}  // namespace bc
