// Differential check: generated program, real toolchain + VM versus the reference evaluator.
#pragma once
#include "gen.hpp"

namespace ref {
struct RunOpts { bool hostile_gc = false; uint64_t maxsteps = 3000000; };
struct Outcome { int refrc = 3; std::string why, source; };

inline Outcome diffrun(const Block& prog, Src& s, Ctx& c, const RunOpts& o = RunOpts()) {
  Outcome out;
  Printer pr; pr.src = &s;
  out.source = pr.program(prog);
  c.note(out.source);
  Interp in;
  out.refrc = in.run(prog, &out.why);
  if (out.refrc == 3) throw pbt::Discard();
  bz::Compiled cc;
  bz::compile(out.source, cc);
  if (!cc.parsed) pbt::fail("a valid program was rejected by the compiler");
  if (!cc.assembled) pbt::fail("the assembler rejected the compiler's output");
  bz::VM vm(1);
  if (!vm.load(cc.bcode)) pbt::fail("loading the program failed: " + vm.err());
  uint64_t steps = 0, extra = 0;
  while (vm.vm->state == BUZZVM_STATE_READY) {
    if (out.refrc == 2 && vm.trace.size() >= in.trace.size() && ++extra > 3000) break;
    if (++steps > o.maxsteps) { if (out.refrc == 2) break; pbt::fail("program did not terminate (reference evaluator finished)"); }
    if (o.hostile_gc) vm.vm->heap->max_objs = 0;
    buzzvm_step(vm.vm);
  }
  bz::Trace e = normalise(in.trace), g = normalise(vm.trace);
  std::string expect = out.refrc == 0 ? "normal termination" : out.refrc == 1 ? "a run-time error (" + out.why + ")" : "anything after this prefix (" + out.why + ")";
  std::string tail = "\nexpected output:\n" + bz::joinlines(e) + "then " + expect + "\nobserved output:\n" + bz::joinlines(g) + "state=" + buzzvm_state_desc[vm.vm->state] + " error=" + vm.err();
  if (out.refrc == 2) {
    if (g.size() < e.size() || !std::equal(e.begin(), e.end(), g.begin())) pbt::fail(bz::trace_diff(e, g) + tail);
  } else {
    if (e != g) pbt::fail(bz::trace_diff(e, g) + tail);
    if (out.refrc == 0 && vm.vm->state != BUZZVM_STATE_DONE) pbt::fail("program did not end normally: " + vm.err() + tail);
    if (out.refrc == 1) {
      if (vm.vm->state != BUZZVM_STATE_ERROR) pbt::fail("expected a run-time error (" + out.why + ") but the machine did not report one" + tail);
      if (vm.vm->error == BUZZVM_ERROR_NONE) pbt::fail("error state without an error code" + tail);
      if (!vm.vm->errormsg || !*vm.vm->errormsg) pbt::fail("error state without an error message" + tail);
    }
  }
  c.cls(out.refrc == 0 ? "finished" : out.refrc == 1 ? "runtime-error" : "left-open");
  c.cls("trace-lines", e.size());
  c.cls("calls", in.calls);
  vm.destroy();
  return out;
}
}  // namespace ref
