// Mathematical functions and random numbers.
#include "lang.hpp"
using namespace ref; using namespace pbt;
struct MVal { bool flt; int32_t i; float f; double d() const { return flt ? f : i; } float asf() const { return flt ? f : (float)i; } std::string lit() const { return flt ? Printer::fnum(f) : bz::S(i); } std::string dump() const { return flt ? bz::fl(f) : "i:" + bz::S(i); } };
static MVal mval(Src& s) {
  MVal v{s.flip(), 0, 0}; if (!v.flt) { v.i = s.chance(1, 6) ? s.pickl<int32_t>({0, 1, -1, INT32_MAX, INT32_MIN + 1, 1000000}) : (int32_t)s.range(-2000, 2000); return v; }
  switch (s.draw(5)) { case 0: v.f = s.pickl<float>({0.f, 1.f, -1.f, 0.5f, -0.5f, 2.5f, -2.5f, 3.14159265f, 1e-7f}); break; case 1: v.f = (float)s.range(-1000, 1000) / 1000; break; case 2: v.f = std::ldexp((float)s.range(-1000000, 1000000), (int)s.range(-40, 10)); break; default: v.f = (float)s.range(-100000, 100000) / (float)s.range(1, 1000); } return v;
}
static bz::Trace runsrc(const std::string& src, Ctx& c, bool note = true) { if (note) c.note(src); bz::Compiled k; bz::compile(src, k); if (!k.assembled) fail("a valid program is rejected"); bz::VM vm(1); if (!vm.load(k.bcode)) fail("load"); if (!vm.run(20000000)) fail("the script did not finish"); if (vm.vm->state != BUZZVM_STATE_DONE) fail("the script stopped: " + vm.err()); return vm.trace; }
static bool near(const std::string& got, double want, double tol = 3e-6) { if (got.compare(0, 2, "f:") != 0) return false; if (std::isnan(want)) return got == "f:nan"; double g = strtod(got.c_str() + 2, nullptr); if (std::isinf((float)want) || std::isinf(g)) return std::fabs(want) > 3.4e38 ? g == (want > 0 ? INFINITY : -INFINITY) : std::isinf(g) && std::isinf((float)want); return std::fabs(g - want) <= tol * std::fabs(want) + 1e-37; }
static void functions(Src& s, Ctx& c) {
  std::string src; struct Q { std::string e; double want; std::string exact, exact2; }; std::vector<Q> q; size_t n = 5 + s.draw(30);
  for (size_t i = 0; i < n; ++i) {
    MVal a = mval(s), b = mval(s); float x = a.asf(); Q r{"", 0, "", ""}; int k = (int)s.draw(18);
    auto un = [&](const char* f) { r.e = std::string("math.") + f + "(" + a.lit() + ")"; };
    switch (k) {
      case 0: un("abs"); r.exact = a.flt ? bz::fl(std::fabs(a.f)) : "i:" + bz::S(std::abs(a.i)); break;
      case 1: case 2: case 3: { if (std::fabs(a.d()) > 2147480000.0) a = MVal{true, 0, 7.5f}; un(k == 1 ? "floor" : k == 2 ? "ceil" : "round"); double d = a.d(); r.exact = "i:" + bz::S((int64_t)(k == 1 ? std::floor(d) : k == 2 ? std::ceil(d) : std::round(d))); break; }
      case 4: un("log"); r.want = std::log((double)x); break; case 5: un("log2"); r.want = std::log2((double)x); break; case 6: un("log10"); r.want = std::log10((double)x); break;
      case 7: if (std::fabs(x) > 80) x = std::fmod(x, 80.f), a = MVal{true, 0, x}; un("exp"); r.want = std::exp((double)x); break; case 8: un("sqrt"); r.want = std::sqrt((double)x); break;
      case 9: un("sin"); r.want = std::sin((double)x); break; case 10: un("cos"); r.want = std::cos((double)x); break; case 11: un("tan"); r.want = std::tan((double)x); break;
      case 12: if (std::fabs(x) > 1 && s.flip()) { x = 1 / x; a = MVal{true, 0, x}; } un("asin"); r.want = std::asin((double)x); break; case 13: if (std::fabs(x) > 1 && s.flip()) { x = 1 / x; a = MVal{true, 0, x}; } un("acos"); r.want = std::acos((double)x); break;
      case 14: r.e = "math.atan(" + a.lit() + ", " + b.lit() + ")"; r.want = std::atan2((double)x, (double)b.asf()); break;
      case 15: case 16: { if (!a.flt != !b.flt && std::fabs(a.d()) > 16000000) a = MVal{false, 5, 0}; if (!a.flt != !b.flt && std::fabs(b.d()) > 16000000) b = MVal{false, 6, 0}; bool mn = k == 15; r.e = std::string(mn ? "math.min(" : "math.max(") + a.lit() + ", " + b.lit() + ")"; bool first = mn ? a.d() < b.d() : a.d() > b.d(); r.exact = (first ? a : b).dump(); if (a.d() == b.d()) r.exact2 = a.dump(); break; }
      default: r.e = "math.pi"; r.exact = bz::fl((float)M_PI); }
    src += "log(" + r.e + ")\n"; q.push_back(r);
  }
  bz::Trace t = runsrc(src, c); if (t.size() != q.size()) fail("number of results");
  for (size_t i = 0; i < q.size(); ++i) { if (!q[i].exact.empty()) { if (t[i] != q[i].exact && t[i] != q[i].exact2) fail(q[i].e + ": expected " + q[i].exact + ", got " + t[i]); } else { double w = q[i].want; bool tr = q[i].e.find("sin(") != std::string::npos || q[i].e.find("cos(") != std::string::npos || q[i].e.find("tan(") != std::string::npos || q[i].e.find("log") != std::string::npos; if (!near(t[i], w) && !(tr && t[i].compare(0, 2, "f:") == 0 && std::fabs(strtod(t[i].c_str() + 2, nullptr) - w) < 1e-6)) fail(q[i].e + bz::fmt(": expected f:%.9g, got ", w) + t[i]); } }
  c.nontrivial = n > 10; c.cls("calls", n);
}
static uint32_t untemper(uint32_t y) { y ^= y >> 18; y ^= (y << 15) & 0xefc60000u; uint32_t z = y; for (int i = 0; i < 5; ++i) z = y ^ ((z << 7) & 0x9d2c5680u); y = z; z = y; for (int i = 0; i < 3; ++i) z = y ^ (z >> 11); return z; }
// the raw generator follows the MT19937 recurrence from any seed, and is reproducible
static void raw(Src& s, Ctx& c) {
  int32_t seed = s.chance(1, 4) ? s.pickl<int32_t>({0, 1, -1, INT32_MAX, INT32_MIN + 1}) : (int32_t)s.range(-1000000, 1000000); int n = 1300 + (int)s.draw(700);
  std::string src = bz::fmt("math.rng.setseed(%d)\ni = 0\nwhile(i < %d) { log(math.rng.uniform()) i = i + 1 }\n", seed, n); bz::Trace t = runsrc(src, c), u = runsrc(src, c, false); if (t != u) fail("the same seed gives different numbers"); if ((int)t.size() != n) fail("number of results");
  std::vector<uint32_t> x; for (auto& l : t) { if (l.compare(0, 2, "i:") != 0) fail("uniform() does not return an integer: " + l); x.push_back(untemper((uint32_t)strtol(l.c_str() + 2, nullptr, 10))); }
  for (size_t k = 0; k + 624 < x.size(); ++k) { uint32_t y = (x[k] & 0x80000000u) | (x[k + 1] & 0x7fffffffu), w = x[k + 397] ^ (y >> 1) ^ ((y & 1) ? 0x9908b0dfu : 0); if (k + 624 > 0 && x[k + 624] != w) fail(bz::fmt("number %zu after seed %d does not follow the Mersenne Twister recurrence", k + 624, seed)); }
  std::set<uint32_t> d(x.begin(), x.end()); if (d.size() + 5 < x.size()) fail("the numbers repeat"); bz::Trace v = runsrc(bz::fmt("math.rng.setseed(%d)\ni = 0\nwhile(i < 5) { log(math.rng.uniform()) i = i + 1 }\n", seed + 1), c, false); if (std::equal(v.begin(), v.end(), t.begin())) fail("two seeds give the same numbers");
  // re-seeding starts over, and robots in one process do not share a generator
  bz::Trace w = runsrc(bz::fmt("math.rng.setseed(%d)\nmath.rng.gaussian()\nmath.rng.uniform(3)\nmath.rng.setseed(%d)\ni = 0\nwhile(i < 700) { log(math.rng.uniform()) i = i + 1 }\n", seed / 2, seed), c, false); if (!std::equal(w.begin(), w.end(), t.begin())) fail("setting the seed again does not start the sequence over");
  bz::Compiled k; bz::compile(src, k); bz::VM a(1), b(2); a.load(k.bcode); b.load(k.bcode); uint64_t st = 0; while ((a.vm->state == BUZZVM_STATE_READY || b.vm->state == BUZZVM_STATE_READY) && ++st < 400000) { size_t ka = s.draw(3); if (st > 3000) ka = 1; while (ka--) buzzvm_step(a.vm); buzzvm_step(b.vm); } if (a.trace != t || b.trace != t) fail("two robots disturb each other's numbers"); c.nontrivial = true;
}
static void distributions(Src& s, Ctx& c) {
  int32_t seed = (int32_t)s.range(-100000, 100000); int n = 1500, kind = (int)s.draw(7); double a = 0, b = 0; std::string e; bool integer = false; MVal A = mval(s), B = mval(s); if (A.flt && std::fabs(A.f) > 1e6) A.f = 12.5f; if (B.flt && std::fabs(B.f) > 1e6) B.f = -3.25f;
  switch (kind) { case 0: e = "math.rng.uniform(" + A.lit() + ")"; a = 0; b = A.d(); integer = !A.flt; break; case 1: case 2: e = "math.rng.uniform(" + A.lit() + ", " + B.lit() + ")"; a = A.d(); b = B.d(); integer = !A.flt && !B.flt; break; case 3: e = "math.rng.uniform()"; integer = true; a = -2147483648.0; b = 2147483647.0; break;
    case 4: { bool one = s.flip(); if (std::fabs(A.d()) > 10000 || std::fabs(B.d()) > 10000) { A = MVal{false, 3, 0}; B = MVal{true, 0, 1.5f}; } if (one) B = MVal{false, 0, 0}; e = one ? "math.rng.gaussian(" + A.lit() + ")" : "math.rng.gaussian(" + A.lit() + ", " + B.lit() + ")"; break; } case 5: A = MVal{false, 1, 0}; B = MVal{false, 0, 0}; e = "math.rng.gaussian()"; break; default: e = "math.rng.exponential(" + A.lit() + ")"; }
  bz::Trace t = runsrc(bz::fmt("math.rng.setseed(%d)\ni = 0\nwhile(i < %d) { log(%s) i = i + 1 }\n", seed, n, e.c_str()), c); if ((int)t.size() != n) fail("number of results");
  std::vector<double> x; for (auto& l : t) { if (l.compare(0, 2, integer ? "i:" : "f:") != 0) fail(e + " returns " + l); x.push_back(strtod(l.c_str() + 2, nullptr)); }
  double mean = 0, var = 0; for (double v : x) { if (std::isnan(v)) fail(e + " returns not a number"); mean += v; } mean /= n; for (double v : x) var += (v - mean) * (v - mean); var /= n; c.cls(bz::fmt("kind-%d", kind)); c.nontrivial = true;
  if (kind <= 3) { double lo = std::min(a, b), hi = std::max(a, b), w = hi - lo, mag = 2e-6 * std::max(std::fabs(lo), std::fabs(hi)); for (double v : x) if (v < lo - 1e-6 * std::fabs(lo) || v > hi + 1e-6 * std::fabs(hi)) fail(bz::fmt("%s returns %.9g", e.c_str(), v)); double m = (lo + hi) / 2, sd = w / std::sqrt(12.0); if (integer && w < 8) { /* few values: the upper bound may hardly ever be drawn */ std::set<double> seen(x.begin(), x.end()); if (w >= 1 && seen.size() < (size_t)w) fail(bz::fmt("%s returns only %zu different values", e.c_str(), seen.size())); return; }
    if (std::fabs(mean - m) > 7 * sd / std::sqrt((double)n) + (integer ? 1.01 : 1e-5 * w) + mag) fail(bz::fmt("%s: mean of %d draws is %.6g, expected about %.6g", e.c_str(), n, mean, m)); if (w > 0 && std::fabs(std::sqrt(var) - sd) > 0.15 * sd + (integer ? 1 : 0) + mag) fail(bz::fmt("%s: deviation of %d draws is %.6g, expected about %.6g", e.c_str(), n, std::sqrt(var), sd));
    int dec[10] = {0}; if (w > 100) { for (double v : x) { int k = (int)((v - lo) / w * 10); dec[std::min(std::max(k, 0), 9)]++; } for (int k = 0; k < 10; ++k) if (dec[k] < 70 || dec[k] > 240) fail(bz::fmt("%s: %d of %d draws fall in tenth %d of the interval", e.c_str(), dec[k], n, k)); } }
  else if (kind <= 5) { double sd = std::fabs(A.d()), m = B.d(); if (std::fabs(mean - m) > 7 * sd / std::sqrt((double)n) + 1e-5 * std::fabs(m)) fail(bz::fmt("%s: mean of %d draws is %.6g", e.c_str(), n, mean)); if (std::fabs(std::sqrt(var) - sd) > 0.2 * sd + 1e-5 * std::fabs(m)) fail(bz::fmt("%s: deviation of %d draws is %.6g", e.c_str(), n, std::sqrt(var))); int in = 0; for (double v : x) in += std::fabs(v - m) <= sd; if (sd > 1e-3 * std::fabs(m) && (in < n * 0.60 || in > n * 0.77)) fail(bz::fmt("%s: %d of %d draws within one deviation", e.c_str(), in, n)); }
  else { double m = A.d(); for (double v : x) if (v * m < 0) fail(bz::fmt("%s returns %.9g", e.c_str(), v)); if (std::fabs(mean - m) > 8 * std::fabs(m) / std::sqrt((double)n)) fail(bz::fmt("%s: mean of %d draws is %.6g", e.c_str(), n, mean)); int below = 0; for (double v : x) below += std::fabs(v) < std::fabs(m) * 0.69314718; if (m != 0 && (below < n * 0.40 || below > n * 0.60)) fail(bz::fmt("%s: %d of %d draws below the median", e.c_str(), below, n)); }
}
int main(int argc, char** argv) {
  return run(argc, argv, "P19", {{"functions", functions, 8000, 300000}, {"generator", raw, 250, 6000}, {"distributions", distributions, 2000, 60000}});
}
