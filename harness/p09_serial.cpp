// Values survive transmission: encode/decode round trips between machines.
#include "net.hpp"
#include <buzz/buzzmsg.h>
using namespace ref; using namespace pbt; using namespace net;

static float rfloat(Src& s) {
  switch (s.weighted({4, 3, 2, 1})) {
    case 0: { uint32_t b = (uint32_t)s.draw(0x100000000ull); float f; memcpy(&f, &b, 4); return f; }
    case 1: return (float)s.range(-100000, 100000) / 64;
    case 2: return s.pickl<float>({0.f, 1.f, -1.f, 0.5f, -0.5f, 0.99999994f, 1.0000001f, 3.4028235e38f, -3.4028235e38f, 1.17549435e-38f, 1e-45f, -1e-45f, 1.1754942e-38f, INFINITY, -INFINITY, NAN, 0.1f, 16777216.f, 16777217.f, 2147483648.f});
    default: { float f = (float)s.range(1, 16777215); return ldexpf(s.flip() ? f : -f, (int)s.range(-149, 104)); }
  }
}
static int32_t rint32(Src& s) { switch (s.draw(3)) { case 0: return (int32_t)s.range(-300, 300); case 1: return (int32_t)(uint32_t)s.draw(0x100000000ull); default: return s.pickl<int32_t>({INT32_MAX, INT32_MIN, 255, 256, 65535, 65536, -1, 0x01020304, (int32_t)0x80000001, 0x00ff00ff}); } }
static std::string rstring(Src& s, bool big) {
  size_t n; switch (s.weighted({6, 3, 1})) { case 0: n = s.draw(12); break; case 1: n = s.pickl<size_t>({254, 255, 256, 257, 300, 511, 512, 1000}); break; default: n = big ? s.pickl<size_t>({65533, 65534, 65535, 65536, 65537, 70000, 131071, 131072, 131073}) : 20; }
  std::string r; uint64_t k = s.draw(1 << 20); size_t varied = std::min<size_t>(n, 12);
  for (size_t i = 0; i < varied; ++i) r += (char)(1 + s.draw(255));
  for (size_t i = varied; i < n; ++i) { k = k * 6364136223846793005ull + 1442695040888963407ull; r += (char)(1 + (k >> 33) % 255); }
  return r;
}
static Val rplain(Src& s, int d, bool big) {
  switch (s.weighted({3, 3, 3, 1, (unsigned)(d > 0 ? 5 : 0)})) {
    case 0: return vi(rint32(s));
    case 1: return vf(rfloat(s));
    case 2: return vs(rstring(s, big));
    case 3: return Val();
    default: {
      Val t = tab({}); ref::Interp in; size_t n = s.weighted({5, 2, 1}); n = n == 0 ? s.draw(6) : n == 1 ? s.draw(40) : (d >= 2 || !big) ? s.draw(12) : 0;
      for (size_t i = 0; i < n; ++i) { Val k = s.flip() ? vi((int32_t)s.range(-20, 60)) : s.flip() ? vs(rstring(s, false)) : vf(s.flip() ? (float)s.range(-20, 20) / 4 : rfloat(s)); if (k.t == VFLT && std::isnan(k.f)) k = vi(3); if (k.t == VFLT && k.f == 0) k.f = 0; Val v = rplain(s, d - 1, false); if (v.t == VNIL) continue; in.tput(t, k, v); }
      return t;
    }
  }
}
static Val nozero(Val v) { if (v.t == VFLT && v.f == 0) v.f = 0; if (v.t == VTAB) { Val t = tab({}); for (auto& p : v.tab->kv) t.tab->kv.push_back({nozero(p.first), nozero(p.second)}); return t; } return v; }
// deep dump without depth cut
static std::string full(buzzobj_t o);
struct FC { std::vector<std::string>* v; };
static std::string full(buzzobj_t o) {
  if (o->o.type != BUZZTYPE_TABLE) { if (o->o.type == BUZZTYPE_FLOAT && o->f.value == 0) return "f:0"; return bz::dump(o); }
  std::vector<std::string> it; FC c{&it};
  buzzdict_foreach(o->t.value, [](const void* k, void* d, void* p) { ((FC*)p)->v->push_back(full(*(buzzobj_t*)k) + "=" + full(*(buzzobj_t*)d)); }, &c);
  std::sort(it.begin(), it.end()); std::string r = "t" + S(buzzdict_size(o->t.value)) + "{"; for (auto& x : it) r += x + ","; return r + "}";
}
static std::string full(const Val& v) {
  if (v.t == VFLT && v.f == 0) return "f:0";
  if (v.t != VTAB) return show(v);
  std::vector<std::string> it; for (auto& p : v.tab->kv) it.push_back(full(p.first) + "=" + full(p.second));
  std::sort(it.begin(), it.end()); std::string r = "t" + S(v.tab->kv.size()) + "{"; for (auto& x : it) r += x + ","; return r + "}";
}
static std::string cut(const std::string& s) { return s.size() > 300 ? s.substr(0, 300) + "..." : s; }

// a sequence of values written one after another into one message and read back on another machine
static void objects(Src& s, Ctx& c) {
  bz::VM a(1), b(2);
  size_t junk = s.draw(20); for (size_t i = 0; i < junk; ++i) buzzvm_string_register(b.vm, ("junk" + S(i)).c_str(), 1);
  size_t n = 1 + s.draw(5), pre = s.draw(9); std::vector<Val> vals; std::vector<size_t> ends; buzzmsg_payload_t m = buzzmsg_payload_new(1 + s.draw(64));
  for (size_t i = 0; i < pre; ++i) buzzmsg_serialize_u8(m, (uint8_t)(17 * i + 3));
  for (size_t i = 0; i < n; ++i) { Val v = rplain(s, 3, s.chance(1, 12)); vals.push_back(v); c.note(cut(full(v))); push(a.vm, v); buzzobj_serialize(m, buzzvm_stack_at(a.vm, 1)); std::string f0 = full(buzzvm_stack_at(a.vm, 1)); buzzvm_pop(a.vm); if (f0 != full(v)) fail("a value built through the API differs: " + cut(f0)); ends.push_back(buzzmsg_payload_size(m)); }
  Bytes whole = bytes(m);
  for (size_t i = 0; i < pre; ++i) if (whole[i] != (uint8_t)(17 * i + 3)) fail("encoding a value changed bytes written before it");
  int64_t p = pre;
  for (size_t i = 0; i < n; ++i) {
    buzzobj_t o = nullptr; p = buzzobj_deserialize(&o, m, (uint32_t)p, b.vm);
    if (p < 0) fail("value " + S(i) + " cannot be decoded: " + cut(full(vals[i])));
    if (full(o) != full(vals[i])) fail("value " + S(i) + " arrives as " + cut(full(o)) + " instead of " + cut(full(vals[i])));
    if ((size_t)p != ends[i]) fail("decoding value " + S(i) + " consumed " + S(p) + " bytes, it was encoded up to " + S(ends[i]));
  }
  // decoding every incomplete prefix fails instead of inventing a value
  size_t start = n > 1 ? ends[n - 2] : pre; size_t tries = std::min<size_t>(ends[n - 1] - start, 24);
  for (size_t k = 0; k < tries; ++k) {
    size_t l = start + (ends[n - 1] - start <= 24 ? k : s.draw(ends[n - 1] - start));
    Bytes t(whole.begin(), whole.begin() + l); buzzmsg_payload_t q = payload(t); buzzobj_t o = nullptr;
    int64_t r = buzzobj_deserialize(&o, q, (uint32_t)start, b.vm);
    if (r >= 0) fail("a message truncated from " + S(ends[n - 1]) + " to " + S(l) + " bytes decodes as " + cut(full(o)));
    buzzmsg_payload_destroy(&q);
  }
  buzzmsg_payload_destroy(&m);
  bool t = false; for (auto& v : vals) t |= v.t == VTAB; c.cls(t ? "with tables" : "scalars"); c.cls("values", n); c.nontrivial = n > 1 || t;
}
// primitive fields: round trip, network byte order, positions, truncation
static void fields(Src& s, Ctx& c) {
  buzzmsg_payload_t m = buzzmsg_payload_new(1); std::vector<std::pair<int, Val>> want; Bytes exp; std::vector<size_t> ends; size_t n = 1 + s.draw(12);
  auto be = [&](uint32_t x, int k) { for (int i = k - 1; i >= 0; --i) exp.push_back(x >> (8 * i)); };
  for (size_t i = 0; i < n; ++i) {
    int k = (int)s.draw(5); Val v;
    switch (k) {
      case 0: v = vi((int32_t)s.draw(256)); buzzmsg_serialize_u8(m, v.i); be(v.i, 1); break;
      case 1: v = vi(s.flip() ? (int32_t)s.draw(65536) : s.pickl<int32_t>({0, 1, 255, 256, 0x0102, 65535})); buzzmsg_serialize_u16(m, v.i); be(v.i, 2); break;
      case 2: v = vi(rint32(s)); buzzmsg_serialize_u32(m, (uint32_t)v.i); be(v.i, 4); break;
      case 3: v = vf(rfloat(s)); buzzmsg_serialize_float(m, v.f); for (int j = 0; j < 8; ++j) exp.push_back(0); break;
      default: v = vs(rstring(s, false)); buzzmsg_serialize_string(m, v.s.c_str()); be(v.s.size(), 2); for (char ch : v.s) exp.push_back(ch); break;
    }
    want.push_back({k, v}); c.note(S(k) + " " + cut(full(v))); ends.push_back(buzzmsg_payload_size(m));
    if (ends.back() != exp.size()) fail("field " + S(i) + " takes " + S(ends.back()) + " bytes in total, expected " + S(exp.size()));
  }
  Bytes got = bytes(m); int64_t p = 0;
  for (size_t i = 0; i < n; ++i) {
    int64_t q = -1; std::string g; uint8_t a = 0; uint16_t b = 0; uint32_t d = 0; float f = 0; char* str = nullptr; size_t lo = p;
    switch (want[i].first) {
      case 0: q = buzzmsg_deserialize_u8(&a, m, p); g = "i:" + S(a); break;
      case 1: q = buzzmsg_deserialize_u16(&b, m, p); g = "i:" + S(b); break;
      case 2: q = buzzmsg_deserialize_u32(&d, m, p); g = "i:" + S((int32_t)d); break;
      case 3: q = buzzmsg_deserialize_float(&f, m, p); g = full(vf(f)); break;
      default: q = buzzmsg_deserialize_string(&str, m, p); if (q >= 0) { g = full(vs(str)); free(str); } break;
    }
    if (q != (int64_t)ends[i]) fail("decoding field " + S(i) + " moved to position " + S(q) + " instead of " + S(ends[i]));
    if (g != full(want[i].second)) fail("field " + S(i) + " arrives as " + cut(g) + " instead of " + cut(full(want[i].second)));
    if (want[i].first != 3) for (size_t x = lo; x < ends[i]; ++x) if (got[x] != exp[x]) fail("field " + S(i) + " is not in network byte order");
    // truncations of this field
    size_t cutat = lo + s.draw(ends[i] - lo); Bytes t(got.begin(), got.begin() + cutat); buzzmsg_payload_t h = payload(t); int64_t r = 0;
    switch (want[i].first) { case 0: r = buzzmsg_deserialize_u8(&a, h, lo); break; case 1: r = buzzmsg_deserialize_u16(&b, h, lo); break; case 2: r = buzzmsg_deserialize_u32(&d, h, lo); break; case 3: r = buzzmsg_deserialize_float(&f, h, lo); break; default: r = buzzmsg_deserialize_string(&str, h, lo); }
    if (r >= 0) fail("field " + S(i) + " cut at " + S(cutat - lo) + " of " + S(ends[i] - lo) + " bytes is not recognised as incomplete");
    buzzmsg_payload_destroy(&h); p = q;
  }
  buzzmsg_payload_destroy(&m); c.nontrivial = n > 2; c.cls("fields", n);
}
// stigmergy entries: key, value, timestamp and robot
static void entries(Src& s, Ctx& c) {
  bz::VM a(1), b(2); size_t n = 1 + s.draw(4), pre = s.draw(5); buzzmsg_payload_t m = buzzmsg_payload_new(1 + s.draw(20)); struct E { Val k, v; uint16_t ts, r; size_t end; }; std::vector<E> es;
  auto u16 = [&] { return s.flip() ? (uint16_t)s.draw(65536) : s.pickl<uint16_t>({0, 1, 255, 256, 258, 32767, 32768, 65534, 65535}); };
  for (size_t i = 0; i < pre; ++i) buzzmsg_serialize_u8(m, 7);
  for (size_t i = 0; i < n; ++i) {
    E e; do e.k = rplain(s, 0, false); while (e.k.t == VTAB); e.v = rplain(s, 2, false); e.ts = u16(); e.r = u16(); c.note(cut(full(e.k)) + " = " + cut(full(e.v)) + " @" + S(e.ts) + "/" + S(e.r));
    push(a.vm, e.k); push(a.vm, e.v); buzzvstig_elem_t x = buzzvstig_elem_new(buzzvm_stack_at(a.vm, 1), e.ts, e.r); buzzvstig_elem_serialize(m, buzzvm_stack_at(a.vm, 2), x); free(x); buzzvm_pop(a.vm); buzzvm_pop(a.vm); e.end = buzzmsg_payload_size(m); es.push_back(e);
  }
  int64_t p = pre; Bytes w = bytes(m);
  for (auto& e : es) {
    auto one = [&](buzzmsg_payload_t q, bool check) { buzzobj_t k = nullptr; buzzvstig_elem_t x = buzzvstig_elem_new(nullptr, 0, 0); int64_t r = buzzvstig_elem_deserialize(&k, &x, q, (uint32_t)p, b.vm);
      if (check) { if (r != (int64_t)e.end) fail("decoding an entry moved to " + S(r) + " instead of " + S(e.end)); if (full(k) != full(e.k) || full(x->data) != full(e.v) || x->timestamp != e.ts || x->robot != e.r) fail("the entry arrives as " + cut(full(k)) + " = " + cut(full(x->data)) + " @" + S(x->timestamp) + "/" + S(x->robot)); }
      free(x); return r; };
    one(m, true); Bytes t(w.begin(), w.begin() + p + s.draw(e.end - p)); buzzmsg_payload_t q = payload(t); if (one(q, false) >= 0) fail("an entry cut from " + S(e.end - p) + " to " + S(t.size() - p) + " bytes is accepted"); buzzmsg_payload_destroy(&q); p = (int64_t)e.end;
  }
  buzzmsg_payload_destroy(&m); c.nontrivial = n > 1; c.cls("entries", n);
}
static const char* SRC =
  "heard = {}\nn = 0\n"
  "v = stigmergy.create(7)\n"
  "function hear(t, x, r) { heard[n] = {.t=t,.x=x,.r=r} n = n + 1 }\n"
  "neighbors.listen(\"topic\", hear)\n"
  "function say(x) { neighbors.broadcast(\"topic\", x) }\n"
  "function sayandchange(x) { neighbors.broadcast(\"topic\", x) if(istable(x)) { x.added = 1 x[5] = nil x[6] = {.z=3} foreach(x, function(k, y) { if(istable(y)) { y.deep = 2 } }) } }\n"
  "function put(k, x) { v.put(k, x) }\nfunction get(k) { return v.get(k) }\n"
  "function last() { return heard[n - 1].x }\nfunction count() { return n }\nfunction from() { return heard[n - 1].r }\nfunction topic() { return heard[n - 1].t }\n"
  "function plain(a, b) { return a * 10 + b }\n"
  "function applylast(a, b) { return heard[n - 1].x(a, b) }\n"
  "function applyget(k, a, b) { return v.get(k)(a, b) }\n"
  "function sayplain() { neighbors.broadcast(\"topic\", plain) }\n"
  "function putplain(k) { v.put(k, plain) }\n"
  "function saynested(q) { var loc = q  neighbors.broadcast(\"topic\", {.before=1,.f=function(a, b) { return a + loc },.after=2}) }\n"
  "function saynested1(q) { var loc = q  neighbors.broadcast(\"topic\", function(a, b) { return a + loc }) }\n"
  "function big(m, k) { var t = {} var i = 0 while(i < m) { t[i * k] = i + 1 i = i + 1 } return t }\n"
  "function saybig(m, k) { neighbors.broadcast(\"topic\", big(m, k)) }\n"
  "function checkbig(m, k) { return checkt(m, k, heard[n - 1].x) }\n"
  "function checkt(m, k, t) { var i = 0 var bad = 0 while(i < m) { if(t[i * k] != i + 1) { bad = bad + 1 } i = i + 1 } if(size(t) != m) { bad = bad + 10000 } return bad }\n"
  "function putbig(key, m, k) { v.put(key, big(m, k)) }\nfunction checkputbig(key, m, k) { return checkt(m, k, v.get(key)) }\n";
static void deliver(Robot& a, Robot& b) { for (auto& m : a.drain()) b.receive(a.id, m); b.process(); b.check("on receiving a message"); }
// the whole path: value -> message queue -> bytes -> listener / stigmergy of another robot
static void path(Src& s, Ctx& c) {
  Robot a((uint16_t)(1 + s.draw(65000)), SRC), b((uint16_t)(65001 + s.draw(500)), SRC); a.hostile = s.chance(1, 3); b.hostile = s.chance(1, 3);
  size_t n = 1 + s.draw(6); int heard = 0;
  for (size_t i = 0; i < n; ++i) {
    switch (s.weighted({4, 3, 3, 1, 1, 1, 1, 1})) {
      case 0: case 1: {
        Val v = rplain(s, 3, s.chance(1, 30)); bool ch = s.flip(); c.note((ch ? "sayandchange " : "say ") + cut(full(v)));
        a.call(ch ? "sayandchange" : "say", {v}); deliver(a, b); ++heard;
        if (b.call("count") != "i:" + S(heard)) fail("the listener was called " + b.call("count") + " times, expected " + S(heard));
        buzzvm_pushs(b.vm(), buzzvm_string_register(b.vm(), "last", 0)); buzzvm_gload(b.vm()); buzzvm_closure_call(b.vm(), 0);
        std::string g = full(buzzvm_stack_at(b.vm(), 1)); buzzvm_pop(b.vm());
        if (g != full(v)) fail("broadcast value arrives as " + cut(g) + " instead of " + cut(full(v)));
        if (b.call("from") != "i:" + S(a.id)) fail("the listener got sender " + b.call("from") + " instead of " + S(a.id));
        if (b.call("topic") != "s:'topic'") fail("the listener got topic " + b.call("topic"));
        break;
      }
      case 2: {
        Val k = s.flip() ? vi(rint32(s)) : s.flip() ? vs(rstring(s, false)) : vf((float)s.range(-50, 50) / 4); Val v = rplain(s, 3, s.chance(1, 30)); if (v.t == VNIL) v = vi(4); c.note("put " + cut(full(k)) + " " + cut(full(v)));
        a.call("put", {k, v}); deliver(a, b);
        push(b.vm(), Val()); buzzvm_pop(b.vm());
        buzzvm_pushs(b.vm(), buzzvm_string_register(b.vm(), "get", 0)); buzzvm_gload(b.vm()); push(b.vm(), k); buzzvm_closure_call(b.vm(), 1);
        std::string g = full(buzzvm_stack_at(b.vm(), 1)); buzzvm_pop(b.vm()); b.drain();
        if (g != full(v)) fail("value shared under " + cut(full(k)) + " arrives as " + cut(g) + " instead of " + cut(full(v)));
        break;
      }
      case 3: a.call("sayplain"); c.note("sayplain"); deliver(a, b); ++heard; if (b.call("applylast", {vi(4), vi(2)}) != "i:42") fail("a broadcast function does not compute the same on the receiver"); break;
      case 4: a.call("putplain", {vs("f")}); c.note("putplain"); deliver(a, b); if (b.call("applyget", {vs("f"), vi(7), vi(3)}) != "i:73") fail("a shared function does not compute the same on the receiver"); b.drain(); break;
      case 5: { a.call("saynested", {vi(3)}); c.note("saynested"); deliver(a, b); ++heard; std::string g = b.call("last"); if (g != "t{s:'after'=i:2,s:'before'=i:1}") fail("a table holding a function that cannot be sent arrives as " + g); break; }
      case 6: { a.call("saynested1", {vi(3)}); c.note("saynested1"); deliver(a, b); ++heard; if (b.call("count") != "i:" + S(heard) || b.call("last") != "nil") fail("a function that cannot be sent arrives as " + b.call("last")); break; }
      default: {
        int m = (int)s.pickl<int>({60, 127, 128, 254, 255, 256, 257, 300, 511, 512, 600}); int k = (int)s.range(1, 3); c.note("big " + S(m));
        if (s.flip()) { a.call("saybig", {vi(m), vi(k)}); deliver(a, b); ++heard; std::string g = b.call("checkbig", {vi(m), vi(k)}); if (g != "i:0") fail("a table with " + S(m) + " elements arrives damaged (" + g + ")"); }
        else { a.call("putbig", {vs("B"), vi(m), vi(k)}); deliver(a, b); std::string g = b.call("checkputbig", {vs("B"), vi(m), vi(k)}); b.drain(); if (g != "i:0") fail("a shared table with " + S(m) + " elements arrives damaged (" + g + ")"); }
        break;
      }
    }
    if (b.call("count") != "i:" + S(heard)) fail("the listener was called " + b.call("count") + " times, expected " + S(heard));
  }
  c.cls("transmissions", n); c.nontrivial = n > 1;
}
// tables that contain themselves or share parts: what is sent is the value, with nil in place of an inner occurrence of an enclosing table
static void shared(Src& s, Ctx& c) {
  size_t n = 1 + s.draw(5); std::vector<std::map<std::string, size_t>> g(n); std::string src = "v = stigmergy.create(7)\nheard = nil\nneighbors.listen(\"topic\", function(t, x, r) { heard = x })\n"; for (size_t i = 0; i < n; ++i) src += "t" + S(i) + " = {.v=" + S(100 + i) + "}\n";
  size_t m = 1 + s.draw(n + 3); std::vector<std::string> nm = {"a", "b", "c"}; for (size_t i = 0; i < m; ++i) g[s.draw(n)][s.pick(nm)] = s.draw(n);
  for (size_t i = 0; i < n; ++i) for (auto& e : g[i]) src += "t" + S(i) + "." + e.first + " = t" + S(e.second) + "\n";
  src += "function say() { neighbors.broadcast(\"topic\", t0) }\nfunction put() { v.put(\"k\", t0) }\nfunction got() { return heard }\nfunction get() { return v.get(\"k\") }\nfunction keep() { return t0 }\n"; c.note(src);
  size_t cnt = 0; std::function<Val(size_t, std::set<size_t>)> unroll = [&](size_t at, std::set<size_t> on) { if (++cnt > 60) throw pbt::Discard(); on.insert(at); Val t = tab({{vs("v"), vi(100 + (int)at)}}); for (auto& e : g[at]) { if (on.count(e.second)) c.cls("cycle"); else t.tab->kv.push_back({vs(e.first), unroll(e.second, on)}); } return t; }; Val want = unroll(0, {});
  Robot a(3, src), b(4, src); a.hostile = s.flip(); b.hostile = s.flip(); a.call("say"); deliver(a, b);
  auto val = [&](Robot& r, const char* f) { buzzvm_pushs(r.vm(), buzzvm_string_register(r.vm(), f, 0)); buzzvm_gload(r.vm()); buzzvm_closure_call(r.vm(), 0); std::string x = full(buzzvm_stack_at(r.vm(), 1)); buzzvm_pop(r.vm()); return x; };
  std::string x = val(b, "got"); if (x != full(want)) fail("a broadcast table arrives as " + cut(x) + " instead of " + cut(full(want))); a.call("put"); deliver(a, b); x = val(b, "get"); if (x != full(want)) fail("a shared table arrives as " + cut(x) + " instead of " + cut(full(want))); c.nontrivial = n > 1;
}
// functions among the values sent: those that need nothing from where they were made arrive and work, the others arrive as nil
static void functions(Src& s, Ctx& c) {
  size_t np = s.draw(3), nl = s.draw(3), cap = np + nl, nf = 1 + s.draw(4); bool bare = s.chance(1, 4); if (bare) nf = 1;
  std::string par, loc; for (size_t i = 0; i < np; ++i) par += std::string(i ? ", " : "") + "p" + S(i); for (size_t i = 0; i < nl; ++i) loc += " var l" + S(i) + " = " + S(s.draw(9)) + "\n";
  std::vector<std::string> ex, want; std::string fields, probe; size_t lost = 0, kept = 0;
  std::string src = "v = stigmergy.create(7)\nheard = nil\nneighbors.listen(\"topic\", function(t, x, r) { heard = x })\n";
  for (size_t i = 0; i < nf; ++i) {
    std::string e, p, w; int k = (int)s.draw(1000); std::string at = bare ? "x" : s.chance(1, 4) ? "x.in.f" + S(i) : "x.f" + S(i);
    switch (s.draw(5)) {
      case 0: src += "function g" + S(i) + "(a, b) { return a * 10 + b + " + S(k) + " }\n"; e = "g" + S(i); w = "i:" + S(23 + k); ++kept; break;
      case 1: src += "h" + S(i) + " = function(a, b) { return a - b * " + S(k) + " }\n"; e = "h" + S(i); w = "i:" + S(2 - 3 * k); ++kept; break;
      case 2: e = "function(a, b) { return a + b" + std::string(cap && s.chance(3, 4) ? np ? " + p0" : " + l0" : "") + " + " + S(k) + " }"; if (cap) { w = "nil"; ++lost; } else { w = "i:" + S(5 + k); ++kept; } break;
      case 3: if (bare) { e = "isstring"; w = "i:0"; p = at + "(" + S(k) + ")"; ++kept; } else { e = "{.a=" + S(k) + "}"; p = at + ".a"; w = "i:" + S(k); } break;
      default: e = "float"; p = at + "(" + S(k) + ")"; w = "f:" + S(k); ++kept; break;
    }
    if (p.empty()) p = at + "(2, 3)"; want.push_back(w); ex.push_back(at.substr(0, 5) == "x.in." ? at.substr(5) : at.size() > 2 ? at.substr(2) : "");
    probe += "function probe" + S(i) + "(x) { if(isnil(" + at + ")) { return nil } return " + p + " }\n";
    if (bare) fields = e; else if (at.substr(0, 5) == "x.in.") ex.back() = "@" + ex.back() + "=" + e; else ex.back() = "." + ex.back() + "=" + e;
  }
  if (!bare) { std::string out, in; for (auto& e : ex) if (e[0] == '@') in += (in.empty() ? "." : ",.") + e.substr(1); else out += (out.empty() ? "" : ",") + e; fields = "{" + out + (out.empty() ? "" : ",") + ".in={" + in + "},.z=1}"; }
  src += probe + "function say(" + par + ") {\n" + loc + " neighbors.broadcast(\"topic\", " + fields + ")\n}\nfunction put(" + par + ") {\n" + loc + " v.put(\"k\", " + fields + ")\n}\n";
  for (size_t i = 0; i < nf; ++i) src += "function heard" + S(i) + "() { return probe" + S(i) + "(heard) }\nfunction held" + S(i) + "() { return probe" + S(i) + "(v.get(\"k\")) }\n";
  src += "function z() { return heard.z }\n"; c.note(src);
  Robot a(3, src), b(4, src); a.hostile = s.flip(); b.hostile = s.flip(); std::vector<Val> args; for (size_t i = 0; i < np; ++i) args.push_back(vi((int)s.draw(50)));
  auto same = [&](const std::string& g, const std::string& w) { if (w.substr(0, 2) == "f:") return g.substr(0, 2) == "f:" && atof(g.c_str() + 2) == atof(w.c_str() + 2); return g == w; };
  a.call("say", args); deliver(a, b); a.call("put", args); deliver(a, b);
  for (size_t i = 0; i < nf; ++i) for (auto f : {"heard", "held"}) { std::string g = b.call(f + S(i)); if (!same(g, want[i])) fail(std::string("function ") + S(i) + (f[3] == 'r' ? " in a broadcast" : " in a stigmergy") + " gives " + g + " instead of " + want[i]); }
  if (!bare) { std::string g = b.call("z"); if (g != "i:1") fail("the rest of the table arrives as " + g); }
  c.cls(lost ? "with captured variables" : "without"); c.nontrivial = kept + lost > 0;
}
int main(int argc, char** argv) {
  std::vector<Test> t = { {"objects", objects, 16000, 300000}, {"fields", fields, 20000, 400000}, {"entries", entries, 6000, 100000}, {"path", path, 7000, 120000}, {"shared", shared, 3000, 60000}, {"functions", functions, 3000, 60000} };
  return run(argc, argv, "P09", t);
}
