// Dynamic arrays, dictionaries and sets against their models.
#include "alloc.hpp"
#include "iter.hpp"
#include "vmutil.hpp"
extern "C" {
#include <buzz/buzzset.h>
}
using namespace pbt;
typedef std::vector<uint8_t> El;
static size_t g_es;                       // element size of the array under test
static std::vector<std::pair<uint32_t, El>> g_dead;
static void on_dead(uint32_t pos, void* data, void*) { g_dead.push_back({pos, El((uint8_t*)data, (uint8_t*)data + g_es)}); }
static int cmp_el(const void* a, const void* b) { return memcmp(a, b, g_es); }
static int cmp_head(const void* a, const void* b) { return (int)*(const uint8_t*)a - (int)*(const uint8_t*)b; }
static int cmp_rev(const void* a, const void* b) { return memcmp(b, a, g_es); }
static std::string hex(const El& e) { std::string r; for (auto b : e) r += bz::fmt("%02x", b); return r; }
static El el(Src& s) { El e(g_es, 0); unsigned k = s.chance(1, 3) ? 256 : 6; e[0] = (uint8_t)s.draw(k); for (size_t i = 1; i < g_es; ++i) e[i] = (uint8_t)(s.chance(1, 4) ? s.draw(256) : 0); return e; }
static El at(buzzdarray_t da, size_t i) { const uint8_t* p = (const uint8_t*)da->data + i * g_es; return El(p, p + g_es); }
static void same(buzzdarray_t da, const std::vector<El>& m, const char* after) {
  if (buzzdarray_size(da) != m.size()) fail(bz::fmt("size %u instead of %zu after %s", (unsigned)buzzdarray_size(da), m.size(), after)); if (buzzdarray_isempty(da) != m.empty()) fail("isempty");
  if (buzzdarray_capacity(da) < buzzdarray_size(da) || buzzdarray_capacity(da) < 1) fail(bz::fmt("capacity %u below size %u after %s", (unsigned)buzzdarray_capacity(da), (unsigned)buzzdarray_size(da), after));
  for (size_t i = 0; i < m.size(); ++i) if (at(da, i) != m[i]) fail(bz::fmt("element %zu is ", i) + hex(at(da, i)) + " instead of " + hex(m[i]) + " after " + after);
  if (!m.empty() && g_es == 4) { uint32_t w; memcpy(&w, m.back().data(), 4); if (buzzdarray_last(da, uint32_t) != w) fail("last element"); memcpy(&w, m[0].data(), 4); if (buzzdarray_get(da, 0, uint32_t) != w) fail("first element"); }
}
static void visit_el(uint32_t pos, void* data, void* p) { auto* v = (std::vector<std::pair<uint32_t, El>>*)p; v->push_back({pos, El((uint8_t*)data, (uint8_t*)data + g_es)}); }
static void dead(const std::vector<std::pair<uint32_t, El>>& want, const char* by, bool cb) { if (!cb) return; if (g_dead != want) fail(bz::fmt("%zu elements destroyed by %s instead of %zu, or not the right ones", g_dead.size(), by, want.size())); g_dead.clear(); }
static std::vector<std::pair<uint32_t, El>> all(const std::vector<El>& m) { std::vector<std::pair<uint32_t, El>> r; for (size_t i = 0; i < m.size(); ++i) r.push_back({(uint32_t)i, m[i]}); return r; }
static void darray(Src& s, Ctx& c) {
  g_es = s.pickl<size_t>({4, 1, 2, 8, 12, 40, 3}); bool cb = s.flip(); g_dead.clear(); g_dead.reserve(1 << 16); std::string log = bz::fmt("element size %zu\n", g_es); count_blocks();
  struct Arr { buzzdarray_t da; std::vector<El> m; }; std::vector<Arr> as; uint32_t cap = s.pickl<uint32_t>({1, 2, 3, 5, 10, 64}); as.push_back({buzzdarray_new(cap, g_es, cb ? on_dead : nullptr), {}}); log += bz::fmt("a0 = new(%u)\n", cap); size_t n = 2 + s.len(120), done = 0; int grow = (int)s.draw(3);
  for (size_t k = 0; k < n; ++k) {
    size_t ai = s.draw(as.size()); Arr& A = as[ai]; auto& m = A.m; std::string what; uint32_t pos = s.chance(1, 8) ? s.pickl<uint32_t>({(uint32_t)m.size(), (uint32_t)m.size() + 1, (uint32_t)m.size() + 100, 0x7fffffffu, 0xffffffffu}) : (uint32_t)s.draw(m.size() + 1); int op = (int)s.draw(14); if (grow == 1 && op >= 6 && op <= 8) op = 0; if (grow == 2 && k > n / 2 && op < 3) op = 7;
    switch (op) {
      case 0: case 1: { El e = el(s); what = bz::fmt("insert(a%zu, %u, ", ai, pos) + hex(e) + ")"; buzzdarray_insert(A.da, pos, e.data()); m.insert(m.begin() + std::min<size_t>(pos, m.size()), e); break; }
      case 2: { El e = el(s); what = bz::fmt("push(a%zu, ", ai) + hex(e) + ")"; buzzdarray_push(A.da, e.data()); m.push_back(e); break; }
      case 3: { El e = el(s); what = bz::fmt("makeslot(a%zu, %u) = ", ai, pos) + hex(e); void* p = buzzdarray_makeslot(A.da, pos); if (!p) fail("makeslot returns NULL"); memcpy(p, e.data(), g_es); m.insert(m.begin() + std::min<size_t>(pos, m.size()), e); break; }
      case 4: case 5: { if (m.empty()) continue; El e = el(s); uint32_t q = (uint32_t)s.draw(m.size()); what = bz::fmt("set(a%zu, %u, ", ai, q) + hex(e) + ")"; buzzdarray_set(A.da, q, e.data()); m[q] = e; break; }
      case 6: case 7: { what = bz::fmt("remove(a%zu, %u)", ai, pos); buzzdarray_remove(A.da, pos); if (pos < m.size()) { dead({{pos, m[pos]}}, "remove", cb); m.erase(m.begin() + pos); } else dead({}, "remove past the end", cb); break; }
      case 8: { what = bz::fmt("pop(a%zu)", ai); buzzdarray_pop(A.da); if (!m.empty()) { dead({{(uint32_t)m.size() - 1, m.back()}}, "pop", cb); m.pop_back(); } else dead({}, "pop", cb); break; }
      case 9: { if (!s.chance(1, 3)) continue; uint32_t nc = s.pickl<uint32_t>({1, 2, 7, 100}); what = bz::fmt("clear(a%zu, %u)", ai, nc); buzzdarray_clear(A.da, nc); dead(all(m), "clear", cb); m.clear(); break; }
      case 10: { El e = !m.empty() && s.flip() ? m[s.draw(m.size())] : el(s); bool head = s.flip(); what = bz::fmt("find(a%zu, ", ai) + hex(e) + (head ? ", by first byte)" : ")"); uint32_t r = buzzdarray_find(A.da, head ? cmp_head : cmp_el, e.data()); size_t w = 0; while (w < m.size() && !(head ? m[w][0] == e[0] : m[w] == e)) ++w; if (r != w) fail(what + bz::fmt(" returns %u instead of %zu", r, w)); break; }
      case 11: { int o = (int)s.draw(3); what = bz::fmt("sort(a%zu)", ai); buzzdarray_sort(A.da, o == 0 ? cmp_el : o == 1 ? cmp_rev : cmp_head); if (o < 2) { std::sort(m.begin(), m.end()); if (o == 1) std::reverse(m.begin(), m.end()); } else { std::vector<El> g; if (buzzdarray_size(A.da) != m.size()) fail("size after sort"); for (size_t i = 0; i < m.size(); ++i) g.push_back(at(A.da, i)); for (size_t i = 1; i < g.size(); ++i) if (g[i][0] < g[i - 1][0]) fail("not sorted"); auto x = g, y = m; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); if (x != y) fail("sorting changed the elements"); m = g; } break; }
      case 12: { std::vector<std::pair<uint32_t, El>> v; what = bz::fmt("foreach(a%zu)", ai); buzzdarray_foreach(A.da, visit_el, &v); if (v != all(m)) fail("foreach does not visit the elements in order"); break; }
      default: { if (as.size() > 3) { what = bz::fmt("destroy(a%zu)", as.size() - 1); buzzdarray_destroy(&as.back().da); if (as.back().da) fail("destroy does not clear the reference"); dead(all(as.back().m), "destroy", cb); as.pop_back(); break; }
        if (s.flip()) { what = bz::fmt("a%zu = clone(a%zu)", as.size(), ai); buzzdarray_t d = buzzdarray_clone(A.da); std::vector<El> mm = m; as.push_back({d, mm}); } else { std::vector<uint8_t> b(s.len(60)); for (auto& x : b) x = (uint8_t)s.draw(256); what = bz::fmt("a%zu = frombuffer(%zu bytes)", as.size(), b.size()); buzzdarray_t d = buzzdarray_frombuffer(b.data(), b.size(), g_es, cb ? on_dead : nullptr); std::vector<El> mm; for (size_t i = 0; (i + 1) * g_es <= b.size(); ++i) mm.push_back(El(b.begin() + i * g_es, b.begin() + (i + 1) * g_es)); as.push_back({d, mm}); } }
    }
    log += what + "\n"; if (s.chance(1, 64) || k + 1 == n) c.note(log); ++done; dead({}, what.c_str(), cb); for (auto& x : as) same(x.da, x.m, what.c_str());
  }
  for (auto& x : as) { buzzdarray_destroy(&x.da); dead(all(x.m), "destroy", cb); } c.nontrivial = done > 8; c.cls("operations", done);
}
// sorting and growth of larger arrays, in the orders that are awkward for quicksort
static void sorting(Src& s, Ctx& c) {
  g_es = s.pickl<size_t>({4, 8, 12}); size_t n = s.draw(3000), kind = s.draw(6); c.note(bz::fmt("sort %zu elements of %zu bytes, pattern %zu", n, g_es, kind)); buzzdarray_t da = buzzdarray_new(1 + s.draw(50), g_es, nullptr); std::vector<El> m;
  for (size_t i = 0; i < n; ++i) { El e(g_es, 0); uint32_t v = kind == 0 ? i : kind == 1 ? n - i : kind == 2 ? 7 : kind == 3 ? (uint32_t)s.draw(10) : kind == 4 ? (i * 7919) % n : std::min(i, n - i); for (int b = 0; b < 4; ++b) e[b] = v >> (24 - 8 * b); if (g_es > 4) e[5] = (uint8_t)i; bool front = s.draw(8) == 7; if (front) { buzzdarray_insert(da, 0, e.data()); m.insert(m.begin(), e); } else { buzzdarray_push(da, e.data()); m.push_back(e); } }
  same(da, m, "filling"); buzzdarray_sort(da, cmp_el); std::sort(m.begin(), m.end()); same(da, m, "sorting"); buzzdarray_sort(da, cmp_el); same(da, m, "sorting again"); while (!m.empty()) { size_t p = s.flip() ? m.size() - 1 : (m.size() - 1) / 2; buzzdarray_remove(da, p); m.erase(m.begin() + p); if (m.size() % 97 == 0) same(da, m, "removing"); } buzzdarray_destroy(&da); c.nontrivial = n > 100;
}
static int64_t g_deadentries; static std::vector<std::string> g_deadkeys;
struct Ent { uint32_t v; uint8_t pad[9]; };
static void on_entry(const void* key, void* data, void*) { ++g_deadentries; free((void*)key); free(data); }
template <class K> struct KT {};
template <class K> static std::string kname(const K& k) { return bz::S(k); } static std::string kname(const std::string& k) { return "'" + k + "'"; }
template <class K> static void visit_k(const void* key, void* data, void* p) { auto* v = (std::vector<std::pair<K, uint32_t>>*)p; v->push_back({*(const K*)key, ((Ent*)data)->v}); }
static void visit_s(const void* key, void* data, void* p) { auto* v = (std::vector<std::pair<std::string, uint32_t>>*)p; v->push_back({*(const char* const*)key, ((Ent*)data)->v}); }
template <class K> static void dict_run(Src& s, Ctx& c, const char* tn, buzzdict_hashfunp h, buzzdict_key_cmpp cmp, std::function<K(Src&)> gen, std::function<void(const K&, std::function<void(const void*)>)> with, size_t ks, buzzdict_elem_funp visit) {
  uint32_t nb = s.pickl<uint32_t>({1, 2, 3, 10, 100}); bool cb = s.flip(); g_deadentries = 0; std::string log = bz::fmt("dictionary of %s keys, %u buckets\n", tn, nb); buzzdict_t d = buzzdict_new(nb, ks, sizeof(Ent), h, cmp, cb ? on_entry : nullptr); std::map<K, uint32_t> m; int64_t dead = 0; size_t n = 3 + s.len(150), done = 0; std::vector<K> pool; for (size_t i = 0, e = 2 + s.draw(25); i < e; ++i) pool.push_back(gen(s));
  for (size_t i = 0; i < n; ++i) {
    K k = s.chance(1, 6) ? gen(s) : s.pick(pool); uint32_t v = (uint32_t)s.draw(1000); Ent e; memset(&e, (int)(v & 255), sizeof e); e.v = v;
    switch (s.draw(7)) {
      case 0: case 1: case 2: log += "set " + kname(k) + bz::fmt(" = %u\n", v); with(k, [&](const void* p) { buzzdict_set(d, p, &e); }); if (m.count(k)) ++dead; m[k] = v; memset(&e, 0xee, sizeof e); break;
      case 3: { log += "remove " + kname(k) + "\n"; int r = 0; with(k, [&](const void* p) { r = buzzdict_remove(d, p); }); if (r != (int)m.count(k)) fail("remove " + kname(k) + bz::fmt(" returns %d\n", r) + log); dead += m.erase(k); break; }
      case 4: case 5: { const Ent* r = nullptr; bool ex = false; with(k, [&](const void* p) { r = buzzdict_get(d, p, Ent); ex = buzzdict_exists(d, p); }); auto it = m.find(k); if (ex != (it != m.end()) || (r != nullptr) != ex) fail("wrong presence of key " + kname(k) + "\n" + log); if (r) { if (r->v != it->second) fail("wrong value of key " + kname(k) + "\n" + log); for (auto b : r->pad) if (b != (r->v & 255)) fail("damaged value of key " + kname(k) + "\n" + log); } break; }
      default: { std::vector<std::pair<K, uint32_t>> v2; buzzdict_foreach(d, visit, &v2); std::sort(v2.begin(), v2.end()); if (v2 != std::vector<std::pair<K, uint32_t>>(m.begin(), m.end())) fail("foreach does not visit every entry once\n" + log); }
    }
    ++done; c.note(log); if (buzzdict_size(d) != m.size() || buzzdict_isempty(d) != m.empty()) fail(bz::fmt("size %u instead of %zu\n", (unsigned)buzzdict_size(d), m.size()) + log); if (cb && g_deadentries != dead) fail("entries destroyed\n" + log);
  }
  for (auto& p : m) { const Ent* r = nullptr; with(p.first, [&](const void* q) { r = buzzdict_get(d, q, Ent); }); if (!r || r->v != p.second) fail("key " + kname(p.first) + " lost\n" + log); } size_t left = m.size(); buzzdict_destroy(&d); if (d) fail("destroy does not clear the reference"); if (cb && g_deadentries != dead + (int64_t)left) fail("destroy does not destroy every entry"); c.nontrivial = done > 8; c.cls(tn);
}
template <class K> static K genk(Src& s) { return s.chance(1, 4) ? s.pickl<K>({(K)0, (K)-1, (K)1, std::numeric_limits<K>::max(), std::numeric_limits<K>::min()}) : (K)s.range(-100, 100) * (s.chance(1, 3) ? (K)100 : (K)1); }
template <class K> static void dict_int(Src& s, Ctx& c, const char* n, buzzdict_hashfunp h, buzzdict_key_cmpp cmp) { dict_run<K>(s, c, n, h, cmp, genk<K>, [](const K& k, std::function<void(const void*)> f) { K t = k; f(&t); }, sizeof(K), visit_k<K>); }
static void dict(Src& s, Ctx& c) {
  switch (s.draw(5)) { case 0: dict_int<uint16_t>(s, c, "uint16", buzzdict_uint16keyhash, buzzdict_uint16keycmp); break; case 1: dict_int<int16_t>(s, c, "int16", buzzdict_int16keyhash, buzzdict_int16keycmp); break; case 2: dict_int<int32_t>(s, c, "int32", buzzdict_int32keyhash, buzzdict_int32keycmp); break; case 3: dict_int<uint32_t>(s, c, "uint32", buzzdict_uint32keyhash, buzzdict_uint32keycmp); break;
    default: { static std::set<std::string> keep; std::function<std::string(Src&)> g = [](Src& s) { std::string r; size_t n = s.len(s.chance(1, 20) ? 300 : 6); for (size_t i = 0; i < n; ++i) r += (char)(s.chance(1, 5) ? s.range(1, 255) : 'a' + s.draw(3)); return r; };
      dict_run<std::string>(s, c, "string", buzzdict_strkeyhash, buzzdict_strkeycmp, g, [](const std::string& k, std::function<void(const void*)> f) { const char* p = keep.insert(k).first->c_str(); std::string other = k; const char* q = other.c_str(); (void)q; f(&p); }, sizeof(char*), visit_s); } }
}
struct SE { int32_t k; uint32_t tag; };
static int cmp_se(const void* a, const void* b) { int32_t x = ((const SE*)a)->k, y = ((const SE*)b)->k; return x < y ? -1 : x > y; }
static std::vector<std::pair<int32_t, uint32_t>> g_deadse; static void on_se(void* d, void*) { g_deadse.push_back({((SE*)d)->k, ((SE*)d)->tag}); }
static void visit_se(void* d, void* p) { ((std::vector<std::pair<int32_t, uint32_t>>*)p)->push_back({((SE*)d)->k, ((SE*)d)->tag}); }
static void sets(Src& s, Ctx& c) {
  bool cb = s.flip(); g_deadse.clear(); g_deadse.reserve(4096); buzzset_t t = buzzset_new(sizeof(SE), cmp_se, cb ? on_se : nullptr); std::map<int32_t, uint32_t> m; std::string log; size_t n = 3 + s.len(200); int32_t span = s.pickl<int32_t>({5, 20, 100, 1000000}); bool ramp = s.chance(1, 6); std::vector<std::pair<int32_t, uint32_t>> dead;
  for (size_t i = 0; i < n; ++i) { SE e{ramp ? (int32_t)i : !m.empty() && s.chance(1, 3) ? std::next(m.begin(), s.draw(m.size()))->first : (int32_t)s.range(-span, span), (uint32_t)s.draw(1000)};
    switch (s.draw(6)) { case 0: case 1: case 2: log += bz::fmt("insert %d (%u)\n", e.k, e.tag); buzzset_insert(t, &e); m.insert({e.k, e.tag}); break;
      case 3: { log += bz::fmt("remove %d\n", e.k); buzzset_remove(t, &e); auto it = m.find(e.k); if (it != m.end()) { dead.push_back(*it); m.erase(it); } break; }
      case 4: { const SE* r = buzzset_fetch(t, &e, SE); auto it = m.find(e.k); if ((r != nullptr) != (it != m.end())) fail(bz::fmt("wrong presence of %d\n", e.k) + log); if (r && (r->k != e.k || r->tag != it->second)) fail(bz::fmt("wrong element %d\n", e.k) + log); break; }
      default: { std::vector<std::pair<int32_t, uint32_t>> v; buzzset_foreach(t, visit_se, &v); std::sort(v.begin(), v.end()); if (v != std::vector<std::pair<int32_t, uint32_t>>(m.begin(), m.end())) fail("foreach does not visit every element once\n" + log); } }
    c.note(log); if (buzzset_size(t) != m.size() || buzzset_isempty(t) != m.empty()) fail(bz::fmt("size %u instead of %zu\n", (unsigned)buzzset_size(t), m.size()) + log); if (cb && g_deadse != dead) fail("elements destroyed\n" + log); }
  std::vector<std::pair<int32_t, uint32_t>> v; buzzset_foreach(t, visit_se, &v); std::sort(v.begin(), v.end()); if (v != std::vector<std::pair<int32_t, uint32_t>>(m.begin(), m.end())) fail("elements differ\n" + log); g_deadse.clear(); buzzset_destroy(&t); if (t) fail("destroy does not clear the reference"); std::sort(g_deadse.begin(), g_deadse.end()); if (cb && g_deadse != std::vector<std::pair<int32_t, uint32_t>>(m.begin(), m.end())) fail("destroy does not destroy every element"); c.nontrivial = n > 8;
}
// callbacks of foreach that change the dictionary they go through, also while an outer foreach is under way
struct IP { buzzdict_t d; iter::Watch* w; };
static void it_apply(buzzdict_t d, const std::vector<iter::Act>& v) { for (auto& a : v) { int32_t k = a.key; uint32_t x = (uint32_t)a.val; if (a.del) buzzdict_remove(d, &k); else buzzdict_set(d, &k, &x); } }
static void it_visit(const void* key, void* data, void* p) { IP* q = (IP*)p; int32_t k = *(const int32_t*)key; q->w->visit(k, (int)*(uint32_t*)data); auto a = q->w->p.acts.find(k); if (a != q->w->p.acts.end()) it_apply(q->d, a->second); }
static void changing(Src& s, Ctx& c) {
  iter::Plan pl = iter::plan(s, true); uint32_t nb = s.pickl<uint32_t>({1, 2, 3, 7, 100}); c.note(bz::fmt("%u buckets\n", nb) + pl.str());
  buzzdict_t d = buzzdict_new(nb, 4, 4, buzzdict_int32keyhash, buzzdict_int32keycmp, nullptr); for (auto& x : pl.init) { int32_t k = x.first; uint32_t v = (uint32_t)x.second; buzzdict_set(d, &k, &v); }
  std::map<int, int> want;
  if (s.chance(2, 3)) { iter::Watch w(pl); IP p{d, &w}; buzzdict_foreach(d, it_visit, &p); w.end(); want = w.cur; c.cls("changes", w.changes); }
  else {
    // an outer iteration that changes nothing itself; at its second visit a full inner one runs with the changes
    iter::Watch in(pl); struct Q { buzzdict_t d; iter::Watch* in; size_t n, at; std::set<int> seen; bool ran; } q{d, &in, 0, (size_t)s.draw(pl.init.size()), {}, false};
    buzzdict_foreach(d, [](const void* key, void* data, void* p) { Q* q = (Q*)p; int32_t k = *(const int32_t*)key; uint32_t v = *(uint32_t*)data; if (!q->seen.insert(k).second && !q->in->gone.count(k)) fail(bz::fmt("entry %d is visited twice by the outer iteration", k)); if (q->ran) { auto it = q->in->cur.find(k); if (it == q->in->cur.end() || (uint32_t)it->second != v) fail(bz::fmt("the outer iteration visits entry %d, which is not there or has another value", k)); } if (q->n++ == q->at) { q->ran = true; IP p2{q->d, q->in}; buzzdict_foreach(q->d, it_visit, &p2); q->in->end(); } }, &q);
    for (auto& x : pl.init) if (!in.gone.count(x.first) && !q.seen.count(x.first)) fail(bz::fmt("entry %d is never visited by the outer iteration", x.first)); want = in.cur; c.cls("nested");
  }
  std::map<int, int> got; buzzdict_foreach(d, [](const void* k, void* x, void* p) { (*(std::map<int, int>*)p)[*(const int32_t*)k] = (int)*(uint32_t*)x; }, &got);
  if (got != want || buzzdict_size(d) != want.size()) fail("the dictionary does not hold what the callbacks left"); buzzdict_destroy(&d); c.nontrivial = pl.init.size() > 2 && !pl.acts.empty();
}
// containers of tens of thousands of elements: sizes, positions and byte counts beyond 16 bits
static void large(Src& s, Ctx& c) {
  size_t n = s.pickl<size_t>({30000, 66000, 70000, 140000}) + s.draw(500); int which = (int)s.draw(4); c.note(bz::fmt("container %d with %zu elements", which, n)); c.cls(bz::fmt("container-%d", which)); c.nontrivial = true;
  if (which <= 1) { size_t es = s.pickl<size_t>({1, 4, 8, 12}); g_es = es; std::vector<uint8_t> m; buzzdarray_t d; auto fill = [&](uint32_t v, uint8_t* b) { for (size_t i = 0; i < es; ++i) b[i] = (uint8_t)(v >> (8 * (i % 4))); }; uint8_t b[16]; uint32_t cnt = 0;
    if (which == 0) { d = buzzdarray_new(1 + s.draw(10), es, nullptr); for (size_t i = 0; i < n; ++i) { fill(cnt++, b); buzzdarray_push(d, b); m.insert(m.end(), b, b + es); } } else { m.resize(n * es); for (size_t i = 0; i < n; ++i) fill(cnt++, &m[i * es]); d = buzzdarray_frombuffer(m.data(), m.size(), es, nullptr); }
    auto chk = [&](const char* w) { if (buzzdarray_size(d) * es != m.size()) fail(bz::fmt("size %lld after %s", (long long)buzzdarray_size(d), w)); if (!m.empty() && memcmp(d->data, m.data(), m.size())) { size_t i = 0; while (((uint8_t*)d->data)[i] == m[i]) ++i; fail(bz::fmt("element %zu differs after %s", i / es, w)); } }; chk("filling");
    for (int k = 0; k < 12; ++k) { size_t sz = m.size() / es, at = s.chance(1, 3) ? s.draw(10) : s.draw(sz + 1); switch (s.draw(5)) { case 0: case 1: fill(cnt++, b); buzzdarray_insert(d, (uint32_t)at, b); m.insert(m.begin() + at * es, b, b + es); chk(bz::fmt("inserting at %zu", at).c_str()); break; case 2: if (at >= sz) break; buzzdarray_remove(d, (uint32_t)at); m.erase(m.begin() + at * es, m.begin() + (at + 1) * es); chk(bz::fmt("removing %zu", at).c_str()); break;
      case 3: { buzzdarray_t e = buzzdarray_clone(d); buzzdarray_destroy(&d); d = e; chk("cloning"); break; } default: { if (at >= sz) break; std::vector<uint8_t> x(m.begin() + at * es, m.begin() + (at + 1) * es); size_t w = 0; while (memcmp(&m[w * es], x.data(), es)) ++w; uint32_t r = buzzdarray_find(d, cmp_el, x.data()); if (r != w) fail(bz::fmt("find returns %u instead of %zu", r, w)); } } }
    if (es >= 4) { buzzdarray_sort(d, cmp_el); size_t sz = m.size() / es; for (size_t i = 1; i < sz; ++i) if (memcmp((uint8_t*)d->data + (i - 1) * es, (uint8_t*)d->data + i * es, es) > 0) fail("not sorted"); std::map<std::vector<uint8_t>, int> bag; for (size_t i = 0; i < sz; ++i) { bag[std::vector<uint8_t>(&m[i * es], &m[i * es] + es)]++; bag[std::vector<uint8_t>((uint8_t*)d->data + i * es, (uint8_t*)d->data + (i + 1) * es)]--; } for (auto& x : bag) if (x.second) fail("sorting changed the elements"); }
    while (buzzdarray_size(d) > 5) { size_t k = std::min<size_t>(buzzdarray_size(d), 1 + s.draw(9000)); while (k--) { buzzdarray_pop(d); } } buzzdarray_destroy(&d); }
  else if (which == 2) { buzzdict_t d = buzzdict_new((uint32_t)s.pickl<int>({500, 5000}), 4, 4, buzzdict_int32keyhash, buzzdict_int32keycmp, nullptr); n = std::min<size_t>(n, 70000); int32_t mul = s.pickl<int32_t>({1, -1, 7, 65537 / 7}); for (size_t i = 0; i < n; ++i) { int32_t k = (int32_t)i * mul; uint32_t v = (uint32_t)i; buzzdict_set(d, &k, &v); } if (buzzdict_size(d) != n) fail(bz::fmt("size %lld instead of %zu", (long long)buzzdict_size(d), n)); for (size_t i = 0; i < n; i += 3) { int32_t k = (int32_t)i * mul; if (!buzzdict_remove(d, &k)) fail("an entry cannot be removed"); } for (size_t i = 0; i < n; ++i) { int32_t k = (int32_t)i * mul; const uint32_t* v = buzzdict_get(d, &k, uint32_t); if ((v == nullptr) != (i % 3 == 0) || (v && *v != i)) fail(bz::fmt("key %d is lost or wrong", k)); } if (buzzdict_size(d) != n - (n + 2) / 3) fail("size after removing"); buzzdict_destroy(&d); }
  else { buzzdict_t d = buzzdict_new((uint32_t)s.pickl<int>({1000, 4999}), 2, 4, buzzdict_uint16keyhash, buzzdict_uint16keycmp, nullptr); for (uint32_t i = 0; i < 65536; ++i) { uint16_t k = (uint16_t)i; uint32_t v = i * 3; buzzdict_set(d, &k, &v); } if (buzzdict_size(d) != 65536) fail(bz::fmt("size %lld instead of 65536", (long long)buzzdict_size(d))); for (uint32_t i = 0; i < 65536; ++i) { uint16_t k = (uint16_t)i; const uint32_t* v = buzzdict_get(d, &k, uint32_t); if (!v || *v != i * 3) fail(bz::fmt("key %u is lost or wrong", i)); } std::vector<std::pair<uint16_t, uint32_t>> seen; buzzdict_foreach(d, [](const void* k, void* v, void* p) { ((std::vector<std::pair<uint16_t, uint32_t>>*)p)->push_back({*(uint16_t*)k, *(uint32_t*)v}); }, &seen); std::sort(seen.begin(), seen.end()); if (seen.size() != 65536 || seen[0].first != 0 || seen[65535].first != 65535) fail("foreach does not visit every entry once"); buzzdict_destroy(&d); }
}
// the same history twice leaves the same number of heap blocks
static void blocks(Src& s, Ctx& c) {
  count_blocks(); uint64_t seed = s.draw(1u << 30); int which = (int)s.draw(3); c.note(bz::fmt("container %d, history %llu, three times", which, (unsigned long long)seed)); int64_t base = 0;
  for (int r = 0; r < 3; ++r) {
    uint64_t st = seed; auto rnd = [&](uint32_t n) { return (uint32_t)(splitmix(st) % n); };
    if (which == 0) { buzzdarray_t d = buzzdarray_new(1 + rnd(5), 4, nullptr); for (int i = 0; i < 200; ++i) { uint32_t v = rnd(100); switch (rnd(5)) { case 0: case 1: buzzdarray_insert(d, rnd(buzzdarray_size(d) + 2), &v); break; case 2: buzzdarray_remove(d, rnd(buzzdarray_size(d) + 2)); break; case 3: { buzzdarray_t e = buzzdarray_clone(d); g_es = 4; buzzdarray_sort(e, cmp_el); buzzdarray_destroy(&e); break; } default: if (rnd(10) == 0) buzzdarray_clear(d, 1 + rnd(9)); } } buzzdarray_destroy(&d); }
    else if (which == 1) { buzzdict_t d = buzzdict_new(1 + rnd(20), 4, 4, buzzdict_int32keyhash, buzzdict_int32keycmp, nullptr); for (int i = 0; i < 300; ++i) { int32_t k = (int32_t)rnd(40) - 20; uint32_t v = rnd(9); if (rnd(3)) buzzdict_set(d, &k, &v); else buzzdict_remove(d, &k); } buzzdict_destroy(&d); }
    else { buzzset_t d = buzzset_new(sizeof(SE), cmp_se, nullptr); for (int i = 0; i < 300; ++i) { SE e{(int32_t)rnd(60), 1}; if (rnd(5) < 3) buzzset_insert(d, &e); else buzzset_remove(d, &e); } buzzset_destroy(&d); }
    if (r == 0) base = g_live; else if (g_live != base) fail(bz::fmt("%lld heap blocks are left after the container is destroyed", (long long)(g_live - base) / r));
  }
  c.nontrivial = true;
}
int main(int argc, char** argv) {
  return run(argc, argv, "P20", {{"dynamic-array", darray, 30000, 900000}, {"sorting", sorting, 1200, 30000}, {"dictionary", dict, 20000, 600000}, {"set", sets, 20000, 600000}, {"large", large, 60, 1500}, {"changing", changing, 15000, 400000}, {"heap-blocks", blocks, 4000, 100000}});
}
