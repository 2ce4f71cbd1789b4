// Reference robot: what a robot must do with stigmergies, swarms, broadcasts and
// its message queues, written from the documented semantics; no code shared
// with the implementation.
#pragma once
#include "net.hpp"

namespace net {

inline std::string keystr(const Val& k) { if (k.t == ref::VFLT && k.f == std::floor(k.f)) return "i:" + S((int64_t)k.f); return show(k); }

// decoder of values
inline bool dval(Dec& d, Val& v) {
  uint32_t t = d.u(1); if (!d.ok) return false;
  switch (t) {
    case 0: v = Val(); return true;
    case 1: v = vi((int32_t)d.u(4)); return d.ok;
    case 2: { int32_t m = (int32_t)d.u(4); int32_t e = (int32_t)d.u(4); if (!d.ok) return false; float f; if (m == 0) f = e == 1 ? INFINITY : e == 2 ? -INFINITY : e == 3 ? NAN : 0.f; else { f = (float)((double)(std::abs((int64_t)m) - 1) / (2.0 * 2147483646.0) + 0.5); f = ldexpf(f, e); if (m < 0) f = -f; } v = vf(f); return true; }
    case 3: { uint64_t l = d.u(2); if (l == 0xffff) l = d.u(4); if (!d.ok || d.p + l > d.b.size()) return false; v = vs(std::string(d.b.begin() + d.p, d.b.begin() + d.p + l)); d.p += l; return true; }
    case 4: { uint64_t n = d.u(1); if (n == 255) n = d.u(4); if (!d.ok) return false; v = tab({}); for (uint64_t i = 0; i < n; ++i) { Val a, b; if (!dval(d, a) || !dval(d, b)) return false; v.tab->kv.push_back({a, b}); } return true; }
    case 5: d.u(1); d.u(4); v = vs("<closure>"); return d.ok;
  }
  return false;
}
struct MElem { Val data; uint16_t ts = 0, robot = 0; std::string str() const { return show(data) + "@" + S(ts) + "/" + S(robot); } };
struct MMsg {
  int type = -1; Val topic, value; std::vector<uint16_t> ids; uint16_t id = 0; Val key; MElem e;
  std::string str() const {
    switch (type) {
      case BUZZMSG_BROADCAST: return "BROADCAST " + show(topic) + " " + show(value);
      case BUZZMSG_SWARM_LIST: case BUZZMSG_SWARM_JOIN: case BUZZMSG_SWARM_LEAVE: { auto v = ids; std::sort(v.begin(), v.end()); std::string s = type == BUZZMSG_SWARM_LIST ? "LIST" : type == BUZZMSG_SWARM_JOIN ? "JOIN" : "LEAVE"; for (auto x : v) s += " " + S(x); return s; }
      case BUZZMSG_VSTIG_PUT: case BUZZMSG_VSTIG_QUERY: return (type == BUZZMSG_VSTIG_PUT ? "PUT " : "QUERY ") + S(id) + " " + show(key) + " = " + e.str();
    }
    return "?" + S(type);
  }
};
inline MMsg decode(const Bytes& b) {
  MMsg m; if (b.empty()) fail("an empty message was sent"); m.type = b[0]; Dec d(b, 1); bool ok = true;
  switch (m.type) {
    case BUZZMSG_BROADCAST: ok = dval(d, m.topic) && dval(d, m.value); break;
    case BUZZMSG_SWARM_LIST: { uint32_t n = d.u(2); for (uint32_t i = 0; i < n && d.ok; ++i) m.ids.push_back(d.u(2)); ok = d.ok; break; }
    case BUZZMSG_SWARM_JOIN: case BUZZMSG_SWARM_LEAVE: m.ids.push_back(d.u(2)); ok = d.ok; break;
    case BUZZMSG_VSTIG_PUT: case BUZZMSG_VSTIG_QUERY: m.id = d.u(2); ok = d.ok && dval(d, m.key) && dval(d, m.e.data); m.e.ts = d.u(2); m.e.robot = d.u(2); ok = ok && d.ok; break;
    default: ok = false;
  }
  if (!ok) fail("a malformed message was sent: " + hex(b)); if (d.p != b.size()) fail("a message with trailing bytes was sent: " + hex(b));
  return m;
}
// encoder (for crafted incoming messages)
inline void eval(Bytes& o, const Val& v) {
  auto be = [&](uint32_t x, int n) { for (int i = n - 1; i >= 0; --i) o.push_back(x >> (8 * i)); };
  switch (v.t) {
    case ref::VNIL: be(0, 1); return; case ref::VINT: be(1, 1); be(v.i, 4); return;
    case ref::VFLT: { be(2, 1); bz::VM* none = nullptr; (void)none; buzzmsg_payload_t p = buzzmsg_payload_new(8); buzzmsg_serialize_float(p, v.f); for (uint8_t x : bytes(p)) o.push_back(x); buzzmsg_payload_destroy(&p); return; }
    case ref::VSTR: be(3, 1); be(v.s.size(), 2); for (char ch : v.s) o.push_back(ch); return;
    case ref::VTAB: be(4, 1); be(v.tab->kv.size(), 1); for (auto& p : v.tab->kv) { eval(o, p.first); eval(o, p.second); } return;
    default: be(0, 1);
  }
}
inline Bytes encode(const MMsg& m) {
  Bytes o; auto be = [&](uint32_t x, int n) { for (int i = n - 1; i >= 0; --i) o.push_back(x >> (8 * i)); }; be(m.type, 1);
  switch (m.type) {
    case BUZZMSG_BROADCAST: eval(o, m.topic); eval(o, m.value); break;
    case BUZZMSG_SWARM_LIST: be(m.ids.size(), 2); for (auto x : m.ids) be(x, 2); break;
    case BUZZMSG_SWARM_JOIN: case BUZZMSG_SWARM_LEAVE: be(m.ids[0], 2); break;
    default: be(m.id, 2); eval(o, m.key); eval(o, m.e.data); be(m.e.ts, 2); be(m.e.robot, 2);
  }
  return o;
}

// conflict policies a script may install
enum Policy { PDEFAULT, PHIGH, PLOW, PBIGDATA, PINVALID, PNPOL };

struct Model {
  uint16_t id; explicit Model(uint16_t i) : id(i) {}
  struct Ent { Val key; MElem e; };
  struct Stig { std::map<std::string, Ent> m; Policy pol = PDEFAULT; bool lost = false; };
  std::map<uint16_t, Stig> vs;
  std::vector<std::string> events;   // handler and listener calls, in order
  std::map<uint16_t, bool> swarms; struct Mem { std::set<uint16_t> in; int age = 0; }; std::map<uint16_t, Mem> members;
  std::map<std::string, int> listeners;  // topic -> generation
  // queues
  std::vector<MMsg> bc, put, query, join, leave; bool haslist = false; MMsg list; int period = 10;
  size_t qsize() const { return bc.size() + put.size() + query.size() + join.size() + leave.size() + haslist; }
  void qvstig(int type, uint16_t sid, const Val& k, const MElem& e) {
    for (auto* q : {&put, &query}) for (size_t i = 0; i < q->size(); ++i) if ((*q)[i].id == sid && keystr((*q)[i].key) == keystr(k)) {
      const MElem& o = (*q)[i].e; if (o.ts > e.ts || (o.ts == e.ts && o.robot == e.robot)) return; q->erase(q->begin() + i); goto add;
    }
    add: MMsg m; m.type = type; m.id = sid; m.key = k; m.e = e; m.e.data = ref::Interp().clone(e.data); (type == BUZZMSG_VSTIG_PUT ? put : query).push_back(m);
  }
  void qswarm(bool in, uint16_t sid) {
    if (haslist) { auto it = std::find(list.ids.begin(), list.ids.end(), sid); if (in && it == list.ids.end()) list.ids.push_back(sid); if (!in && it != list.ids.end()) list.ids.erase(it); return; }
    auto& add = in ? join : leave; auto& rem = in ? leave : join;
    for (size_t i = 0; i < rem.size(); ++i) if (rem[i].ids[0] == sid) { rem.erase(rem.begin() + i); break; }
    for (auto& m : add) if (m.ids[0] == sid) return;
    MMsg m; m.type = in ? BUZZMSG_SWARM_JOIN : BUZZMSG_SWARM_LEAVE; m.ids = {sid}; add.push_back(m);
  }
  void outstep() {
    if (period > 0) --period;
    if (period == 0 && !swarms.empty()) { period = 10; join.clear(); leave.clear(); haslist = true; list = MMsg(); list.type = BUZZMSG_SWARM_LIST; for (auto& p : swarms) if (p.second) list.ids.push_back(p.first); }
  }
  bool pop(MMsg& m) {
    auto f = [&](std::vector<MMsg>& q) { if (q.empty()) return false; m = q[0]; q.erase(q.begin()); return true; };
    if (f(bc)) return true; if (haslist) { m = list; haslist = false; return true; }
    return f(put) || f(query) || f(join) || f(leave);
  }
  // local operations
  void create(uint16_t sid, Policy p, bool lost) { Stig s; s.pol = p; s.lost = lost; vs[sid] = s; }
  void vput(uint16_t sid, const Val& k, const Val& v) {
    auto& m = vs[sid].m; auto it = m.find(keystr(k));
    if (it != m.end()) { if (v.t == ref::VNIL && it->second.e.data.t == ref::VNIL) return; it->second.e.data = v; it->second.e.ts++; it->second.e.robot = id; qvstig(BUZZMSG_VSTIG_PUT, sid, k, it->second.e); }
    else if (v.t != ref::VNIL) { Ent e; e.key = k; e.e.data = v; e.e.ts = 1; e.e.robot = id; m[keystr(k)] = e; qvstig(BUZZMSG_VSTIG_PUT, sid, k, e.e); }
  }
  Val vget(uint16_t sid, const Val& k) {
    auto& m = vs[sid].m; auto it = m.find(keystr(k));
    if (it != m.end()) { qvstig(BUZZMSG_VSTIG_QUERY, sid, k, it->second.e); return it->second.e.data; }
    MElem e; e.robot = id; qvstig(BUZZMSG_VSTIG_QUERY, sid, k, e); return Val();
  }
  int vsize(uint16_t sid) { int n = 0; for (auto& p : vs[sid].m) n += p.second.e.data.t != ref::VNIL; return n; }
  std::string contents(uint16_t sid) { Val t = tab({}); for (auto& p : vs[sid].m) if (p.second.e.data.t != ref::VNIL) t.tab->kv.push_back({p.second.key.t == ref::VNIL ? vs_("no key") : p.second.key, tab({{vs_("x"), p.second.e.data}, {vs_("r"), vi(p.second.e.robot)}})}); return show(t); }
  static Val vs_(const char* s) { return ref::vs(s); }
  void say(const Val& t, const Val& v) { MMsg m; m.type = BUZZMSG_BROADCAST; m.topic = t; m.value = ref::Interp().clone(v); bc.push_back(m); }
  void setswarm(uint16_t sid, bool in) { swarms[sid] = in; qswarm(in, sid); }
  void setop(uint16_t sid, bool in) { bool was = swarms.count(sid) && swarms[sid]; swarms[sid] = in; if (in) qswarm(true, sid); else if (was) qswarm(false, sid); }
  bool member(uint16_t r, uint16_t sid) { auto it = members.find(r); return it != members.end() && it->second.in.count(sid); }
  // does the local version win?
  static bool localwins(Policy p, const MElem& l, const MElem& r) {
    switch (p) {
      case PHIGH: return l.robot > r.robot; case PLOW: return l.robot < r.robot;
      case PBIGDATA: { double a = l.data.t == ref::VINT ? l.data.i : -1e9, b = r.data.t == ref::VINT ? r.data.i : -1e9; if (a != b) return a > b; return l.robot > r.robot; }
      default: { bool ln = l.data.t == ref::VNIL, rn = r.data.t == ref::VNIL; if (ln != rn) return rn; return l.robot > r.robot; }
    }
  }
  void conflict(uint16_t sid, const std::string& ks, const MElem& r) {
    Stig& s = vs[sid]; Ent& en = s.m[ks]; MElem l = en.e;
    if (s.pol != PDEFAULT) events.push_back("conflict " + S(sid) + " " + show(en.key) + " " + l.str() + " " + r.str());
    if (s.pol == PINVALID) return;
    MElem w = localwins(s.pol, l, r) ? l : r; Val key = en.key; en.e = w; qvstig(BUZZMSG_VSTIG_PUT, sid, key, w);
    if (w.robot != id && l.robot == id && s.lost) events.push_back("lost " + S(sid) + " " + show(key) + " " + l.str());
  }
  void apply(uint16_t from, const MMsg& m) {
    switch (m.type) {
      case BUZZMSG_BROADCAST: { auto it = listeners.find(m.topic.s); if (it != listeners.end()) events.push_back("heard " + S(it->second) + " " + show(m.topic) + " " + show(m.value) + " " + S(from)); return; }
      case BUZZMSG_SWARM_JOIN: members[from].age = 0; members[from].in.insert(m.ids[0]); return;
      case BUZZMSG_SWARM_LEAVE: if (members.count(from)) { members[from].age = 0; members[from].in.erase(m.ids[0]); if (members[from].in.empty()) members.erase(from); } return;
      case BUZZMSG_SWARM_LIST: if (m.ids.empty()) members.erase(from); else { members[from].age = 0; members[from].in = std::set<uint16_t>(m.ids.begin(), m.ids.end()); } return;
      case BUZZMSG_VSTIG_PUT: {
        if (!vs.count(m.id)) return; auto& mm = vs[m.id].m; std::string ks = keystr(m.key); auto it = mm.find(ks);
        if (it == mm.end() || it->second.e.ts < m.e.ts) { if (it == mm.end()) mm[ks].key = m.key; mm[ks].e = m.e; qvstig(BUZZMSG_VSTIG_PUT, m.id, m.key, m.e); }
        else if (it->second.e.ts == m.e.ts && it->second.e.robot != m.e.robot) conflict(m.id, ks, m.e);
        return;
      }
      case BUZZMSG_VSTIG_QUERY: {
        if (!vs.count(m.id)) { qvstig(BUZZMSG_VSTIG_QUERY, m.id, m.key, m.e); return; }
        auto& mm = vs[m.id].m; std::string ks = keystr(m.key); auto it = mm.find(ks);
        if (it == mm.end()) { if (m.e.ts == 0) qvstig(BUZZMSG_VSTIG_QUERY, m.id, m.key, m.e); else { mm[ks].key = m.key; mm[ks].e = m.e; qvstig(BUZZMSG_VSTIG_PUT, m.id, m.key, m.e); } return; }
        if (it->second.e.ts < m.e.ts) { it->second.e = m.e; qvstig(BUZZMSG_VSTIG_PUT, m.id, m.key, m.e); }
        else if (it->second.e.ts > m.e.ts) qvstig(BUZZMSG_VSTIG_PUT, m.id, m.key, it->second.e);
        else if (it->second.e.robot != m.e.robot) conflict(m.id, ks, m.e);
        return;
      }
    }
  }
  void age() { for (auto it = members.begin(); it != members.end();) { if (++it->second.age > 50) it = members.erase(it); else ++it; } }
};

// script run by the real robot; every operation of the model has a function here
inline const char* NETSRC =
  "S = {}\nW = {}\ngen = 0\n"
  "function ev1(a, b) { log(a, b) }\n"
  "function create(i, pol, lost) { S[i] = stigmergy.create(i) setpol(i, pol, lost) }\n"
  "function setpol(i, pol, lost) {\n"
  " if(pol == 1) { S[i].onconflict(function(k, l, r) { evc(i, k, l, r) if(l.robot > r.robot) { return l } else { return r } }) }\n"
  " if(pol == 2) { S[i].onconflict(function(k, l, r) { evc(i, k, l, r) if(l.robot < r.robot) { return l } else { return r } }) }\n"
  " if(pol == 3) { S[i].onconflict(function(k, l, r) { evc(i, k, l, r) var a = -1000000000 var b = -1000000000 if(isint(l.data)) { a = l.data } if(isint(r.data)) { b = r.data } if(a == b) { if(l.robot > r.robot) { return {.robot=l.robot,.data=l.data} } return {.robot=r.robot,.data=r.data} } if(a > b) { return l } return r }) }\n"
  " if(pol == 4) { S[i].onconflict(function(k, l, r) { evc(i, k, l, r) return 3 }) }\n"
  " if(lost) { S[i].onconflictlost(function(k, l) { log(\"lost\", i, k, l.data, l.timestamp, l.robot) }) }\n"
  "}\n"
  "function evc(i, k, l, r) { log(\"conflict\", i, k, l.data, l.timestamp, l.robot, r.data, r.timestamp, r.robot) }\n"
  "function put(i, k, x) { S[i].put(k, x) }\nfunction get(i, k) { return S[i].get(k) }\nfunction vsize(i) { return S[i].size() }\n"
  "function contents(i) { t = {} S[i].foreach(function(k, x, r) { if(isnil(k)) { k = \"no key\" } if(isnil(t[k])) { t[k] = {.x=x,.r=r} } else { t.dup = 1 } }) return t }\n"
  "function say(t, x) { neighbors.broadcast(t, x) }\n"
  "function saychange(t, x) { neighbors.broadcast(t, x) if(istable(x)) { x.added = 1 x[5] = nil x[0] = {.z=3} foreach(x, function(k, y) { if(istable(y)) { y.deep = 2 } }) } t = \"x\" x = 3 }\n"
  "function listen(t, g) { neighbors.listen(t, function(tt, x, r) { log(\"heard\", g, tt, x, r) }) }\n"
  "function ignore(t) { neighbors.ignore(t) }\n"
  "function sw(i) { W[i] = swarm.create(i) }\nfunction join(i) { W[i].join() }\nfunction leave(i) { W[i].leave() }\nfunction isin(i) { return W[i].in() }\n"
  "function select(i, b) { W[i].select(b) }\nfunction others(i, j) { W[j] = W[i].others(j) }\n"
  "function union(i, a, b) { W[i] = swarm.union(i, W[a], W[b]) }\nfunction inter(i, a, b) { W[i] = swarm.intersection(i, W[a], W[b]) }\nfunction diff(i, a, b) { W[i] = swarm.difference(i, W[a], W[b]) }\n"
  "function kinof(i) { kr = nil W[i].exec(function() { var a = {} neighbors.kin().foreach(function(r, d) { a[r] = d.distance }) var b = {} neighbors.nonkin().foreach(function(r, d) { b[r] = d.distance }) kr = {.a=a,.b=b} }) return kr }\n";

// events logged by the real robot, in the model's notation
inline std::vector<std::string> expectlog(const Model& m) { return m.events; }

struct Pair {           // a real robot and its model, kept in lock step
  Robot r; Model m; size_t seen = 0, evseen = 0;
  explicit Pair(uint16_t id) : r(id, NETSRC), m(id) {}
  std::string who() const { return "robot " + S(m.id) + ": "; }
  void create(uint16_t i, Policy p, bool lost) { r.call("create", {vi(i), vi(p), vi(lost)}); m.create(i, p, lost); }
  void put(uint16_t i, const Val& k, const Val& v) { r.call("put", {vi(i), k, v}); m.vput(i, k, v); }
  void get(uint16_t i, const Val& k) { std::string g = r.call("get", {vi(i), k}), e = show(m.vget(i, k)); if (g != e) fail(who() + "stigmergy " + S(i) + " get(" + show(k) + ") returns " + g + " instead of " + e); }
  void checkstig(uint16_t i) {
    std::string g = r.call("contents", {vi(i)}), e = m.contents(i); if (g != e) fail(who() + "stigmergy " + S(i) + " holds " + g + " instead of " + e);
    g = r.call("vsize", {vi(i)}); e = "i:" + S(m.vsize(i)); if (g != e) fail(who() + "stigmergy " + S(i) + " size is " + g + " instead of " + e);
  }
  void say(const Val& t, const Val& v) { r.call("say", {t, v}); m.say(t, v); }
  void listen(const std::string& t, int g) { r.call("listen", {ref::vs(t), vi(g)}); m.listeners[t] = g; }
  void ignore(const std::string& t) { r.call("ignore", {ref::vs(t)}); m.listeners.erase(t); }
  void swarmcreate(uint16_t i) { r.call("sw", {vi(i)}); if (!m.swarms.count(i)) m.swarms[i] = false; }
  void setswarm(uint16_t i, bool in, bool viaselect, int val = 1) { if (viaselect) r.call("select", {vi(i), vi(in ? val : 0)}); else r.call(in ? "join" : "leave", {vi(i)}); m.setswarm(i, in); }
  // deliver one sender's messages, then process
  void deliver(uint16_t from, const std::vector<Bytes>& ms) { for (auto& b : ms) r.receive(from, b); r.process(); r.check("on receiving messages"); for (auto& b : ms) m.apply(from, decode(b)); m.age(); events(); }
  void outstep() { buzzvm_process_outmsgs(r.vm()); m.outstep(); }
  void events() {
    auto& tr = r.w.trace; std::vector<std::string> got(tr.begin() + seen, tr.end()); seen = tr.size();
    std::vector<std::string> exp(m.events.begin() + evseen, m.events.end()); evseen = m.events.size();
    for (auto& g : got) g = canon(g);
    if (got.size() != exp.size()) fail(who() + S(got.size()) + " handler calls instead of " + S(exp.size()) + (exp.size() > got.size() ? ": missing " + exp[got.size()] : ": extra " + got[exp.size()]));
    for (size_t i = 0; i < got.size(); ++i) if (got[i] != exp[i]) fail(who() + "handler call '" + got[i] + "' instead of '" + exp[i] + "'");
  }
  static std::vector<std::string> split(const std::string& s) { std::vector<std::string> o; std::string cur; int depth = 0; bool q = false; for (size_t i = 0; i < s.size(); ++i) { char ch = s[i]; if (q && ch == '\\') { cur += ch; cur += s[++i]; continue; } if (ch == '\'') q = !q; if (!q && ch == '{') ++depth; if (!q && ch == '}') --depth; if (!q && !depth && ch == ' ') { o.push_back(cur); cur.clear(); } else cur += ch; } o.push_back(cur); return o; }
  static std::string canon(const std::string& l) {
    auto f = split(l); auto n = [&](size_t i) { return f[i].substr(0, 2) == "i:" ? f[i].substr(2) : f[i]; };
    if (f[0] == "s:'conflict'" && f.size() == 9) return "conflict " + n(1) + " " + f[2] + " " + f[3] + "@" + n(4) + "/" + n(5) + " " + f[6] + "@" + n(7) + "/" + n(8);
    if (f[0] == "s:'lost'" && f.size() == 6) return "lost " + n(1) + " " + f[2] + " " + f[3] + "@" + n(4) + "/" + n(5);
    if (f[0] == "s:'heard'" && f.size() == 5) return "heard " + n(1) + " " + f[2] + " " + f[3] + " " + n(4);
    return l;
  }
  // next outgoing message; checked against the model
  bool pop(Bytes& b, bool peektwice = false) {
    size_t qs = buzzoutmsg_queue_size(r.vm()), es = m.qsize(); if (qs != es) fail(who() + "the queue reports " + S(qs) + " messages instead of " + S(es));
    if (peektwice) for (int i = 0; i < 2; ++i) { buzzmsg_payload_t p = buzzoutmsg_queue_first(r.vm()); if ((p != nullptr) != (es > 0)) fail(who() + "looking at the first message fails"); if (p) buzzmsg_payload_destroy(&p); if (buzzoutmsg_queue_size(r.vm()) != es) fail(who() + "looking at the first message consumed it"); }
    MMsg e; bool has = m.pop(e); if (!has) { if (buzzoutmsg_queue_first(r.vm())) fail(who() + "an empty queue yields a message"); buzzoutmsg_queue_next(r.vm()); return false; }
    r.pop(b); MMsg g = decode(b); if (g.str() != e.str()) fail(who() + "sends '" + g.str() + "' instead of '" + e.str() + "'");
    return true;
  }
  void checkmembers(const std::vector<uint16_t>& robots, const std::vector<uint16_t>& sids) {
    for (uint16_t x : robots) for (uint16_t i : sids) { bool g = buzzswarm_members_isrobotin(r.vm()->swarmmembers, x, i), e = m.member(x, i); if (g != e) fail(who() + "thinks robot " + S(x) + (g ? " is" : " is not") + " in swarm " + S(i)); }
  }
};
}  // namespace net
