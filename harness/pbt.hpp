// Small property-based testing engine: seeded choice sequences, process
// isolation, automatic shrinking, replay files.
//
// A case is a pure function of a sequence of integer choices.  In search mode
// the choices come from a PRNG seeded by (VERIF_SEED, property, test, index);
// in shrink/replay mode they come from a recorded list (exhausted list => 0).
// Cases run in forked workers so that a crash, sanitizer report, abort or CPU
// runaway of the code under test is itself an observable failure.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <unordered_set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:quarantine_size_mb=8:hard_rss_limit_mb=3000:"
         "allocator_may_return_null=1:detect_stack_use_after_return=0:"
         "handle_abort=0:exitcode=99:print_summary=1:max_malloc_fill_size=4096";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0"; }
#endif

namespace pbt {

struct Violation { std::string msg; };
struct Discard {};

inline uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t s = a ^ (b * 0xd6e8feb86659fd93ULL); splitmix(s); return splitmix(s); }
inline uint64_t hashstr(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}

struct Shm {
  volatile int64_t test, index;
  volatile int status;       // 0 running/none, 1 violation, 2 ok
  char msg[6000];
  char repr[60000];
  uint32_t nrec;
  uint64_t rec[400001];
};

inline Shm*& pubshm() { static Shm* p = nullptr; return p; }

class Src {
 public:
  std::vector<uint64_t> rec;
  bool replaying = false;
  std::vector<uint64_t> list;
  size_t pos = 0;
  uint64_t st = 0;
  explicit Src(uint64_t seed) : st(seed) {}
  explicit Src(const std::vector<uint64_t>& l) : replaying(true), list(l) {}
  // uniform in [0,n)
  uint64_t draw(uint64_t n) {
    if (n == 0) n = 1;
    uint64_t v;
    if (replaying) { v = pos < list.size() ? list[pos] : 0; ++pos; if (v >= n) v = v % n; }
    else v = splitmix(st) % n;
    if (rec.size() > 400000) throw Discard();
    rec.push_back(v);
    if (Shm* p = pubshm()) { p->rec[rec.size() - 1] = v; p->nrec = rec.size(); }
    return v;
  }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo + 1)); }
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }  // 0 => false
  bool flip() { return draw(2) == 1; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
  template <class T> T pickl(std::initializer_list<T> v) { return *(v.begin() + draw(v.size())); }
  // weighted index
  size_t weighted(std::initializer_list<unsigned> w) {
    unsigned tot = 0; for (unsigned x : w) tot += x;
    uint64_t r = draw(tot); size_t i = 0;
    for (unsigned x : w) { if (r < x) return i; r -= x; ++i; }
    return w.size() - 1;
  }
  // small-biased length in [0,max]
  size_t len(size_t max) {
    switch (draw(4)) { case 0: return draw(std::min<size_t>(max, 3) + 1); case 1: return draw(std::min<size_t>(max, 8) + 1);
      default: return draw(max + 1); }
  }
};

struct Ctx {
  bool nontrivial = false;
  std::string repr;              // human-readable case
  std::map<std::string, uint64_t> classes;
  void note(const std::string& s) {
    if (repr.size() < 59000) {
      repr += s; repr += '\n';
      if (Shm* p = pubshm()) { size_t n = std::min<size_t>(repr.size(), sizeof p->repr - 1); size_t o = std::min<size_t>(n, repr.size() - s.size() - 1);
        memcpy(p->repr + o, repr.data() + o, n - o); p->repr[n] = 0; }
    }
  }
  void cls(const std::string& s, uint64_t n = 1) { classes[s] += n; }
};

[[noreturn]] inline void fail(const std::string& m) { throw Violation{m}; }
inline void require(bool c, const std::string& m) { if (!c) throw Violation{m}; }

typedef std::function<void(Src&, Ctx&)> PropFn;
struct Test { std::string name; PropFn fn; uint64_t quick; uint64_t thorough; };

inline Shm* newshm() {
  void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return (Shm*)p;
}

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline std::string& scratch() { static std::string s; return s; }

inline void arm_cpu(int sec) {
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &it, nullptr);
}
static const int CPU_LIMIT = 20;

inline std::string describe_status(int st) {
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    std::string r = std::string("process killed by signal ") + strsignal(s);
    if (s == SIGPROF) r = "code under test did not finish within " + std::to_string(CPU_LIMIT) + " s of CPU time (hang)";
    return r;
  }
  if (WIFEXITED(st)) {
    if (WEXITSTATUS(st) == 99) return "address/undefined-behaviour sanitizer report";
    return "process exited with status " + std::to_string(WEXITSTATUS(st));
  }
  return "unknown process status";
}

// Run one case in a forked child from a choice list. Returns 0 pass, 1 fail, 2 discard
inline int run_isolated(const Test& t, const std::vector<uint64_t>& choices, Shm* sh, std::string* msg, std::string* repr,
                        std::vector<uint64_t>* rec, const std::string& errfile) {
  sh->status = 0; sh->msg[0] = 0; sh->repr[0] = 0; sh->nrec = 0;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
    fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 1); close(fd); }
    arm_cpu(CPU_LIMIT);
    pubshm() = sh;
    Src s(choices);
    Ctx c;
    try { t.fn(s, c); sh->status = 2; _exit(0); }
    catch (Violation& v) { snprintf(sh->msg, sizeof sh->msg, "%s", v.msg.c_str()); sh->status = 1; _exit(77); }
    catch (Discard&) { sh->status = 3; _exit(0); }
    catch (std::exception& e) { snprintf(sh->msg, sizeof sh->msg, "harness exception: %s", e.what()); sh->status = 4; _exit(78); }
  }
  int st = 0; waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return sh->status == 3 ? 2 : 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 78) return 2;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { *msg = sh->msg; *repr = sh->repr; rec->assign(sh->rec, sh->rec + sh->nrec); return 1; }
  // crash
  *msg = describe_status(st);
  std::ifstream f(errfile); std::string line; int n = 0; std::string extra;
  while (std::getline(f, line)) {
    if (line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("runtime error") != std::string::npos) { extra += line + "\n"; n = 1; continue; }
    if (n && n < 14) { extra += line + "\n"; ++n; }
  }
  if (!extra.empty()) *msg += "\n" + extra;
  *repr = sh->repr; rec->assign(sh->rec, sh->rec + sh->nrec);
  return 1;
}

inline std::vector<uint64_t> shrink(const Test& t, std::vector<uint64_t> cur, Shm* sh, const std::string& errfile, double maxsec, int maxtry) {
  double t0 = now(); int tries = 0; std::string m, r; std::vector<uint64_t> rec;
  auto bad = [&](const std::vector<uint64_t>& c) {
    if (tries >= maxtry || now() - t0 > maxsec) return false;
    ++tries;
    std::vector<uint64_t> rr;
    return run_isolated(t, c, sh, &m, &r, &rr, errfile) == 1;
  };
  bool progress = true;
  while (progress && tries < maxtry && now() - t0 < maxsec) {
    progress = false;
    for (size_t k = std::max<size_t>(1, cur.size() / 2); k >= 1; k /= 2) {
      for (size_t i = cur.size() >= k ? cur.size() - k : 0;; ) {
        if (i + k <= cur.size()) {
          std::vector<uint64_t> c(cur.begin(), cur.begin() + i); c.insert(c.end(), cur.begin() + i + k, cur.end());
          if (c.size() < cur.size() && bad(c)) { cur = c; progress = true; }
        }
        if (i < k) break;
        i -= k;
        if (tries >= maxtry || now() - t0 > maxsec) break;
      }
      if (k == 1) break;
    }
    for (size_t i = 0; i < cur.size(); ++i) {
      if (tries >= maxtry || now() - t0 > maxsec) break;
      if (cur[i] == 0) continue;
      std::vector<uint64_t> c = cur; c[i] = 0;
      if (bad(c)) { cur = c; progress = true; continue; }
      uint64_t lo = 0, hi = cur[i];  // binary reduce
      while (hi - lo > 1) { uint64_t mid = lo + (hi - lo) / 2; c = cur; c[i] = mid; if (bad(c)) { cur = c; hi = mid; progress = true; } else lo = mid; if (tries >= maxtry || now() - t0 > maxsec) break; }
    }
    while (!cur.empty() && cur.back() == 0) { std::vector<uint64_t> c(cur.begin(), cur.end() - 1); if (bad(c)) cur = c; else break; }
  }
  return cur;
}

// Re-run, in one fresh process, the last `len` cases of a worker's sequence up to the given one. True if that very case fails again.
// Failures that depend on what earlier cases left behind in the process (heap contents, static data) reproduce this way only.
struct CaseRef { size_t t; uint64_t i; };
inline std::vector<CaseRef> sequence(const std::vector<uint64_t>& counts, int w, int nw, size_t t, uint64_t idx) {
  std::vector<CaseRef> r; for (size_t ti = 0; ti <= t; ++ti) for (uint64_t i = w; i < counts[ti]; i += nw) { r.push_back({ti, i}); if (ti == t && i == idx) break; }
  return r;
}
inline bool run_window(const std::vector<Test>& tests, const std::string& prop, const std::string& variant, uint64_t seed, const std::vector<CaseRef>& seq, size_t len, int w,
                       Shm* sh, std::string* msg, const std::string& errfile) {
  sh->status = 0; sh->msg[0] = 0; sh->repr[0] = 0; sh->nrec = 0; fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd >= 0) { dup2(fd, 2); close(fd); }
    fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 1); close(fd); }
    pubshm() = sh; scratch() += "/w" + std::to_string(w); mkdir(scratch().c_str(), 0700);
    for (size_t k = seq.size() - std::min(len, seq.size()); k < seq.size(); ++k) {
      const Test& t = tests[seq[k].t]; sh->test = seq[k].t; sh->index = seq[k].i; sh->nrec = 0; sh->repr[0] = 0;
      Src s(mix(mix(seed, hashstr(prop + "/" + t.name + "/" + variant)), seq[k].i)); Ctx c; arm_cpu(CPU_LIMIT);
      try { t.fn(s, c); } catch (Violation& v) { snprintf(sh->msg, sizeof sh->msg, "%s", v.msg.c_str()); sh->status = 1; _exit(77); } catch (Discard&) {} catch (std::exception&) { _exit(78); }
    }
    _exit(0);
  }
  int st = 0; waitpid(p, &st, 0);
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 78)) return false;
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGPROF)) return false;
  if (sh->test != (int)seq.back().t || sh->index != seq.back().i) return false;
  *msg = sh->status == 1 ? sh->msg : describe_status(st).c_str();
  return true;
}

inline std::string jesc(const std::string& s) {
  std::string o; char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

inline void write_replay(const std::string& path, const std::string& prop, const std::string& variant, const Test& t,
                         const std::vector<uint64_t>& ch, const std::string& msg, const std::string& repr) {
  std::ofstream f(path);
  f << "property " << prop << "\nvariant " << variant << "\ntest " << t.name << "\nchoices";
  for (uint64_t c : ch) f << ' ' << c;
  f << "\n--- failure\n" << msg << "\n--- case\n" << repr << "\n";
}

inline int run(int argc, char** argv, const std::string& prop, const std::vector<Test>& tests) {
  std::string tier = "quick", out, replay, variant = "plain", replaydir = ".", only, scr = "/tmp";
  std::set<std::pair<std::string, uint64_t>> skip;  // cases to leave out: test:index,...
  uint64_t seed = 1; double maxwall = 500; double scale = 1.0; int nw = (int)sysconf(_SC_NPROCESSORS_ONLN);
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--tier") tier = v; else if (a == "--out") out = v; else if (a == "--replay") replay = v;
    else if (a == "--variant") variant = v; else if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
    else if (a == "--replaydir") replaydir = v; else if (a == "--maxwall") maxwall = atof(v.c_str());
    else if (a == "--scale") scale = atof(v.c_str()); else if (a == "--only") only = v; else if (a == "--workers") nw = atoi(v.c_str());
    else if (a == "--scratch") scr = v;
    else if (a == "--skip") { std::istringstream is(v); std::string e; while (std::getline(is, e, ',')) { size_t k = e.rfind(':'); if (k != std::string::npos) skip.insert({e.substr(0, k), strtoull(e.c_str() + k + 1, 0, 10)}); } }
  }
  if (nw < 1) nw = 1; if (nw > 16) nw = 16;
  scratch() = scr;
  std::string errfile = scr + "/replay.err";
  if (!replay.empty()) {
    std::ifstream f(replay); std::string k, tn; std::vector<uint64_t> ch; std::string line;
    while (std::getline(f, line)) {
      std::istringstream is(line); is >> k;
      if (k == "test") is >> tn;
      if (k == "sequence") {
        uint64_t sd; int w; size_t n; is >> sd >> w >> n; std::vector<CaseRef> seq; CaseRef it; while (is >> it.t >> it.i) seq.push_back(it);
        std::string m, v = variant; { std::ifstream g(replay); std::string a, b; while (g >> a >> b) if (a == "variant") { v = b; break; } }
        Shm* sh = newshm(); bool bad = run_window(tests, prop, v, sd, seq, n, w, sh, &m, errfile); printf("%s\n%s\n%s\n", bad ? "FAIL" : "PASS", m.c_str(), sh->repr); return bad ? 1 : 0;
      }
      if (k == "choices") { uint64_t x; while (is >> x) ch.push_back(x); break; }
    }
    for (auto& t : tests) if (t.name == tn) {
      std::string m, r; std::vector<uint64_t> rec; Shm* sh = newshm();
      int rc = run_isolated(t, ch, sh, &m, &r, &rec, errfile);
      printf("%s\n%s\n%s\n", rc == 1 ? "FAIL" : "PASS", m.c_str(), rc == 1 ? r.c_str() : sh->repr);
      return rc == 1 ? 1 : 0;
    }
    fprintf(stderr, "test %s not found\n", tn.c_str());
    return 3;
  }
  std::vector<uint64_t> counts;
  for (auto& t : tests) {
    uint64_t n = tier == "quick" ? t.quick : t.thorough;
    n = (uint64_t)(n * scale);
    if (!only.empty() && only != t.name) n = 0;
    counts.push_back(n);
  }
  std::vector<pid_t> pids; std::vector<Shm*> shms; std::vector<std::string> files;
  double t0 = now();
  fflush(stdout);
  for (int w = 0; w < nw; ++w) {
    Shm* sh = newshm(); shms.push_back(sh);
    std::string sf = scr + "/stats." + std::to_string(w); files.push_back(sf); unlink(sf.c_str());
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); close(fd);
      pubshm() = sh;
      scratch() = scr + "/w" + std::to_string(w); mkdir(scratch().c_str(), 0700);
      uint64_t evals = 0, nontriv = 0, disc = 0; std::unordered_set<uint64_t> dist; std::map<std::string, uint64_t> cls; std::vector<std::string> samples;
      int rc = 0;
      for (size_t ti = 0; ti < tests.size() && !rc; ++ti) {
        const Test& t = tests[ti];
        for (uint64_t i = w; i < counts[ti]; i += nw) {
          if (now() - t0 > maxwall) { cls["stopped-by-wall-budget"]++; break; }
          if (!skip.empty() && skip.count({t.name, i})) continue;
          sh->test = ti; sh->index = i;
          uint64_t cs = mix(mix(seed, hashstr(prop + "/" + t.name + "/" + variant)), i);
          sh->nrec = 0; sh->repr[0] = 0;
          Src s(cs); Ctx c;
          arm_cpu(CPU_LIMIT);
          try {
            t.fn(s, c);
            ++evals;
            for (auto& kv : c.classes) cls[t.name + ":" + kv.first] += kv.second;
            cls[t.name + ":cases"]++;
            if (c.nontrivial) {
              uint64_t h = hashstr(t.name); for (uint64_t x : s.rec) h = mix(h, x);
              if (dist.insert(h).second) { ++nontriv; cls[t.name + ":nontrivial"]++; }
              if (samples.size() < 2 && (i / nw) % 7 == 3 && c.repr.size() < 1500 && !c.repr.empty()) samples.push_back(t.name + ": " + c.repr);
            }
          } catch (Violation& v) {
            snprintf(sh->msg, sizeof sh->msg, "%s", v.msg.c_str());
            sh->status = 1; rc = 77; break;
          } catch (Discard&) { ++disc; }
          catch (std::exception& e) { snprintf(sh->msg, sizeof sh->msg, "harness exception: %s", e.what()); sh->status = 4; rc = 78; break; }
        }
      }
      arm_cpu(0);
      std::ofstream f(sf);
      f << "evals " << evals << "\ndiscards " << disc << "\n";
      for (uint64_t h : dist) f << "h " << h << "\n";
      for (auto& kv : cls) f << "c " << kv.second << " " << kv.first << "\n";
      for (auto& s : samples) f << "s " << jesc(s) << "\n";
      f.close();
      _exit(rc);
    }
    pids.push_back(p);
  }
  int failed = -1, fstatus = 0; int left = nw; std::string harness_err;
  while (left > 0) {
    int st; pid_t p = wait(&st);
    if (p < 0) break;
    int w = -1; for (int i = 0; i < nw; ++i) if (pids[i] == p) w = i;
    if (w < 0) continue;
    --left; pids[w] = 0;
    bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    if (!ok && failed < 0) {
      if (WIFEXITED(st) && WEXITSTATUS(st) == 78) { harness_err = shms[w]->msg; continue; }
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { harness_err = "worker killed (out of memory?)"; }
      failed = w; fstatus = st;
      for (pid_t q : pids) if (q > 0) kill(q, SIGKILL);
    }
  }
  // merge statistics
  uint64_t evals = 0, disc = 0; std::unordered_set<uint64_t> dist; std::map<std::string, uint64_t> cls; std::vector<std::string> samples;
  for (auto& sf : files) {
    std::ifstream f(sf); std::string line;
    while (std::getline(f, line)) {
      std::istringstream is(line); std::string k; is >> k;
      if (k == "evals") { uint64_t x; is >> x; evals += x; } else if (k == "discards") { uint64_t x; is >> x; disc += x; }
      else if (k == "h") { uint64_t x; is >> x; dist.insert(x); }
      else if (k == "c") { uint64_t n; is >> n; std::string r; std::getline(is, r); cls[r.substr(1)] += n; }
      else if (k == "s") { if (samples.size() < 6) samples.push_back(line.substr(2)); }
    }
  }
  int rc = 0; std::string rp, vmsg, unrep;
  if (failed >= 0) {
    Shm* fs = shms[failed];
    const Test& t = tests[fs->test];
    std::vector<uint64_t> ch;
    ch.assign(fs->rec, fs->rec + fs->nrec);
    Shm* sh = newshm(); std::string m, r; std::vector<uint64_t> rec;
    int fails = 0; bool hang = WIFSIGNALED(fstatus) && WTERMSIG(fstatus) == SIGPROF;
    for (int k = 0; k < 3; ++k) if (run_isolated(t, ch, sh, &m, &r, &rec, errfile) == 1) ++fails;
    if (fails == 3) {
      auto small = hang ? ch : shrink(t, rec.empty() ? ch : rec, sh, errfile, tier == "quick" ? 45 : 120, 4000);
      int f2 = 0; std::vector<uint64_t> rec2;
      if (hang) f2 = 3;
      else for (int k = 0; k < 3; ++k) if (run_isolated(t, small, sh, &m, &r, &rec2, errfile) == 1) ++f2;
      if (f2 < 3) { small = ch; run_isolated(t, small, sh, &m, &r, &rec2, errfile); }
      rp = replaydir + "/" + prop + "-" + t.name + "-" + variant + ".replay";
      write_replay(rp, prop, variant, t, small, m, r);
      vmsg = t.name + ": " + m;
      rc = 1;
    } else if (!hang && fs->status != 4 && [&] {
      // not on its own; after some of the cases before it?
      auto seq = sequence(counts, failed, nw, fs->test, fs->index); if (!skip.empty()) seq.erase(std::remove_if(seq.begin(), seq.end(), [&](const CaseRef& x) { return skip.count({tests[x.t].name, x.i}) > 0; }), seq.end());
      double w0 = now(), lim = tier == "quick" ? 90 : 300;
      for (size_t len = 2;; len *= 4) {
        if (run_window(tests, prop, variant, seed, seq, len, failed, sh, &m, errfile) && run_window(tests, prop, variant, seed, seq, len, failed, sh, &m, errfile)) {
          rp = replaydir + "/" + prop + "-" + t.name + "-" + variant + ".replay"; r = sh->repr;
          std::ofstream f(rp); f << "property " << prop << "\nvariant " << variant << "\ntest " << t.name << "\nsequence " << seed << ' ' << failed << ' ' << std::min(len, seq.size());
          for (size_t k = seq.size() - std::min(len, seq.size()); k < seq.size(); ++k) f << ' ' << seq[k].t << ' ' << seq[k].i;
          f << "\n--- failure\n" << m << "\n(fails only after the cases before it in one process)\n--- case\n" << r << "\n";
          vmsg = t.name + ": " + m + " (after " + std::to_string(std::min(len, seq.size()) - 1) + " other cases in the same process)"; rc = 1; return true;
        }
        if (len >= seq.size() || now() - w0 > lim) return false;
      }
    }()) {
    } else {
      harness_err = "failure of " + t.name + " case " + std::to_string(fs->index) + " did not reproduce (" + std::to_string(fails) + "/3): " +
                    std::string(fs->status == 1 ? fs->msg : describe_status(fstatus).c_str());
      rc = 4;
      // leave what is needed to try the case again elsewhere (another build)
      unrep = t.name + ":" + std::to_string(fs->index);
      if (fs->status != 4) write_replay(scr + "/unreproduced.replay", prop, variant, t, ch, harness_err, fs->repr);
    }
  } else if (!harness_err.empty()) rc = 5;
  std::ofstream f(out.empty() ? "/dev/stdout" : out);
  f << "{\"rc\":" << rc << ",\"evaluations\":" << evals << ",\"discards\":" << disc << ",\"distinct\":" << dist.size() << ",\"wall\":" << (now() - t0);
  f << ",\"classes\":{"; bool first = true;
  for (auto& kv : cls) { f << (first ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second; first = false; }
  f << "},\"samples\":["; first = true;
  for (auto& s : samples) { f << (first ? "" : ",") << "\"" << s << "\""; first = false; }
  f << "],\"unreproduced\":\"" << jesc(unrep) << "\",\"replay\":\"" << jesc(rp) << "\",\"message\":\"" << jesc(vmsg) << "\",\"harness_error\":\"" << jesc(harness_err) << "\"}\n";
  return rc;
}

}  // namespace pbt
