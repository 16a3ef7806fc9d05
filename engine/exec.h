// Path-exhaustive concolic interpreter: every path runs under a concrete model; at each decision whose outcome
// depends on symbolic data the solver is asked whether the other outcome is possible under the path condition.
#pragma once
#include "program.h"
#include "solver.h"
#include <sys/mman.h>
#include <cmath>
#include <cstdlib>
#include <deque>
#include <unordered_map>
#include <unordered_set>
#include <mutex>
#include <atomic>
#include <condition_variable>

namespace bsx {

struct Job { int entry = 0; uint32_t len = 0; std::vector<u64> model; std::vector<uint8_t> kinds; bool isValue = false; std::vector<u64> excl; };
struct Violation { int entry; std::string kind, msg, where, known; std::vector<std::pair<std::string, i64>> inputs; };
struct Trace { int entry; std::vector<std::pair<std::string, i64>> inputs; std::vector<u64> obs; };

struct PathEnd { enum K { OK, VIOL, PRUNED, UNSUPPORTED, LIMIT } k; std::string kind, msg; };

struct Builtins {
  std::unordered_map<std::string, int> ids; std::vector<std::string> names;
  int get(const std::string& n) { auto it = ids.find(n); return it == ids.end() ? -1 : it->second; }
};
enum BI {
  B_NONE = 0, B_NOP, B_RANGE, B_ASSUME, B_ASSERT, B_OBSERVE, B_REACH, B_CONC, B_KNOWN, B_ISSYM, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWALIGN, B_ALIGNED_ALLOC, B_DELETE,
  B_MEMCPY, B_MEMSET, B_MEMCMP, B_BCMP, B_STRLEN, B_MEMCHR, B_ABORT, B_THROW_STD, B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_CXA_RETHROW, B_GETEXC,
  B_GUARD_ACQ, B_GUARD_REL, B_ATEXIT, B_TERMINATE, B_MATH1, B_MATH2, B_RET0, B_RET1, B_CLOCK, B_TYPEIDFOR,
  B_NEXTBKT, B_NEEDREHASH, B_HASHBYTES, B_EXC_CTOR, B_UMINMAX, B_ABS, B_OVF, B_BITS, B_FSH, B_EXPECT, B_OBJSIZE, B_LAUNDER, B_RDGETVAL, B_SATURATE,
  B_OMP_FORK, B_OMP_STATIC_INIT8U, B_OMP_STATIC_INIT8, B_OMP_STATIC_INIT4, B_OMP_STATIC_INIT4U, B_OMP_SINGLE, B_OMP_BARRIER, B_OMP_CRIT, B_OMP_ENDCRIT, B_OMP_TASK_ALLOC, B_OMP_TASK, B_OMP_TASKWAIT, B_OMP_GTID, B_OMP_TID, B_OMP_NT, B_OMP_MAXT, B_OMP_MASTER, B_BADALLOC, B_POP, B_FAIL, B_OMP_DISPATCH, B_OMP_ENDSINGLE, B_OMP_SETT, B_THREADS
};

struct Shared {
  Program* P; std::vector<DFunc*> entries; std::vector<std::string> entryNames;
  std::mutex mu; std::condition_variable cv; std::deque<Job> queue; int idle = 0, nworkers = 1; std::atomic<bool> stop{false};
  double budget = 60, pathSeconds = 10; std::chrono::steady_clock::time_point t0;
  u64 maxInstr = 200000000; unsigned qtimeout = 10000; unsigned maxViol = 3; bool stopFirst = false; unsigned nsamples = 20;
  // results
  struct ES { u64 paths = 0, pruned = 0, events = 0, forks = 0, asserts = 0, assertq = 0, unsupported = 0, limit = 0, unknown = 0, instr = 0, maxdepth = 0; u64 queued = 0; bool stopped = false; std::map<std::string, u64> reach; std::vector<Violation> viol; std::vector<Trace> traces; u64 seen = 0; std::set<std::string> unsup; std::map<std::string, u64> knownhits; };
  std::vector<ES> es; u64 nq = 0, nsat = 0, nunsat = 0, nunk = 0; double tsec = 0;
  std::vector<std::string> exhaustedWhy; u64 rng = 1; u64 diverged = 0;
};

struct ExcObj { u64 obj, type; bool std_; };

struct Exec {
  Shared& S; Program& P; Pool pool; Solver* solver; 
  // memory
  static const u64 STACK0 = 0x10000000, STACKSZ = 0x8000000, HEAP0 = 0x40000000, HEAPMAX = 0x100000000ull;
  uint8_t *mem, *st; u64 sp, hp, hpBase = HEAP0, spMax; 
  struct SymE { u64 addr; const Expr* e; uint32_t gen; uint8_t idx; };
  std::vector<SymE> sym; uint32_t symgen = 1; size_t symcount = 0;
  std::unordered_map<u64, u64> allocs; // heap object sizes (live)
  std::vector<uint8_t> baseHeapMem, baseHeapSt, baseGMem; std::unordered_map<u64, u64> baseAllocs; bool haveBase = false;
  struct Frame { DFunc* f; int pc; unsigned rb; u64 spSave; const DI* callsite; Extra* cx; bool boundary; };
  std::vector<Frame> fr; std::vector<Val> R; unsigned rtop = 0;
  // path state
  Job job; std::vector<u64> model; std::vector<const Expr*> pc; std::vector<const Expr*> vars; std::vector<std::string> varnames; std::vector<uint8_t> kinds;
  uint32_t ev; std::unordered_set<const Expr*> known; u64 icount, ilimit; std::vector<u64> obs; std::vector<Job> local; u64 clockv; u64 exc_cur = 0, exc_type = 0; std::vector<u64> caught; std::unordered_map<u64, u64> excTypes; 
  std::vector<u64> caughtTypes; std::string curKnown; const Expr* curKnownE = nullptr; bool concreteOnly = false; uint32_t uninitn = 0;
  Shared::ES les; // local stats for current entry (merged per path)
  // openmp
  int ompTid = 0, ompNT = 1, ompLevel = 0, ompMax = 2; bool inSingleTaken = false; u64 ompEpoch = 0; bool inCrit = false;
  struct Acc { int w = -1; u64 we = 0; uint32_t rmask = 0; u64 re = 0; bool wc = false, rc = false; }; std::unordered_map<u64, Acc> accs; u64 raceBaseHp = 0;
  u64 regionId = 0; std::vector<int> taskStack; int nextTask = 1;

  Exec(Shared& s) : S(s), P(*s.P) {
    solver = new Solver(pool, s.qtimeout);
    mem = (uint8_t*)mmap(nullptr, HEAPMAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    st = (uint8_t*)mmap(nullptr, HEAPMAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (mem == MAP_FAILED || st == MAP_FAILED) throw std::runtime_error("mmap failed");
    sym.resize(1 << 14); R.resize(1 << 20); hp = HEAP0; sp = STACK0; spMax = STACK0;
    memcpy(mem + Program::GBASE, P.gmem.data(), P.gmem.size()); memcpy(st + Program::GBASE, P.gst.data(), P.gst.size());
  }
  ~Exec() { delete solver; munmap(mem, HEAPMAX); munmap(st, HEAPMAX); }

  [[noreturn]] void violate(const std::string& kind, const std::string& msg) { throw PathEnd{PathEnd::VIOL, kind, msg}; }
  [[noreturn]] void unsupported(const std::string& m) { throw PathEnd{PathEnd::UNSUPPORTED, "unsupported", m}; }
  std::string where() {
    std::string s; int n = 0;
    for (int i = (int)fr.size() - 1; i >= 0 && n < 12; i--, n++) { auto& f = fr[i]; const DI* d = i == (int)fr.size() - 1 ? (f.pc < (int)f.f->code.size() ? &f.f->code[f.pc] : nullptr) : fr[i + 1].callsite; s += (n ? " < " : "") + f.f->name + ":" + (d ? std::to_string(d->line) : "?"); }
    return s;
  }
  // ---------- symbolic shadow ----------
  static u64 hsh(u64 a) { a *= 0x9e3779b97f4a7c15ull; return a ^ (a >> 31); }
  void symPut(u64 addr, const Expr* e, uint8_t idx) {
    if (symcount * 2 > sym.size()) { std::vector<SymE> o; o.swap(sym); sym.resize(o.size() * 2); symcount = 0; for (auto& x : o) if (x.gen == symgen) symPut(x.addr, x.e, x.idx); }
    size_t i = hsh(addr) & (sym.size() - 1); while (sym[i].gen == symgen && sym[i].addr != addr) i = (i + 1) & (sym.size() - 1);
    if (sym[i].gen != symgen) symcount++;
    sym[i] = SymE{addr, e, symgen, idx};
  }
  SymE* symGet(u64 addr) { size_t i = hsh(addr) & (sym.size() - 1); while (sym[i].gen == symgen) { if (sym[i].addr == addr) return &sym[i]; i = (i + 1) & (sym.size() - 1); } return nullptr; }

  // ---------- memory ----------
  void badAccess(u64 a, unsigned n, const char* what) {
    if (a < 4096) violate("memory", std::string("null-pointer ") + what);
    bool freed = false; if (a + n <= HEAPMAX) for (unsigned i = 0; i < n; i++) if (st[a + i] == 4) freed = true;
    violate("memory", std::string(freed ? "use of freed memory (" : "out-of-bounds (") + what + ")");
  }
  inline void chk(u64 a, unsigned n, const char* what) { if (a < Program::GBASE || a + n > HEAPMAX) badAccess(a, n, what); for (unsigned i = 0; i < n; i++) { uint8_t s = st[a + i]; if (s == 0 || s == 4) badAccess(a, n, what); } }
  void race(u64 a, unsigned n, bool w) { race2(a, n, w); }
  u64 raceSp = 0;
  Val loadv(u64 a, unsigned n, unsigned w) {
    if (a >= Program::GBASE && a + n <= HEAPMAX) {
      if (ompLevel) race(a, n, false);
      u64 s = 0, v = 0; memcpy(&s, st + a, n); memcpy(&v, mem + a, n);
      u64 full = n >= 8 ? 0x0202020202020202ull : (0x0202020202020202ull & ((1ull << (8 * n)) - 1));
      if (s == full) return Val{v & maskw(w), nullptr};
    } else badAccess(a, n, "read");
    chk(a, n, "read");
    // symbolic or uninitialised bytes
    u64 v = 0; memcpy(&v, mem + a, n);
    bool anysym = false; for (unsigned i = 0; i < n; i++) if (st[a + i] != 2) anysym = true;
    if (!anysym) return Val{v & maskw(w), nullptr};
    if (concreteOnly) return Val{v & maskw(w), nullptr};
    const Expr* e = nullptr; 
    if (st[a] == 3) { SymE* s0 = symGet(a); if (s0 && s0->idx == 0 && s0->e->w == 8 * n) { bool ok = true; for (unsigned i = 1; i < n; i++) { SymE* si = st[a + i] == 3 ? symGet(a + i) : nullptr; if (!si || si->e != s0->e || si->idx != i) { ok = false; break; } } if (ok) e = s0->e; } 
      else if (s0 && s0->idx == 0 && s0->e->w < 8 && n == 1) e = s0->e; }
    if (!e) {
      for (unsigned i = 0; i < n; i++) {
        const Expr* b;
        if (st[a + i] == 3) { SymE* si = symGet(a + i); b = si->e; if (b->op == E_I2D) b = concretizeDouble(si->e, a, i); else if (b->w < 8) b = pool.zext(b, 8); else { unsigned lo = si->idx * 8; b = lo + 8 <= b->w ? pool.extract(b, lo, 8) : pool.zext(pool.extract(b, lo, b->w - lo), 8); } }
        else if (st[a + i] == 2) b = pool.cst(mem[a + i], 8);
        else b = uninitByte();
        e = e ? pool.concat(b, e) : b;
      }
    }
    if (e->w > w) e = pool.extract(e, 0, w); else if (e->w < w) e = pool.zext(e, w);
    return Val{v & maskw(w), e->op == E_CONST ? nullptr : e};
  }
  const Expr* uninitByte() { return pool.var(1000000 , "uninit", 0, 255, 8, true); }
  const Expr* concretizeDouble(const Expr* e, u64 a, unsigned i) { Val t{e->a->op == E_CONST ? e->a->imm : 0, e->a}; Evaluator E; E.gen = ++evalgen; u64 v = E.eval(e->a, model); concretize(Val{v, e->a}); double d = (double)(i64)v; u64 bits; memcpy(&bits, &d, 8); return pool.cst(bits >> (8 * (symGet(a + i)->idx)), 8); }
  uint32_t evalgen = 0;
  void storev(u64 a, unsigned n, Val v) {
    if (a < Program::GBASE || a + n > HEAPMAX) badAccess(a, n, "write");
    u64 s = 0; memcpy(&s, st + a, n);
    for (unsigned i = 0; i < n; i++) { uint8_t b = (uint8_t)(s >> (8 * i)); if (b == 0 || b == 4) badAccess(a, n, "write"); }
    if (ompLevel) race(a, n, true);
    memcpy(mem + a, &v.c, n);
    if (!v.e || concreteOnly) { memset(st + a, 2, n); return; }
    for (unsigned i = 0; i < n; i++) { symPut(a + i, v.e, i); st[a + i] = 3; }
  }
  void copymem(u64 d, u64 s, u64 n) {
    if (!n) return; if (n > (1u << 28)) violate("memory", "huge memory copy");
    chk(s, n, "read"); chk(d, n, "write");
    if (ompLevel) { race(s, n, false); race(d, n, true); }
    bool anysym = false; for (u64 i = 0; i < n; i++) if (st[s + i] == 3) { anysym = true; break; }
    if (anysym) { std::vector<SymE> tmp(n); for (u64 i = 0; i < n; i++) if (st[s + i] == 3) tmp[i] = *symGet(s + i); std::vector<uint8_t> ss(st + s, st + s + n); memmove(mem + d, mem + s, n); memcpy(st + d, ss.data(), n); for (u64 i = 0; i < n; i++) if (ss[i] == 3) symPut(d + i, tmp[i].e, tmp[i].idx); }
    else { memmove(mem + d, mem + s, n); memmove(st + d, st + s, n); }
  }
  u64 halloc(u64 n, unsigned align = 16) {
    if (n > 0x10000000) throw PathEnd{PathEnd::VIOL, "memory", "huge allocation request"};
    if (align < 16) align = 16;
    u64 p = (hp + 16 + align - 1) & ~(u64)(align - 1); u64 e = p + n; if (e + 64 > HEAPMAX) throw PathEnd{PathEnd::LIMIT, "limit", "heap exhausted"};
    memset(st + p, 1, n); allocs[p] = n; hp = (e + 15) & ~15ull; return p;
  }
  void hfree(u64 p) {
    if (!p) return; auto it = allocs.find(p);
    if (it == allocs.end()) violate("memory", (p < HEAPMAX && p > Program::GBASE && st[p] == 4) ? "double free" : "invalid free");
    memset(st + p, 4, it->second); allocs.erase(it);
  }
  std::string cstr(u64 a) { std::string s; while (a >= Program::GBASE && a < HEAPMAX && st[a] >= 2 && st[a] != 4 && mem[a] && s.size() < 300) s += (char)mem[a++]; return s; }

  // ---------- decisions ----------
  void resetKnown() { known.clear(); }
  double pathT0 = 0; static double cpuNow() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
  void tick() { auto now = std::chrono::steady_clock::now(); if (std::chrono::duration<double>(now - S.t0).count() > S.budget) S.stop = true; if (S.stop.load(std::memory_order_relaxed)) throw PathEnd{PathEnd::LIMIT, "limit", "time"}; if (S.es[job.entry].stopped) throw PathEnd{PathEnd::LIMIT, "limit", "entry stopped"};
    if (!concreteOnly && cpuNow() - pathT0 > S.pathSeconds) violate("nontermination", "path time limit exceeded"); }
  std::string exprs(const Expr* e, int d = 0) { if (d > 6) return "..."; static const char* nm[] = {"c","var","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","zext","sext","extract","concat","==","<u","<=u","<s","<=s","ite","i2d"}; if (e->op == E_CONST) return std::to_string(sx(e->imm, e->w)); if (e->op == E_VAR) return pool.info(e).name; std::string r = std::string("(") + nm[e->op]; if (e->a) r += " " + exprs(e->a, d + 1); if (e->b) r += " " + exprs(e->b, d + 1); if (e->c) r += " " + exprs(e->c, d + 1); return r + ")"; }
  void fork(const std::vector<u64>& m, uint32_t len, bool isValue, std::vector<u64> excl, uint8_t lastdir) {
    Job j; j.entry = job.entry; j.len = len; j.model = m; j.kinds = kinds; if (j.kinds.size() < len) j.kinds.resize(len); j.kinds[len - 1] = lastdir; j.isValue = isValue; j.excl = std::move(excl);
    local.push_back(std::move(j)); les.forks++;
  }
  bool decide(const Expr* e, bool cur) {
    if (e->uninit) violate("uninit", "decision depends on uninitialised memory");
    const Expr* t = cur ? e : pool.lnot(e);
    if (t->op == E_CONST) return cur;
    if (known.count(t)) return cur;
    uint32_t i = ev++; les.events++; tick();
    if (i < job.len) {
      uint8_t k = kinds[i]; // bit0 forced, bit1 direction, bit2 value
      if (((k >> 1) & 1) != (cur ? 1 : 0)) { diverged(); }
      if (!(k & 1)) pc.push_back(t);
      known.insert(t); return cur;
    }
    std::vector<u64> m = model; int r = solver->check(pc, pc.size(), pool.lnot(t), vars, &m);
    uint8_t k = cur ? 2 : 0;
    if (r == 0) k |= 1;
    kinds.resize(i + 1); kinds[i] = k;
    if (r == 1) { fork(m, i + 1, false, {}, cur ? 0 : 2); }
    else if (r < 0) les.unknown++;
    if (!(k & 1)) pc.push_back(t);
    known.insert(t); return cur;
  }
  [[noreturn]] void diverged() { throw PathEnd{PathEnd::UNSUPPORTED, "unsupported", "internal divergence on re-execution"}; }
  u64 concretize(Val v) {
    if (!v.e) return v.c;
    if (v.e->uninit) violate("uninit", "address, size or switch depends on uninitialised memory");
    if (v.e->w == 1) { decide(v.e, v.c & 1); return v.c; }
    const Expr* eq = pool.cmp(E_EQ, v.e, pool.cst(v.c, v.e->w));
    if (eq->op == E_CONST || known.count(eq)) return v.c;
    uint32_t i = ev++; les.events++; tick();
    bool fresh = i >= job.len; bool re = !fresh && i + 1 == job.len && job.isValue;
    if (!fresh && !re) { if (!(kinds[i] & 1)) pc.push_back(eq); known.insert(eq); return v.c; }
    std::vector<u64> excl; if (re) excl = job.excl; 
    const Expr* q = pool.lnot(eq); for (u64 x : excl) q = pool.bin(E_AND, q, pool.lnot(pool.cmp(E_EQ, v.e, pool.cst(x, v.e->w))));
    std::vector<u64> m = model; int r = solver->check(pc, pc.size(), q, vars, &m);
    uint8_t k = 4; if (r == 0 && excl.empty()) k |= 1;
    if (kinds.size() < i + 1) kinds.resize(i + 1); kinds[i] = k;
    if (r == 1) { excl.push_back(v.c); fork(m, i + 1, true, excl, 4); } else if (r < 0) les.unknown++;
    if (!(k & 1)) pc.push_back(eq);
    known.insert(eq); return v.c;
  }
  void assume(Val v) {
    if (!v.e) { if (!(v.c & 1)) throw PathEnd{PathEnd::PRUNED, "", ""}; return; }
    if (v.e->uninit) violate("uninit", "assumption depends on uninitialised memory");
    if (v.c & 1) { if (!known.count(v.e)) { pc.push_back(v.e); known.insert(v.e); } return; }
    std::vector<u64> m = model; int r = solver->check(pc, pc.size(), v.e, vars, &m);
    if (r < 0) les.unknown++;
    if (r == 1) { Job j; j.entry = job.entry; j.len = ev; j.model = m; j.kinds = kinds; j.kinds.resize(ev); // events so far were already expanded by this run
      // if the current job was itself re-expanding a value event at its end, that has been done in this run
      j.isValue = false; local.push_back(std::move(j)); }
    throw PathEnd{PathEnd::PRUNED, "", ""};
  }
  // report a violation with a specific model
  void report(const std::string& kind, const std::string& msg, const std::vector<u64>& m, const std::string& kn) {
    Violation v; v.entry = job.entry; v.kind = kind; v.msg = msg; v.where = where(); v.known = kn;
    for (size_t i = 0; i < vars.size(); i++) v.inputs.push_back({varnames[i], sx(i < m.size() ? m[i] : 0, vars[i]->w)});
    les.viol.push_back(v);
  }
  void assertv(Val v, const std::string& msg) {
    les.asserts++;
    if (!v.e) { if (!(v.c & 1)) { if (curKnown.empty()) violate("assert", msg); throw PathEnd{PathEnd::VIOL, "assert", msg}; } return; }
    if (v.e->uninit) violate("uninit", "asserted value depends on uninitialised memory: " + msg);
    if (!(v.c & 1)) { // the current model itself is a counterexample; other values continue on a new path
      uint32_t i = ev++; if (i >= job.len) { std::vector<u64> m = model; int r = solver->check(pc, pc.size(), v.e, vars, &m); les.assertq++; kinds.resize(i + 1); kinds[i] = 0; if (r == 1) fork(m, i + 1, false, {}, 2); else if (r < 0) les.unknown++; }
      violate("assert", msg);
    }
    if (known.count(v.e)) return;
    uint32_t i = ev++; les.events++; tick();
    if (i < job.len) { if (!(kinds[i] & 1)) pc.push_back(v.e); known.insert(v.e); return; }
    std::vector<u64> m = model; int r = solver->check(pc, pc.size(), pool.lnot(v.e), vars, &m); les.assertq++;
    kinds.resize(i + 1); kinds[i] = r == 0 ? 3 : 2;
    if (r == 1) { report("assert", msg, m, curKnown); pc.push_back(v.e); }
    else if (r < 0) { les.unknown++; pc.push_back(v.e); }
    known.insert(v.e);
  }
  // ---------- values ----------
  inline const Expr* E(const Val& v, unsigned w) { return v.e ? v.e : pool.cst(v.c, w); }
  static Val mkv(u64 c, const Expr* e) { return Val{c, e && e->op == E_CONST ? nullptr : e}; }
  bool intOf(const Val& v, unsigned w, const Expr*& ie) { // exact integer view of a double
    if (v.e) { if (v.e->op == E_I2D) { ie = v.e->a; return true; } return false; }
    double d; if (w == 64) memcpy(&d, &v.c, 8); else { float f; uint32_t t = v.c; memcpy(&f, &t, 4); d = f; }
    if (!(d == std::floor(d)) || std::fabs(d) > 4e15) return false;
    ie = pool.cst((u64)(i64)d, 64); return true;
  }
  Val i2d(const Expr* ie, double c) { u64 b; memcpy(&b, &c, 8); if (ie->op == E_CONST) return Val{b, nullptr}; return Val{b, pool.mk(E_I2D, 64, ie, nullptr, nullptr, 0)}; }
  double D(const Val& v, unsigned w) { if (w == 64) { double d; memcpy(&d, &v.c, 8); return d; } float f; uint32_t t = (uint32_t)v.c; memcpy(&f, &t, 4); return f; }
  static u64 dbits(double d, unsigned w) { if (w == 64) { u64 b; memcpy(&b, &d, 8); return b; } float f = (float)d; uint32_t b; memcpy(&b, &f, 4); return b; }
  // make a floating value concrete (forks over its possible values when it is integer valued)
  Val fconc(Val v) { if (!v.e) return v; if (v.e->op == E_I2D) { double d; memcpy(&d, &v.c, 8); concretize(Val{(u64)(i64)d, v.e->a}); return Val{v.c, nullptr}; } concretize(v); return Val{v.c, nullptr}; }
  Val fbin(unsigned op, Val a, Val b, unsigned w) {
    double x = D(a, w), y = D(b, w), r;
    if (a.e || b.e) {
      const Expr *ia, *ib;
      if (op <= 2 && w == 64 && intOf(a, w, ia) && intOf(b, w, ib)) {
        r = op == 0 ? x + y : op == 1 ? x - y : x * y;
        const Expr* e = pool.bin(op == 0 ? E_ADD : op == 1 ? E_SUB : E_MUL, ia, ib);
        if (e->smin > -(1ll << 52) && e->smax < (1ll << 52)) { if (r == 0) r = 0.0; return i2d(e, r); }
      }
      if (!a.e && op <= 1 && std::isinf(x)) return Val{dbits(op == 0 ? x + y : x - y, w), nullptr};
      if (!b.e && op <= 1 && std::isinf(y)) return Val{dbits(op == 0 ? x + y : x - y, w), nullptr};
      a = fconc(a); b = fconc(b);
    }
    if (w == 32) { float fx = x, fy = y, fr; switch (op) { case 0: fr = fx + fy; break; case 1: fr = fx - fy; break; case 2: fr = fx * fy; break; case 3: fr = fx / fy; break; default: fr = std::fmod(fx, fy); } return Val{dbits(fr, 32), nullptr}; }
    switch (op) { case 0: r = x + y; break; case 1: r = x - y; break; case 2: r = x * y; break; case 3: r = x / y; break; default: r = std::fmod(x, y); }
    return Val{dbits(r, w), nullptr};
  }
  Val fcmp(unsigned pred, Val a, Val b, unsigned w) {
    double x = D(a, w), y = D(b, w); bool un = std::isnan(x) || std::isnan(y); bool r;
    switch (pred) {
    case FCmpInst::FCMP_FALSE: return Val{0, nullptr}; case FCmpInst::FCMP_TRUE: return Val{1, nullptr};
    case FCmpInst::FCMP_OEQ: r = x == y; break; case FCmpInst::FCMP_OGT: r = x > y; break; case FCmpInst::FCMP_OGE: r = x >= y; break; case FCmpInst::FCMP_OLT: r = x < y; break; case FCmpInst::FCMP_OLE: r = x <= y; break; case FCmpInst::FCMP_ONE: r = !un && x != y; break; case FCmpInst::FCMP_ORD: r = !un; break;
    case FCmpInst::FCMP_UEQ: r = un || x == y; break; case FCmpInst::FCMP_UGT: r = un || x > y; break; case FCmpInst::FCMP_UGE: r = un || x >= y; break; case FCmpInst::FCMP_ULT: r = un || x < y; break; case FCmpInst::FCMP_ULE: r = un || x <= y; break; case FCmpInst::FCMP_UNE: r = un || x != y; break; default: r = un;
    }
    if (!a.e && !b.e) return Val{r, nullptr};
    const Expr *ia = nullptr, *ib = nullptr; bool oa = intOf(a, w, ia), ob = intOf(b, w, ib);
    if (!(oa && ob)) {
      // one side symbolic integer, the other a non-integral / infinite / nan constant
      if ((oa && a.e && !b.e) || (ob && b.e && !a.e)) {
        bool left = a.e != nullptr; double k = left ? y : x; const Expr* ie = left ? ia : ib;
        if (std::isnan(k) || std::isinf(k) || std::fabs(k) > 4e15) return Val{r, nullptr};
        if (pred == FCmpInst::FCMP_ORD || pred == FCmpInst::FCMP_UNO) return Val{r, nullptr};
        i64 fl = (i64)std::floor(k); const Expr* f = pool.cst((u64)fl, 64); // k strictly between fl and fl+1
        const Expr* lt = pool.cmp(E_SLE, ie, f); // ie < k
        const Expr* res;
        switch (pred) { case FCmpInst::FCMP_OEQ: case FCmpInst::FCMP_UEQ: return Val{0, nullptr}; case FCmpInst::FCMP_ONE: case FCmpInst::FCMP_UNE: return Val{1, nullptr};
        case FCmpInst::FCMP_OLT: case FCmpInst::FCMP_ULT: case FCmpInst::FCMP_OLE: case FCmpInst::FCMP_ULE: res = left ? lt : pool.lnot(lt); break;
        default: res = left ? pool.lnot(lt) : lt; }
        return mkv(r, res);
      }
      a = fconc(a); b = fconc(b); return Val{r, nullptr};
    }
    const Expr* e;
    switch (pred) {
    case FCmpInst::FCMP_OEQ: case FCmpInst::FCMP_UEQ: e = pool.cmp(E_EQ, ia, ib); break;
    case FCmpInst::FCMP_ONE: case FCmpInst::FCMP_UNE: e = pool.lnot(pool.cmp(E_EQ, ia, ib)); break;
    case FCmpInst::FCMP_OLT: case FCmpInst::FCMP_ULT: e = pool.cmp(E_SLT, ia, ib); break;
    case FCmpInst::FCMP_OLE: case FCmpInst::FCMP_ULE: e = pool.cmp(E_SLE, ia, ib); break;
    case FCmpInst::FCMP_OGT: case FCmpInst::FCMP_UGT: e = pool.cmp(E_SLT, ib, ia); break;
    case FCmpInst::FCMP_OGE: case FCmpInst::FCMP_UGE: e = pool.cmp(E_SLE, ib, ia); break;
    case FCmpInst::FCMP_ORD: return Val{1, nullptr}; default: return Val{0, nullptr};
    }
    return mkv(r, e);
  }
  Val binop(Op op, Val a, Val b, unsigned w) {
    if (op == E_UDIV || op == E_SDIV || op == E_UREM || op == E_SREM) {
      if (b.e) { // division by zero must be impossible
        const Expr* z = pool.cmp(E_EQ, b.e, pool.cst(0, w)); if (z->op != E_CONST) decide(z, b.c == 0); }
      if (b.c == 0) violate("arith", "division by zero");
      if ((op == E_SDIV || op == E_SREM) && sx(b.c, w) == -1 && sx(a.c, w) == sminw(w)) violate("arith", "signed division overflow");
    }
    bool ok; u64 c = Pool::cbin(op, a.c, b.c, w, ok);
    if (!a.e && !b.e) return Val{c, nullptr};
    return mkv(c, pool.bin(op, E(a, w), E(b, w)));
  }
  Val icmp(unsigned p, Val a, Val b, unsigned w) {
    bool r; 
    switch (p) { case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break; case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break; case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break; case CmpInst::ICMP_SLT: r = sx(a.c, w) < sx(b.c, w); break; case CmpInst::ICMP_SLE: r = sx(a.c, w) <= sx(b.c, w); break; case CmpInst::ICMP_SGT: r = sx(a.c, w) > sx(b.c, w); break; default: r = sx(a.c, w) >= sx(b.c, w); }
    if (!a.e && !b.e) return Val{r, nullptr};
    const Expr *x = E(a, w), *y = E(b, w), *e;
    switch (p) { case CmpInst::ICMP_EQ: e = pool.cmp(E_EQ, x, y); break; case CmpInst::ICMP_NE: e = pool.lnot(pool.cmp(E_EQ, x, y)); break; case CmpInst::ICMP_ULT: e = pool.cmp(E_ULT, x, y); break; case CmpInst::ICMP_ULE: e = pool.cmp(E_ULE, x, y); break; case CmpInst::ICMP_UGT: e = pool.cmp(E_ULT, y, x); break; case CmpInst::ICMP_UGE: e = pool.cmp(E_ULE, y, x); break; case CmpInst::ICMP_SLT: e = pool.cmp(E_SLT, x, y); break; case CmpInst::ICMP_SLE: e = pool.cmp(E_SLE, x, y); break; case CmpInst::ICMP_SGT: e = pool.cmp(E_SLT, y, x); break; default: e = pool.cmp(E_SLE, y, x); }
    return mkv(r, e);
  }
  Val cast(unsigned k, Val a, unsigned to, unsigned from) {
    switch (k) {
    case C_TRUNC: if (a.e && a.e->op == E_I2D) { a = fconc(a); } return a.e ? mkv(a.c & maskw(to), pool.extract(a.e, 0, to)) : Val{a.c & maskw(to), nullptr};
    case C_ZEXT: return a.e ? mkv(a.c, pool.zext(a.e, to)) : a;
    case C_SEXT: { u64 c = (u64)sx(a.c, from) & maskw(to); return a.e ? mkv(c, pool.sext(a.e, to)) : Val{c, nullptr}; }
    case C_COPY: return a;
    case C_SITOFP: { i64 v = sx(a.c, from); if (a.e) { const Expr* e = pool.sext(a.e, 64); if (to == 64 && e->smin > -(1ll << 52) && e->smax < (1ll << 52)) return i2d(e, (double)v); concretize(a); } return Val{dbits(to == 32 ? (double)(float)v : (double)v, to), nullptr}; }
    case C_UITOFP: { if (a.e) { const Expr* e = pool.zext(a.e, 64); if (to == 64 && e->umax < (1ull << 52)) return i2d(e, (double)a.c); concretize(a); } return Val{dbits(to == 32 ? (double)(float)a.c : (double)a.c, to), nullptr}; }
    case C_FPTOSI: case C_FPTOUI: { double d = D(a, from); const Expr* ie; if (a.e) { if (intOf(a, from, ie)) { i64 v = (i64)d; return mkv((u64)v & maskw(to), pool.extract(ie, 0, to)); } a = fconc(a); } if (k == C_FPTOSI) return Val{(u64)(i64)d & maskw(to), nullptr}; return Val{(d < 0 ? (u64)(i64)d : (u64)d) & maskw(to), nullptr}; }
    case C_FPTRUNC: case C_FPEXT: a = fconc(a); return Val{dbits(D(a, from), to), nullptr};
    }
    unsupported("cast");
  }
  // ---------- control ----------
  void edge(const Edge& e, Frame& f) {
    Val* r = &R[f.rb]; size_t n = e.moves.size();
    if (n == 1) { auto& m = e.moves[0]; r[m.first] = m.second >= 0 ? r[m.second] : P.K[~m.second]; }
    else if (n) { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
      for (size_t i = 0; i < n; i++) { int s = e.moves[i].second; t[i] = s >= 0 ? r[s] : P.K[~s]; }
      for (size_t i = 0; i < n; i++) r[e.moves[i].first] = t[i]; }
    f.pc = e.target;
  }
  void push(DFunc* f, const std::vector<Val>& args, const DI* cs, Extra* cx, bool boundary) {
    if (f->isdecl) unsupported("call of undefined function " + f->name);
    if (fr.size() > 3000) violate("nontermination", "call depth exceeds 3000");
    unsigned rb = rtop; if (rb + f->nregs + 16 > R.size()) R.resize(R.size() * 2 + f->nregs);
    rtop += f->nregs; f->executed = 1;
    for (size_t i = 0; i < args.size() && i < f->nargs; i++) R[rb + i] = args[i];
    fr.push_back(Frame{f, 0, rb, sp, cs, cx, boundary});
  }
  void popFrame() { Frame& f = fr.back(); if (sp > f.spSave) { memset(st + f.spSave, 0, sp - f.spSave); sp = f.spSave; } rtop = f.rb; fr.pop_back(); }
  u64 salloc(u64 n, unsigned al) {
    if (al < 16) al = 16; u64 p = (sp + 16 + al - 1) & ~(u64)(al - 1); if (p + n + 16 > STACK0 + STACKSZ) violate("nontermination", "stack exhausted");
    memset(st + p, 1, n); sp = p + n + 16; if (sp > spMax) spMax = sp; if (ompLevel) for (u64 i = 0; i < n; i++) { lastW.erase(p + i); reads.erase(p + i); } return p;
  }
  u64 typeParent(const std::string& t) { // std exception hierarchy
    static const std::map<std::string, std::string> par = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}};
    (void)par; return 0;
  }
  static const char* parentOf(const std::string& t) {
    static const std::map<std::string, const char*> par = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}};
    auto it = par.find(t); return it == par.end() ? nullptr : it->second;
  }
  bool typeMatch(u64 thrown, u64 clause) {
    if (!clause || thrown == clause) return true; auto tn = P.addrname.find(thrown), cn = P.addrname.find(clause); std::string t = tn == P.addrname.end() ? "" : tn->second, c = cn == P.addrname.end() ? "" : cn->second;
    std::string cur = stdType(thrown, t); while (true) { if (cur == c) return true; const char* p = parentOf(cur); if (!p) { return false; } cur = p; }
  }
  std::string stdType(u64 a, const std::string& n) { auto it = synth.find(a); return it == synth.end() ? n : it->second; }
  std::unordered_map<u64, std::string> synth; // fake typeinfo addresses for types not referenced in the module
  u64 typeAddr(const std::string& n) { for (auto& kv : P.gaddr) if (kv.first->getName() == n) return kv.second; u64 a = Program::FBASE - 4096 + 16 * synth.size(); for (auto& kv : synth) if (kv.second == n) return kv.first; synth[a] = n; return a; }
  u64 typeSel(u64 t) { return t ? (t >> 4) & 0x7fffffff : 1; }
  // unwind with exception object obj of type; returns true if a handler frame was found (above boundary)
  void unwind(u64 obj, u64 type, size_t base) {
    exc_cur = obj; exc_type = type;
    while (fr.size() > base) {
      const DI* cs = fr.back().callsite; Extra* cx = fr.back().cx; bool bnd = fr.back().boundary; (void)cs;
      popFrame();
      if (bnd) throw ExcObj{obj, type, false};
      Frame& f = fr.back();
      if (cx && cx->isinvoke) { edge(cx->e1, f); return; }
    }
    throw ExcObj{obj, type, false};
  }
  void raise(u64 obj, u64 type, size_t base, const DI* d) { // raised by the instruction d in the top frame
    exc_cur = obj; exc_type = type; excTypes[obj] = type;
    if (d && d->x && d->x->isinvoke) { edge(d->x->e1, fr.back()); return; }
    unwind(obj, type, base);
  }
  void throwStd(const std::string& ti, size_t base, const DI* d) { u64 o = halloc(32); memset(st + o, 2, 32); raise(o, typeAddr(ti), base, d); }

#include "interp.inc"
};
} // namespace bsx
