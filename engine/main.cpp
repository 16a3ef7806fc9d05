// bsx: bounded symbolic execution of LLVM bitcode with z3.
#include "exec.h"
#include <llvm/Demangle/Demangle.h>
#include <cstdio>
#include <unistd.h>
#include <fstream>
#include <thread>
#include <sstream>
using namespace bsx;

static std::unordered_map<std::string, int> BT;
static int lookup(const std::string& n) {
  auto it = BT.find(n); if (it != BT.end()) return it->second;
  auto pre = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
  if (pre("llvm.lifetime") || pre("llvm.dbg") || pre("llvm.assume") || pre("llvm.experimental.noalias") || pre("llvm.invariant") || pre("llvm.donothing") || pre("llvm.prefetch") || pre("llvm.stacksave") || pre("llvm.stackrestore")) return B_NOP;
  if (pre("llvm.memcpy") || pre("llvm.memmove")) return B_MEMCPY;
  if (pre("llvm.memset")) return B_MEMSET;
  if (pre("llvm.umin") || pre("llvm.umax") || pre("llvm.smin") || pre("llvm.smax")) return B_UMINMAX;
  if (pre("llvm.abs")) return B_ABS;
  if (n.find(".with.overflow") != n.npos) return B_OVF;
  if (pre("llvm.usub.sat") || pre("llvm.uadd.sat")) return B_SATURATE;
  if (pre("llvm.ctpop") || pre("llvm.ctlz") || pre("llvm.cttz") || pre("llvm.bswap")) return B_BITS;
  if (pre("llvm.fshl") || pre("llvm.fshr")) return B_FSH;
  if (pre("llvm.expect") || pre("llvm.launder") || pre("llvm.strip")) return B_EXPECT;
  if (pre("llvm.is.constant")) return B_RET0;
  if (pre("llvm.objectsize")) return B_OBJSIZE;
  if (pre("llvm.trap") || pre("llvm.ubsantrap")) return B_ABORT;
  if (pre("llvm.eh.typeid.for")) return B_TYPEIDFOR;
  if (pre("llvm.fabs") || pre("llvm.floor") || pre("llvm.ceil") || pre("llvm.sqrt") || pre("llvm.round") || pre("llvm.rint") || pre("llvm.trunc") || pre("llvm.nearbyint") || pre("llvm.exp") || pre("llvm.log") || pre("llvm.sin") || pre("llvm.cos")) return B_MATH1;
  if (pre("llvm.pow") || pre("llvm.minnum") || pre("llvm.maxnum") || pre("llvm.copysign") || pre("llvm.fmuladd")) return B_MATH2;
  if (pre("_ZSt") && n.find("__throw_") != n.npos) return B_THROW_STD;
  return -1;
}
static void initBT() {
  BT = {{"bsx_range_", B_RANGE}, {"bsx_assume_", B_ASSUME}, {"bsx_assert_", B_ASSERT}, {"bsx_observe", B_OBSERVE}, {"bsx_reach", B_REACH}, {"bsx_concretize", B_CONC}, {"bsx_known_", B_KNOWN}, {"bsx_fail", B_FAIL}, {"bsx_is_symbolic", B_ISSYM}, {"bsx_threads", B_THREADS},
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"_Znwm", B_NEW}, {"_Znam", B_NEW}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEW}, {"_ZnwmSt11align_val_t", B_NEWALIGN}, {"_ZnamSt11align_val_t", B_NEWALIGN}, {"aligned_alloc", B_ALIGNED_ALLOC},
    {"_ZdlPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdaPv", B_DELETE}, {"_ZdaPvm", B_DELETE}, {"_ZdlPvSt11align_val_t", B_DELETE}, {"_ZdlPvmSt11align_val_t", B_DELETE}, {"_ZdlPvRKSt9nothrow_t", B_DELETE},
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_BCMP}, {"strlen", B_STRLEN}, {"memchr", B_MEMCHR}, {"abort", B_ABORT}, {"exit", B_ABORT}, {"_Exit", B_ABORT}, {"__assert_fail", B_ABORT}, {"_ZSt9terminatev", B_TERMINATE}, {"__cxa_pure_virtual", B_ABORT}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_ABORT},
    {"__cxa_allocate_exception", B_CXA_ALLOC}, {"__cxa_free_exception", B_CXA_FREE}, {"__cxa_throw", B_CXA_THROW}, {"__cxa_begin_catch", B_CXA_BEGIN}, {"__cxa_end_catch", B_CXA_END}, {"__cxa_rethrow", B_CXA_RETHROW}, {"__cxa_get_exception_ptr", B_GETEXC}, {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_GUARD_REL}, {"__cxa_guard_abort", B_NOP}, {"__cxa_atexit", B_ATEXIT},
    {"_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm", B_NEXTBKT}, {"_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm", B_NEEDREHASH}, {"_ZSt11_Hash_bytesPKvmm", B_HASHBYTES},
    {"sqrt", B_MATH1}, {"sqrtf", B_MATH1}, {"fabs", B_MATH1}, {"fabsf", B_MATH1}, {"floor", B_MATH1}, {"floorf", B_MATH1}, {"ceil", B_MATH1}, {"ceilf", B_MATH1}, {"exp", B_MATH1}, {"log", B_MATH1}, {"log2", B_MATH1}, {"log10", B_MATH1}, {"sin", B_MATH1}, {"cos", B_MATH1}, {"tan", B_MATH1}, {"acos", B_MATH1}, {"asin", B_MATH1}, {"atan", B_MATH1}, {"acosf", B_MATH1}, {"cosf", B_MATH1}, {"sinf", B_MATH1}, {"round", B_MATH1}, {"trunc", B_MATH1}, {"nearbyint", B_MATH1}, {"rint", B_MATH1},
    {"pow", B_MATH2}, {"powf", B_MATH2}, {"fmin", B_MATH2}, {"fmax", B_MATH2}, {"fminf", B_MATH2}, {"fmaxf", B_MATH2}, {"atan2", B_MATH2}, {"fmod", B_MATH2}, {"hypot", B_MATH2},
    {"_ZNSt6chrono3_V212system_clock3nowEv", B_CLOCK}, {"_ZNSt6chrono3_V212steady_clock3nowEv", B_CLOCK}, {"_ZNSt13random_device9_M_getvalEv", B_RDGETVAL}, {"_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", B_NOP}, {"_ZNSt13random_device7_M_finiEv", B_NOP}, {"time", B_CLOCK}, {"clock", B_CLOCK},
    {"puts", B_RET0}, {"putchar", B_RET0}, {"printf", B_RET0}, {"fprintf", B_RET0}, {"fflush", B_RET0},
    {"__kmpc_fork_call", B_OMP_FORK}, {"__kmpc_for_static_init_4", B_OMP_STATIC_INIT4}, {"__kmpc_for_static_init_4u", B_OMP_STATIC_INIT4U}, {"__kmpc_for_static_init_8", B_OMP_STATIC_INIT8}, {"__kmpc_for_static_init_8u", B_OMP_STATIC_INIT8U}, {"__kmpc_for_static_fini", B_NOP}, {"__kmpc_single", B_OMP_SINGLE}, {"__kmpc_end_single", B_OMP_ENDSINGLE}, {"__kmpc_master", B_OMP_MASTER}, {"__kmpc_end_master", B_NOP}, {"__kmpc_masked", B_OMP_MASTER}, {"__kmpc_end_masked", B_NOP}, {"__kmpc_barrier", B_NOP}, {"__kmpc_critical", B_OMP_CRIT}, {"__kmpc_end_critical", B_OMP_ENDCRIT}, {"__kmpc_omp_task_alloc", B_OMP_TASK_ALLOC}, {"__kmpc_omp_task", B_OMP_TASK}, {"__kmpc_omp_taskwait", B_OMP_TASKWAIT}, {"__kmpc_global_thread_num", B_OMP_GTID}, {"__kmpc_push_num_threads", B_NOP}, {"omp_get_thread_num", B_OMP_TID}, {"omp_get_num_threads", B_OMP_NT}, {"omp_get_max_threads", B_OMP_MAXT}, {"omp_set_num_threads", B_NOP}, {"omp_get_num_procs", B_OMP_MAXT}, {"omp_get_wtime", B_RET0}, {"omp_in_parallel", B_RET0}, {"omp_set_nested", B_NOP}, {"omp_set_max_active_levels", B_NOP}};
  for (const char* c : {"13runtime_error", "11logic_error", "12out_of_range", "12length_error", "16invalid_argument", "12domain_error", "11range_error", "14overflow_error", "9exception", "9bad_alloc"}) {
    std::string b = std::string("_ZNSt") + c;
    for (const char* k : {"C1", "C2"}) for (const char* a : {"EPKc", "ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "ERKS_", "Ev", "EOS_"}) BT[b + k + a] = B_EXC_CTOR;
    for (const char* k : {"D0Ev", "D1Ev", "D2Ev"}) BT[b + k] = B_POP;
  }
}
static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }

static void worker(Shared& S, int id) {
  std::unique_ptr<Exec> ex(new Exec(S)); ex->runCtors();
  u64 rng = S.rng * 7919 + id * 104729 + 1; auto rnd = [&] { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
  auto flushSolver = [&] { std::lock_guard<std::mutex> g(S.mu); S.nq += ex->solver->nq; S.nsat += ex->solver->nsat; S.nunsat += ex->solver->nunsat; S.nunk += ex->solver->nunk; S.tsec += ex->solver->tsec; };
  std::vector<Job> mine;
  while (true) {
    Job j;
    if (!mine.empty()) { j = std::move(mine.back()); mine.pop_back(); }
    else {
      std::unique_lock<std::mutex> l(S.mu); S.idle++;
      while (S.queue.empty() && !S.stop && S.idle < S.nworkers) S.cv.wait_for(l, std::chrono::milliseconds(20));
      if (S.queue.empty() || S.stop) { if (S.idle >= S.nworkers || S.stop) { S.cv.notify_all(); if (S.stop || S.queue.empty()) break; } S.idle--; continue; }
      S.idle--; j = std::move(S.queue.front()); S.queue.pop_front();
    }
    if (S.es[j.entry].stopped) { std::lock_guard<std::mutex> g(S.mu); S.es[j.entry].queued--; continue; }
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - S.t0).count() > S.budget) { S.stop = true; }
    if (S.stop) { mine.push_back(j); break; }
    ex->les = Shared::ES(); std::string wh; ex->local.clear();
    PathEnd pe = ex->runPath(j, wh);
    auto& les = ex->les; 
    {
      std::lock_guard<std::mutex> g(S.mu); auto& es = S.es[j.entry];
      es.queued--; es.queued += ex->local.size();
      es.events += les.events; es.forks += les.forks; es.asserts += les.asserts; es.assertq += les.assertq; es.unknown += les.unknown; es.instr += ex->icount; if (ex->ev > es.maxdepth) es.maxdepth = ex->ev;
      for (auto& r : les.reach) es.reach[r.first] += r.second;
      switch (pe.k) {
      case PathEnd::OK: es.paths++; break; case PathEnd::PRUNED: es.pruned++; break;
      case PathEnd::VIOL: es.paths++; { Violation v; v.entry = j.entry; v.kind = pe.kind; v.msg = pe.msg; v.where = wh; v.known = ex->curKnown; for (size_t i = 0; i < ex->vars.size(); i++) v.inputs.push_back({ex->varnames[i], (i64)ex->model[i]}); les.viol.push_back(v); } break;
      case PathEnd::UNSUPPORTED: es.unsupported++; if (es.unsup.size() < 20) es.unsup.insert(pe.msg + " @ " + wh); break;
      case PathEnd::LIMIT: es.limit++; break;
      }
      unsigned unk = 0; for (auto& v : les.viol) { if (!v.known.empty()) { if (es.knownhits[v.known]++ < 2) es.viol.push_back(v); } else { unk++; unsigned same = 0; for (auto& o : es.viol) if (o.known.empty() && o.msg == v.msg && o.kind == v.kind) same++; if (same < S.maxViol) es.viol.push_back(v); } }
      if (unk) { unsigned n = 0; for (auto& o : es.viol) if (o.known.empty()) n++; if (n >= S.maxViol || (pe.k == PathEnd::VIOL && pe.kind == "nontermination")) es.stopped = true; if (n && S.stopFirst) S.stop = true; }
      if (pe.k == PathEnd::OK && S.nsamples) { es.seen++; Trace t; bool take = es.traces.size() < S.nsamples; size_t pos = es.traces.size(); if (!take) { u64 r = rnd() % es.seen; if (r < S.nsamples) { take = true; pos = r; } } if (take) { t.entry = j.entry; for (size_t i = 0; i < ex->vars.size(); i++) t.inputs.push_back({ex->varnames[i], (i64)ex->model[i]}); t.obs = ex->obs; if (pos < es.traces.size()) es.traces[pos] = t; else es.traces.push_back(t); } }
      for (auto& l : ex->local) mine.push_back(std::move(l));
      if (S.idle > 0 && S.queue.size() < (size_t)S.nworkers) { size_t give = std::min<size_t>(mine.size() > 1 ? mine.size() / 2 : 0, 8); for (size_t i = 0; i < give; i++) { S.queue.push_back(std::move(mine.front())); mine.erase(mine.begin()); } if (give) S.cv.notify_all(); }
    }
    if (ex->pool.size() > 3000000) { // bound memory: restart the expression pool and solver
      flushSolver(); ex.reset(); ex.reset(new Exec(S)); ex->runCtors();
    }
  }
  { std::lock_guard<std::mutex> g(S.mu); for (auto& q : mine) S.queue.push_back(q); }
  flushSolver();
}

int main(int argc, char** argv) {
  std::string bc, out = "-"; std::vector<std::string> want; int threads = 8; Shared S; bool list = false; std::string pathfilter = "/repo/";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--out") out = nx(); else if (a == "--threads") threads = atoi(nx().c_str()); else if (a == "--budget") S.budget = atof(nx().c_str()); else if (a == "--entry") want.push_back(nx());
    else if (a == "--list") list = true; else if (a == "--max-instr") S.maxInstr = strtoull(nx().c_str(), 0, 10); else if (a == "--qtimeout") S.qtimeout = atoi(nx().c_str()); else if (a == "--max-viol") S.maxViol = atoi(nx().c_str()); else if (a == "--samples") S.nsamples = atoi(nx().c_str());
    else if (a == "--stop-first") S.stopFirst = true; else if (a == "--backend") { static std::string b; b = nx(); Solver::backend() = b.c_str(); } else if (a == "--seed") S.rng = strtoull(nx().c_str(), 0, 10) + 1; else if (a == "--filter") pathfilter = nx(); else bc = a;
  }
  initBT(); Program P; P.builtinLookup = lookup; 
  auto t0 = std::chrono::steady_clock::now();
  try { P.load(bc); } catch (std::exception& e) { fprintf(stderr, "bsx: %s\n", e.what()); return 2; }
  S.P = &P;
  for (auto* f : P.funcs) if (f->name.compare(0, 10, "bsx_entry_") == 0 && !f->isdecl) { std::string n = f->name.substr(10); if (want.empty() || std::find(want.begin(), want.end(), n) != want.end()) { S.entries.push_back(f); S.entryNames.push_back(n); } }
  if (list) { for (auto& n : S.entryNames) puts(n.c_str()); return 0; }
  if (S.entries.empty()) { fprintf(stderr, "bsx: no entries\n"); return 2; }
  double loadsec = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  S.es.resize(S.entries.size()); S.nworkers = threads; S.t0 = std::chrono::steady_clock::now();
  for (size_t i = 0; i < S.entries.size(); i++) { Job j; j.entry = i; S.queue.push_back(j); S.es[i].queued = 1; }
  std::vector<std::thread> ts; std::string err; std::mutex em;
  for (int i = 0; i < threads; i++) ts.emplace_back([&, i] { try { worker(S, i); } catch (std::exception& e) { std::lock_guard<std::mutex> g(em); err = e.what(); S.stop = true; } });
  for (auto& t : ts) t.join();
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - S.t0).count();
  std::ostringstream o;
  o << "{\n \"error\": \"" << jesc(err) << "\", \"wall\": " << wall << ", \"load\": " << loadsec << ", \"queries\": " << S.nq << ", \"sat\": " << S.nsat << ", \"unsat\": " << S.nunsat << ", \"unknown\": " << S.nunk << ", \"solver_seconds\": " << S.tsec << ",\n \"timed_out\": " << (S.stop ? "true" : "false") << ",\n \"entries\": [";
  for (size_t i = 0; i < S.entries.size(); i++) {
    auto& e = S.es[i]; bool complete = e.queued == 0 && !e.stopped && !e.unsupported && !e.limit && !e.unknown;
    o << (i ? ",\n  " : "\n  ") << "{\"name\": \"" << S.entryNames[i] << "\", \"complete\": " << (complete ? "true" : "false") << ", \"paths\": " << e.paths << ", \"pruned\": " << e.pruned << ", \"decisions\": " << e.events << ", \"forks\": " << e.forks << ", \"asserts\": " << e.asserts << ", \"assert_queries\": " << e.assertq << ", \"unsupported\": " << e.unsupported << ", \"limit\": " << e.limit << ", \"unknown\": " << e.unknown << ", \"pending\": " << e.queued << ", \"instr\": " << e.instr << ", \"maxdepth\": " << e.maxdepth;
    o << ", \"reach\": {"; bool f = true; for (auto& r : e.reach) { o << (f ? "" : ", ") << "\"" << jesc(r.first) << "\": " << r.second; f = false; } o << "}";
    o << ", \"unsup\": ["; f = true; for (auto& r : e.unsup) { o << (f ? "" : ", ") << "\"" << jesc(r) << "\""; f = false; } o << "]";
    auto inputs = [&](const std::vector<std::pair<std::string, i64>>& in) { o << "["; for (size_t k = 0; k < in.size(); k++) o << (k ? "," : "") << "[\"" << jesc(in[k].first) << "\"," << in[k].second << "]"; o << "]"; };
    o << ", \"violations\": ["; f = true; for (auto& v : e.viol) { o << (f ? "" : ", ") << "{\"kind\": \"" << v.kind << "\", \"msg\": \"" << jesc(v.msg) << "\", \"known\": \"" << v.known << "\", \"where\": \"" << jesc(v.where) << "\", \"inputs\": "; inputs(v.inputs); o << "}"; f = false; } o << "]";
    o << ", \"traces\": ["; f = true; for (auto& t : e.traces) { o << (f ? "" : ", ") << "{\"inputs\": "; inputs(t.inputs); o << ", \"obs\": ["; for (size_t k = 0; k < t.obs.size(); k++) o << (k ? "," : "") << "\"" << t.obs[k] << "\""; o << "]}"; f = false; } o << "]}";
  }
  o << "],\n \"functions\": ["; bool f = true;
  for (auto* fn : P.funcs) if (fn->executed && fn->file.find(pathfilter) != std::string::npos) { std::string d = llvm::demangle(fn->name); o << (f ? "" : ",") << "\n  {\"name\": \"" << jesc(d.substr(0, 200)) << "\", \"file\": \"" << jesc(fn->file) << "\", \"line\": " << fn->line0 << ", \"symbolic\": " << (fn->symexec ? "true" : "false") << "}"; f = false; }
  o << "]\n}\n";
  if (out == "-") fputs(o.str().c_str(), stdout); else { std::ofstream of(out); of << o.str(); }
  fflush(stdout); _exit(0);
}
