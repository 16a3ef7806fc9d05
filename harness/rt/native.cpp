// Native side of the harness API: replays recorded inputs against the real build.
//   native ENTRY FILE     FILE: one trace per line:  name=value name=value ...
// prints per trace:  TRACE k status obs...   status: ok | fail:<msg> | assume | exception | crash
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <exception>
#include <typeinfo>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <dlfcn.h>
#if defined(_OPENMP)
#include <omp.h>
#endif
extern "C" {
static std::vector<std::pair<std::string, int64_t>> in_; static size_t pos_ = 0; static std::vector<uint64_t> obs_; static FILE* rep_; static std::string known_;
static void finish(const std::string& s) { fprintf(rep_, "%s", s.c_str()); for (auto o : obs_) fprintf(rep_, " %llu", (unsigned long long)o); fprintf(rep_, "\n"); fflush(rep_); _exit(0); }
int64_t bsx_range_(const char* name, int64_t lo, int64_t hi) { if (lo == hi) return lo; if (pos_ < in_.size()) { auto& p = in_[pos_++]; if (p.first != name) { finish("mismatch:" + p.first + "/" + name); } int64_t v = p.second; if (v < lo || v > hi) finish("range"); return v; } return lo; }
void bsx_assume_(bool c) { if (!c) finish("assume"); }
void bsx_assert_(bool c, const char* m) { if (!c) { std::string s(m); for (auto& ch : s) if (ch == ' ') ch = '_'; finish("fail:" + s); } }
void bsx_fail(const char* m) { bsx_assert_(false, m); }
void bsx_observe(uint64_t v) { obs_.push_back(v); }
void bsx_reach(const char*) {}
uint64_t bsx_concretize(uint64_t v) { return v; }
void bsx_known_(const char* id, bool c) { known_ = c ? id : ""; }
void bsx_threads(int n) {
#if defined(_OPENMP)
  omp_set_num_threads(n);
#endif
}
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, (std::string("bsx_entry_") + argv[1]).c_str());
  if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  int tmo = getenv("BSX_TIMEOUT") ? atoi(getenv("BSX_TIMEOUT")) : 20;
  FILE* f = fopen(argv[2], "r"); if (!f) return 2; char* line = nullptr; size_t cap = 0; int k = 0;
  while (getline(&line, &cap, f) > 0) {
    in_.clear(); char* s = strtok(line, " \n"); while (s) { char* e = strchr(s, '='); if (e) { *e = 0; in_.push_back({s, atoll(e + 1)}); } s = strtok(nullptr, " \n"); }
    int pf[2]; if (pipe(pf)) return 2; fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      close(pf[0]); rep_ = fdopen(pf[1], "w"); alarm(tmo); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if (!getenv("BSX_STDERR")) dup2(dn, 2); 
      try { fn(); } catch (std::exception& e) { finish(std::string("exception:") + typeid(e).name()); } catch (...) { finish("exception:unknown"); }
      finish("ok");
    }
    close(pf[1]); std::string out; char buf[4096]; ssize_t n; while ((n = read(pf[0], buf, sizeof buf)) > 0) out.append(buf, n); close(pf[0]);
    int stt; waitpid(pid, &stt, 0);
    if (out.empty()) { char b[64]; if (WIFSIGNALED(stt)) snprintf(b, sizeof b, "crash:signal%d", WTERMSIG(stt)); else snprintf(b, sizeof b, "crash:exit%d", WEXITSTATUS(stt)); out = std::string(b) + "\n"; }
    else if (WIFEXITED(stt) && WEXITSTATUS(stt) != 0) { out = "crash:exit" + std::to_string(WEXITSTATUS(stt)) + "\n"; }
    printf("TRACE %d %s", k++, out.c_str()); fflush(stdout);
  }
  return 0;
}
