// mc.h - runtime for bounded-exhaustive exploration of the real zmdp code.
//
// A harness enumerates its whole (bounded) case space deterministically in
// mc_enumerate(); each case is one execution (or one explored sub-space) of the
// code under test and is identified by its index in that order.  The space is
// split over shards by index.  A supervisor process runs a worker; if the code
// under test kills the worker (signal, abort, unexpected exit, hang) the case is
// recorded as a failure and exploration resumes with the next case.
#ifndef MC_H_
#define MC_H_
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {
using std::string;
using std::vector;

inline string fmt(const char *f, ...) {
  char buf[8192];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}
inline uint64_t mix(uint64_t h, uint64_t x) {
  h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 32;
  return h;
}
inline uint64_t hstr(const string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return mix(h, s.size());
}
inline uint64_t hdbl(double d) {
  // rounded so that numerically equal outcomes coincide
  return (uint64_t)(int64_t)llround(d * 1e6);
}
inline string jstr(const string &s) {
  string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) r += fmt("\\u%04x", c);
    else r += c;
  }
  return r + "\"";
}
inline double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

static unsigned gLcg = 12345;   // state of the fixed stream behind rand(), see zm.h

struct Shared {
  volatile int64_t cur;      // index of the case being run, -1 none
  volatile int capped;
  volatile int64_t ncases;   // total number of cases enumerated (all shards)
  volatile int64_t ran;
  volatile int done;
  volatile int64_t nfails;
  volatile int64_t val[64];
  char names[64][40];
  volatile int ncounters;
  char desc[1 << 18];
};

struct Run {
  string tier, only;
  bool thorough = false;
  int shard = 0, nshards = 1;
  int64_t onlyIdx = -1, startIdx = 0;
  double deadline = 1e18;   // absolute, mc::now()
  double caseLimit = 20;    // seconds per case (cpu-ish wall)
  Shared *sh = NULL;
  int64_t idx = -1;
  int failFd = -1;
  std::unordered_set<uint64_t> *outcomes = new std::unordered_set<uint64_t>;
  int nsamples = 0, maxSamples = 3;
  string curDesc;
  int failsThisCase = 0;

  void count(const char *name, int64_t n = 1) {
    int i;
    for (i = 0; i < sh->ncounters; i++)
      if (!strcmp(sh->names[i], name)) break;
    if (i == sh->ncounters) {
      if (i >= 63) abort();
      strncpy(sh->names[i], name, 39);
      sh->ncounters = i + 1;
    }
    sh->val[i] += n;
  }
  void outcome(uint64_t h) { outcomes->insert(h); }
  void emit(const string &line) {
    string l = line + "\n";
    if (write(failFd, l.data(), l.size()) < 0) abort();
  }
  // key: stable identification of what fails (for the known-findings file)
  void fail(const string &key, const string &msg) {
    // listed findings: a few of each, and they use up no limit
    static std::map<string, int> listed;
    static bool first = true;
    if (first) {
      first = false;
      string k = getenv("MC_KNOWN") ? getenv("MC_KNOWN") : "", w;
      for (char c : k + "\n") if (c == '\n') { if (w != "") listed[w] = 0; w = ""; } else w += c;
    }
    auto l = listed.find(key);
    if (l != listed.end()) { if (++l->second > 4) return; }
    else { if (++failsThisCase > 3) return; sh->nfails++; }
    // enough to report: do not spend the budget on repeats
    if (sh->nfails > 60) sh->capped = 1;
    emit("{\"kind\":\"fail\",\"case\":" + std::to_string(idx) + ",\"key\":" + jstr(key) +
         ",\"msg\":" + jstr(msg) + ",\"desc\":" + jstr(curDesc) + "}");
  }
  void sample(const string &s) {
    if (nsamples >= maxSamples || shard > 1) return;
    nsamples++;
    emit("{\"kind\":\"sample\",\"case\":" + std::to_string(idx) + ",\"text\":" + jstr(s) + "}");
  }
  // describe the current (sub)case; kept in shared memory so that it survives a crash
  void describe(const string &d) {
    curDesc = d;
    strncpy(sh->desc, d.c_str(), sizeof(sh->desc) - 1);
  }
  // runs one case if it is ours.  false once the run should stop.
  bool wants() {
    idx++;
    if (onlyIdx >= 0) return idx == onlyIdx;
    if ((int)(((unsigned)idx * 2654435761u >> 15) % (unsigned)nshards) != shard) return false;   // regular patterns of long cases spread out
    if (idx < startIdx) return false;
    if (sh->capped) return false;
    if ((idx & 15) == 0 || deadline < 1e17) {
      if (now() > deadline) { sh->capped = 1; return false; }
    }
    return true;
  }
  template <class D, class B>
  void run(D desc, B body) {
    if (!wants()) return;
    sh->cur = idx;
    failsThisCase = 0;
    static unsigned seed = getenv("MC_SEED") ? atoi(getenv("MC_SEED")) : 12345;
    gLcg = seed;                // a case is the same alone and in sequence
    describe(desc());
    struct itimerval it = {{0, 0}, {(long)caseLimit, (long)((caseLimit - (long)caseLimit) * 1e6)}};
    setitimer(ITIMER_PROF, &it, NULL);       // processor time, so that a busy machine is no hang
    it.it_value.tv_sec *= 6;
    it.it_value.tv_sec += 5;
    setitimer(ITIMER_REAL, &it, NULL);
    body();
    struct itimerval z = {{0, 0}, {0, 0}};
    setitimer(ITIMER_REAL, &z, NULL);
    setitimer(ITIMER_PROF, &z, NULL);
    sh->cur = -1;
    sh->ran++;
  }
};

// ---------------------------------------------------------------- forked calls
struct Forked {
  bool exited = false, timedout = false;
  int code = -1, sig = 0;
  string data, err;
  bool ok() const { return exited && code == 0; }
  string status() const {
    if (timedout) return "timeout";
    if (exited) return fmt("exit %d", code);
    return fmt("signal %d", sig);
  }
};
// runs body in a child; what body writes through the string it returns comes back
inline Forked forked(std::function<string()> body, double limit = 10) {
  int p[2], e[2];
  if (pipe(p) || pipe(e)) abort();
  fflush(NULL);
  pid_t pid = fork();
  if (pid < 0) abort();
  if (pid == 0) {
    struct itimerval z = {{0, 0}, {0, 0}};
    setitimer(ITIMER_REAL, &z, NULL);
    close(p[0]); close(e[0]);
    dup2(e[1], 2); close(e[1]);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    string s = body();
    size_t off = 0;
    while (off < s.size()) {
      ssize_t w = write(p[1], s.data() + off, s.size() - off);
      if (w <= 0) break;
      off += w;
    }
    _exit(0);
  }
  close(p[1]); close(e[1]);
  Forked r;
  double end = now() + limit;
  bool op = true, oe = true;
  char buf[65536];
  while (op || oe) {
    struct pollfd f[2] = {{op ? p[0] : -1, POLLIN, 0}, {oe ? e[0] : -1, POLLIN, 0}};
    double left = end - now();
    if (left <= 0) { kill(pid, SIGKILL); r.timedout = true; break; }
    if (poll(f, 2, (int)(left * 1000) + 1) < 0 && errno != EINTR) break;
    if (op && f[0].revents) { ssize_t n = read(p[0], buf, sizeof buf); if (n <= 0) op = false; else r.data.append(buf, n); }
    if (oe && f[1].revents) { ssize_t n = read(e[0], buf, sizeof buf); if (n <= 0) oe = false; else if (r.err.size() < 20000) r.err.append(buf, n); }
  }
  close(p[0]); close(e[0]);
  int st;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st)) { r.exited = true; r.code = WEXITSTATUS(st); }
  else r.sig = WTERMSIG(st);
  return r;
}

// ------------------------------------------------------ choice-point exploration
// Stateless depth-first exploration of all resolutions of the choice points met
// during an execution, bounded by the number of deviations from choice 0.
struct Chooser {
  vector<int> prefix, chosen, arity;
  int maxDev = 1 << 30;
  size_t maxPoints = 1 << 30;   // beyond this many points always choice 0
  bool diverged = false;
  int choose(int n) {
    size_t i = chosen.size();
    int c = 0;
    if (i < prefix.size()) {
      c = prefix[i];
      if (c >= n) { diverged = true; c = 0; }
    }
    chosen.push_back(c);
    arity.push_back(i < maxPoints ? n : 1);
    return c;
  }
  void begin() { chosen.clear(); arity.clear(); }
  bool next() {
    // advance to the next unexplored choice vector in lexicographic order
    int dev = 0;
    vector<int> devBefore(chosen.size() + 1, 0);
    for (size_t i = 0; i < chosen.size(); i++) { devBefore[i] = dev; if (chosen[i]) dev++; }
    for (int i = (int)chosen.size() - 1; i >= 0; i--) {
      if (chosen[i] + 1 < arity[i] && devBefore[i] + 1 <= maxDev) {
        prefix.assign(chosen.begin(), chosen.begin() + i);
        prefix.push_back(chosen[i] + 1);
        return true;
      }
    }
    return false;
  }
  string str() const {
    string s;
    for (int c : chosen) s += fmt("%d ", c);
    return s;
  }
};

}  // namespace mc

void mc_enumerate(mc::Run &R);

#ifndef MC_NO_MAIN
static void mc_sigalrm(int) { _exit(99); }
int main(int argc, char **argv) {
  mc::Run R;
  std::string out = "/dev/stdout";
  double budget = 1e9;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--tier") { R.tier = argv[++i]; R.thorough = R.tier == "thorough"; }
    else if (a == "--shard") sscanf(argv[++i], "%d/%d", &R.shard, &R.nshards);
    else if (a == "--only") R.onlyIdx = atoll(argv[++i]);
    else if (a == "--out") out = argv[++i];
    else if (a == "--budget") budget = atof(argv[++i]);
    else if (a == "--limit") R.caseLimit = atof(argv[++i]);
    else { fprintf(stderr, "bad arg %s\n", argv[i]); return 2; }
  }
  R.deadline = mc::now() + budget;
  R.sh = (mc::Shared *)mmap(NULL, sizeof(mc::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  R.sh->cur = -1;
  R.failFd = open((out + ".events").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND | O_CLOEXEC, 0644);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
#if !defined(__SANITIZE_ADDRESS__)
  struct rlimit as = {3500ul << 20, 3500ul << 20};      // runaway allocation ends the case, not the machine
  setrlimit(RLIMIT_AS, &as);
#endif
  int restarts = 0, hangs = 0;
  bool ok = false;
  while (!ok) {
    R.sh->cur = -1;
    fflush(NULL);
    pid_t pid = fork();
    if (pid == 0) {
      int n = open("/dev/null", O_WRONLY);
      if (R.onlyIdx < 0 || !getenv("MC_SHOW")) dup2(n, 1);
      int e = open((out + ".stderr").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      if (!getenv("MC_SHOW")) dup2(e, 2);
      signal(SIGALRM, mc_sigalrm);
      signal(SIGPROF, mc_sigalrm);
      mc_enumerate(R);
      R.sh->ncases = R.idx + 1;
      R.sh->done = 1;
      // hashes of the observed outcomes
      FILE *f = fopen((out + ".hash").c_str(), "wb");
      for (uint64_t h : *R.outcomes) fwrite(&h, 8, 1, f);
      fclose(f);
      fflush(NULL);
      _exit(77);
    }
    int st;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { ok = true; break; }
    std::string why;
    if (WIFSIGNALED(st)) why = mc::fmt("killed by signal %d", WTERMSIG(st));
    else if (WEXITSTATUS(st) == 99) why = "hang (case time limit)";
    else why = mc::fmt("unexpected exit(%d)", WEXITSTATUS(st));
    std::string err;
    FILE *ef = fopen((out + ".stderr").c_str(), "r");
    if (ef) {
      fseek(ef, 0, SEEK_END); long L = ftell(ef);
      fseek(ef, L > 3000 ? L - 3000 : 0, SEEK_SET);
      char b[3001]; size_t n = fread(b, 1, 3000, ef); err.assign(b, n); fclose(ef);
    }
    if (R.sh->cur < 0) {
      fprintf(stderr, "worker died outside a case: %s\n%s\n", why.c_str(), err.c_str());
      return 3;
    }
    R.idx = R.sh->cur;
    R.emit("{\"kind\":\"fail\",\"case\":" + std::to_string(R.idx) + ",\"key\":\"died\",\"msg\":" +
           mc::jstr(why + ": " + err) + ",\"desc\":" + mc::jstr(R.sh->desc) + "}");
    if (R.onlyIdx >= 0) break;
    R.startIdx = R.sh->cur + 1;
    R.idx = -1;
    // repeated hangs would eat the whole time budget of the check
    if (WIFEXITED(st) && WEXITSTATUS(st) == 99 && ++hangs >= 2) { R.sh->capped = 1; break; }
    if (++restarts > 20) { R.sh->capped = 1; break; }
  }
  FILE *f = fopen((out + ".json").c_str(), "w");
  fprintf(f, "{\"ncases\":%ld,\"ran\":%ld,\"capped\":%d,\"restarts\":%d,\"counters\":{", (long)R.sh->ncases, (long)R.sh->ran,
          R.sh->capped, restarts);
  for (int i = 0; i < R.sh->ncounters; i++) fprintf(f, "%s\"%s\":%ld", i ? "," : "", R.sh->names[i], (long)R.sh->val[i]);
  fprintf(f, "}}\n");
  fclose(f);
  return 0;
}
#endif
#endif
