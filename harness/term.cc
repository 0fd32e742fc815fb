// term.cc - P21: when planning stops and what it records, under a controlled clock.
// The real main() of zmdp runs in a forked child with the real solver, one layer added:
// every trial takes a prescribed amount of (virtual) time, may be declared the last, may be
// followed by SIGINT, and what the planner's state is after it is written down.
#include <assert.h>
#include <getopt.h>
#include <signal.h>
#include <sys/time.h>
#include "mc.h"
#include "models.h"
#include "policyfile.h"
#include "solverUtils.h"
#include "RTDP.h"
#include "FRTDP.h"
#include "HSVI.h"
#include "LRTDP.h"
#include "HDP.h"
#include "zmdpCommonTime.h"
#include "MaxPlanesLowerBound.h"
#include "SawtoothUpperBound.h"
#define CFLAGS "harness"
namespace zmdp { void hookedConstruct(SolverObjects &obj, SolverParams &p, const ZMDPConfig &config); }
#define constructSolverObjects hookedConstruct
#define main zmdp_main
#include "zmdp.cc"
#undef main
#undef constructSolverObjects
using namespace mc;
using std::string;

struct Rec { double lb, ub; long touched, expanded, backups; int done; long st[8]; };   // st: what the storage record has to say, -1 not known
enum { MAXT = 40 };
struct Trace { volatile int n; Rec r[MAXT + 2]; };
static Trace *gT;
struct Plan {
  vector<double> delta;     // seconds per trial, the last one repeated
  int doneAt = -1, sigAt = -1, freeN = 0;
  double readTime = 0, initTime = 0, evalTime = 0;
};
static Plan gP;
static double gClock = 5000;
static bool gIn = false, gLive = false;
static zmdp::BoundPair *gB;
static zmdp::MDP *gProblem;
extern "C" int gettimeofday(struct timeval *tv, void *) throw() {
  if (!gLive) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
  long long us = llround(gClock * 1e6);
  tv->tv_sec = us / 1000000; tv->tv_usec = us % 1000000;
  return 0;
}
extern "C" int rand(void) throw() {
  if (gLive && !gIn) gClock += gP.evalTime;
  // planning and evaluation draw from separate streams
  static unsigned st[2] = {12345, 54321};
  unsigned &g = st[gIn];
  g = g * 1103515245u + 12345u;
  return (int)((g >> 1) & 0x7fffffff);
}
extern "C" void srand(unsigned) throw() {}
// what the representations hold, counted here
static void countStorage(long *st) {
  using namespace zmdp;
  for (int i = 0; i < 8; i++) st[i] = 0;
  long n = 0, e = 0;
  for (auto &q : *gB->lookup) if (!q.second->isFringe()) { n++; e += q.second->s.filled() + 1; }
  AbstractBound *lb = gB->lowerBound, *ub = gB->upperBound;
  if (MaxPlanesLowerBound *m = dynamic_cast<MaxPlanesLowerBound *>(lb)) {
    for (auto p : m->planes) { st[0]++; st[1] += p->alpha.filled() + (m->useMaxPlanesMasking ? p->mask.filled() : 0); }
  } else if (lb) { st[0] = st[1] = -1; st[2] = n; st[3] = e; }
  if (SawtoothUpperBound *w = dynamic_cast<SawtoothUpperBound *>(ub)) {
    st[4] = st[5] = w->cornerPts.size();
    for (auto p : w->pts) { st[4]++; st[5] += p->b.filled() + 1; }
  } else if (ub) { st[4] = st[5] = -1; st[6] = n; st[7] = e; }
}
template <class T> struct Timed : public T {
  bool doTrial(zmdp::MDPNode &cn) {
    int i = gT->n;
    if (i >= MAXT) _exit(77);
    gIn = true;
    gClock += gP.delta.empty() ? 1 : i < (int)gP.delta.size() ? gP.delta[i] : gP.delta.back();
    bool d = T::doTrial(cn);
    gIn = false;
    zmdp::MDPNode *root = gB->getRootNode();
    gT->r[i] = {root->lbVal, root->ubVal, gB->numStatesTouched, gB->numStatesExpanded, gB->numBackups, d, {}};
    countStorage(gT->r[i].st);
    gT->n = i + 1;
    if (gP.freeN) { if (gT->n >= gP.freeN) _exit(0); return false; }
    if (i == gP.sigAt) raise(SIGINT);
    return d || i == gP.doneAt;
  }
  void derivedClassInit(void) { gClock += gP.initTime; T::derivedClassInit(); }
};
void zmdp::hookedConstruct(SolverObjects &so, SolverParams &p, const ZMDPConfig &config) {
  constructSolverObjects(so, p, config);
  gClock += gP.readTime;
  gB = (BoundPair *)so.bounds;
  gProblem = so.problem;
  RTDPCore *s = NULL;
  switch (p.searchStrategy) {
    case S_FRTDP: s = new Timed<FRTDP>; break;
    case S_HSVI: s = new Timed<HSVI>; break;
    case S_RTDP: s = new Timed<RTDP>; break;
    case S_LRTDP: s = new Timed<LRTDP>; break;
    case S_HDP: s = new Timed<HDP>; break;
    default: abort();
  }
  so.solver = s;
  s->setBounds(so.bounds);
}
struct Out { int code = -1, sig = 0; string out, err; };
static Out runMain(const vector<string> &args, const Plan &p) {
  static int fo = -1, fe = -1;
  if (fo < 0) {
    fo = memfd_create("o", MFD_CLOEXEC); fe = memfd_create("e", MFD_CLOEXEC);
    gT = (Trace *)mmap(NULL, sizeof(Trace), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  if (ftruncate(fo, 0) || ftruncate(fe, 0)) abort();
  gT->n = 0;
  gP = p;
  fflush(NULL);
  pid_t pid = fork();
  if (pid == 0) {
    struct itimerval z = {{0, 0}, {20, 0}};
    setitimer(ITIMER_REAL, &z, NULL);
    for (int s = 1; s < 32; s++) signal(s, SIG_DFL);
    lseek(fo, 0, SEEK_SET); lseek(fe, 0, SEEK_SET);
    dup2(fo, 1); dup2(fe, 2);
    vector<char *> av;
    av.push_back((char *)"zmdp");
    for (auto &a : args) av.push_back((char *)a.c_str());
    av.push_back(NULL);
    gLive = true;
    int rc = zmdp_main(av.size() - 1, &av[0]);
    fflush(NULL);
    std::cout.flush();
    _exit(rc);
  }
  int st;
  Out o;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st)) o.code = WEXITSTATUS(st); else o.sig = WTERMSIG(st);
  auto get = [](int fd) { string s; char b[65536]; ssize_t n; lseek(fd, 0, SEEK_SET); while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); return s; };
  o.out = get(fo); o.err = get(fe);
  return o;
}
static string joinA(const vector<string> &a) { string s; for (auto &x : a) s += x + " "; return s; }
static string planStr(const Plan &p) {
  string s = "trial times";
  for (double d : p.delta) s += fmt(" %g", d);
  return s + fmt(" done=%d sigint=%d read=%g init=%g eval=%g", p.doneAt, p.sigAt, p.readTime, p.initTime, p.evalTime);
}
static double at(const vector<double> &d, int i) { return d.empty() ? 1 : i < (int)d.size() ? d[i] : d.back(); }
static bool near6(double a, double b, double abs = 1e-9) { return fabs(a - b) <= 6e-6 * std::max(fabs(a), fabs(b)) + abs; }

struct Subject { const Model *m; string strat; double p; bool lower, upper; vector<string> opts; };
static vector<string> base(const char *cmd, const Subject &s) {
  vector<string> a = {cmd, "t.pomdp", "-s", s.strat, "-p", fmt("%.17g", s.p)};
  if (!s.m->nO) a[1] = "t.mdp";
  for (auto &x : s.opts) a.push_back(x);
  return a;
}
// the planner left alone for n trials: what its state is after each
static bool freeRun(Run &R, const Subject &s, int n, vector<Rec> &tr) {
  Plan p; p.freeN = n;
  vector<string> a = base("solve", s);
  a.push_back("-o"); a.push_back("none");
  Out o = runMain(a, p);
  R.count("runs");
  tr.assign(gT->r, gT->r + gT->n);
  if (o.code != 0 || gT->n != n) { R.fail("run", fmt("free run: code %d signal %d after %d trials ", o.code, o.sig, gT->n) + o.err + joinA(a)); return false; }
  return true;
}
static bool sameRec(const Rec &a, const Rec &b) { return a.lb == b.lb && a.ub == b.ub && a.backups == b.backups && a.touched == b.touched && a.expanded == b.expanded; }

static void solveCase(Run &R, const Subject &s, const vector<double> &alpha, int depth) {
  s.m->write(s.m->nO ? "t.pomdp" : "t.mdp");
  vector<Rec> tr;
  if (!freeRun(R, s, depth + 3, tr)) return;
  // strategies that keep both bounds are done exactly when the interval is small enough
  if (s.lower && s.upper && (s.strat == "hsvi" || s.strat == "frtdp"))
    for (size_t i = 0; i < tr.size(); i++) {
      double w = tr[i].ub - tr[i].lb;
      if (fabs(w - s.p) > 1e-9 && tr[i].done != (w < s.p && s.p > 0)) R.fail("done-flag", fmt("after trial %zu the interval is [%g, %g] and the planner says %s with regret bound %g", i + 1, tr[i].lb, tr[i].ub, tr[i].done ? "done" : "not done", s.p));
    }
  vector<vector<double>> seqs = {{}};
  for (int d = 0; d < depth; d++) { vector<vector<double>> n; for (auto &q : seqs) for (double x : alpha) { auto r = q; r.push_back(x); n.push_back(r); } seqs.swap(n); }
  std::set<long> nb = {-1, 0, 1};
  for (int i = 0; i < depth; i++) { nb.insert(tr[i].backups); nb.insert(tr[i].backups + 1); }
  vector<double> Ts = {-1, 0, 0.25, 1.15, 2.35, 11.45, 30.7};
  long caseNo = 0;
  for (auto &q : seqs) for (double T : Ts) for (long b : nb) for (int done : {-1, 0, 2}) for (int sig : {-1, 0, 1, 2}) for (double rd : {0.0, 40.0}) {
    caseNo++;
    // the rare criteria combined with everything; the rest of the product thinned evenly
    if (!R.thorough && (T > 0) + (b > 0) + (done >= 0) + (sig >= 0) > 2) continue;
    if (!R.thorough && rd > 0 && !(T > 0 && b < 0)) continue;
    if (!R.thorough && b == 0 && (done >= 0 || sig >= 0) && T > 0) continue;
    // when does it have to stop?
    double t = 0;
    int N = 0;
    bool tie = false;
    for (int i = 0; i < depth + 3; i++) {
      t += at(q, i);
      if (T > 0 && fabs(t - T) < 1e-4) tie = true;
      if (tr[i].done || (b > 0 && tr[i].backups >= b) || (T > 0 && t >= T) || i == done || i == sig) { N = i + 1; break; }
    }
    if (tie) { R.count("ties"); continue; }
    Plan p; p.delta = q; p.doneAt = done; p.sigAt = sig; p.readTime = rd;
    if (N == 0) { p.sigAt = depth + 2; N = depth + 3; }
    vector<string> a = base("solve", s);
    for (string x : {string("-o"), string("none"), string("-t"), fmt("%.17g", T), string("--terminateNumBackups"), fmt("%ld", b)}) a.push_back(x);
    Out o = runMain(a, p);
    R.count("runs"); R.count("transitions", gT->n);
    string how = joinA(a) + planStr(p);
    if (o.code != 0) { R.fail("run", fmt("exit code %d signal %d ", o.code, o.sig) + o.err + how); return; }
    if (gT->n != N) {
      string crit;
      if (N <= (int)tr.size()) crit = fmt("after trial %d: %ld backups, elapsed %g, done=%d", N, tr[N - 1].backups, t, tr[N - 1].done);
      R.fail(gT->n > N ? "stops-late" : "stops-early", fmt("stopped after %d trials, has to stop after %d (%s); ", gT->n, N, crit.c_str()) + how);
      if (R.failsThisCase >= 3) return;
      continue;
    }
    R.outcome(mix(mix(N, hdbl(T)), mix(b, mix(done + 5, sig + 9))));
    // progress lines: each says what the state was after that many trials
    std::istringstream in(o.out);
    string l;
    long lastCalls = 0;
    vector<int> shown(N + 1, 0);
    while (std::getline(in, l)) {
      long sec, calls; double lb, ub, rg;
      if (sscanf(l.c_str(), "%ld %ld calls to solver, bounds [%lf .. %lf], regret <= %lf", &sec, &calls, &lb, &ub, &rg) != 5) continue;
      R.count("lines");
      if (calls <= lastCalls || calls > N) { R.fail("progress-line", "calls out of order: " + l + "; " + how); break; }
      const Rec &r = gT->r[calls - 1];
      if ((s.lower && fabs(lb - r.lb) > 6e-5) || (s.upper && fabs(ub - r.ub) > 6e-5) || (s.lower && s.upper && !near6(rg, r.ub - r.lb, 1e-12)))
        R.fail("progress-line", l + fmt(" but the state after %ld trials is [%.6f, %.6f]; ", calls, r.lb, r.ub) + how);
      double el = 0;
      for (int i = 0; i < calls; i++) el += at(q, i);
      // the time shown may include reading the model
      if (sec != (long)floor(el + 1e-6) && sec != (long)floor(el + rd + 1e-6)) R.fail("progress-line", l + fmt(" at elapsed %g (+ %g reading); ", el, rd) + how);
      shown[calls] = 1;
      lastCalls = calls;
    }
    if (lastCalls != N) R.fail("progress-line", fmt("the last progress line is for %ld of %d trials; ", lastCalls, N) + how);
    double since = 1e9;
    for (int i = 0; i < N; i++) {
      since += at(q, i);
      if (since > 10 + 1e-6 && !shown[i + 1]) { R.fail("progress-line", fmt("no line after trial %d though %g s have passed since the last; ", i + 1, since) + how); break; }
      if (shown[i + 1]) since = 0;
    }
    if (R.failsThisCase >= 3) return;
  }
}
static bool readCols(const string &fn, vector<vector<double>> &rows, string *head = NULL) {
  std::ifstream in(fn);
  if (!in) return false;
  string l;
  bool first = true;
  while (std::getline(in, l)) {
    if (first && head) { *head = l; first = false; continue; }
    first = false;
    std::istringstream ss(l);
    vector<double> r; double v;
    while (ss >> v) r.push_back(v);
    if (!ss.eof()) return false;
    rows.push_back(r);
  }
  return true;
}
static void benchCase(Run &R, const Subject &s, const vector<double> &alpha, int depth, int part, int parts) {
  s.m->write(s.m->nO ? "t.pomdp" : "t.mdp");
  vector<Rec> tr;
  if (!freeRun(R, s, depth + 3, tr)) return;
  vector<vector<double>> seqs = {{}};
  for (int d = 0; d < depth; d++) { vector<vector<double>> n; for (auto &q : seqs) for (double x : alpha) { auto r = q; r.push_back(x); n.push_back(r); } seqs.swap(n); }
  bool policy = s.lower && s.m->nO;
  struct Crit { double T; long nb; double L, U; int done; };
  vector<Crit> crits = {{1e9, -1, -999, -999, depth}, {1e9, -1, -999, -999, 1}};
  for (double T : {0.35, 1.15, 5.05, 23.45}) crits.push_back({T, -1, -999, -999, -1});
  for (int i = 0; i < std::min(depth, 3); i++) {
    crits.push_back({-1, tr[i].backups, -999, -999, -1});
    if (s.lower) { crits.push_back({-1, -1, tr[i].lb, -999, -1}); crits.push_back({-1, -1, tr[i].lb + 1e-7 * (1 + fabs(tr[i].lb)), -999, -1}); }
    if (s.upper) { crits.push_back({-1, -1, -999, tr[i].ub, -1}); crits.push_back({-1, -1, -999, tr[i].ub - 1e-7 * (1 + fabs(tr[i].ub)), -1}); }
  }
  crits.push_back({-1, 0, -999, -999, 2});
  if (s.lower && s.upper) crits.push_back({2.35, tr[1].backups + 1, tr[2].lb + 1e-3, tr[2].ub - 1e-3, -1});
  long no = 0;
  for (auto &q : seqs) for (auto &c : crits) for (double first : {0.15, 1.55}) for (double ticks : {1.0, 3.0, 10.0}) for (double ev : {0.0, 3.0}) for (int twh : {0, 1}) {
    if (no++ % parts != part) continue;
    double initT = 0.77;
    double t = 1e-20, te = -1;
    int N = 0;
    bool tie = false, finished = false;
    vector<int> epochs;
    vector<double> when;
    for (int i = 0; i < depth + 3; i++) {
      t += at(q, i) + (i == 0 && !twh ? initT : 0);
      when.push_back(t);
      bool fin = tr[i].done || (c.nb > 0 && tr[i].backups >= c.nb) || i == c.done;
      if (s.lower && s.upper && s.p > 0 && tr[i].ub - tr[i].lb <= s.p) fin = true;
      if (s.lower && c.L != -999 && tr[i].lb >= c.L) fin = true;
      if (s.upper && c.U != -999 && tr[i].ub <= c.U) fin = true;
      bool out = c.T > 0 && t >= c.T;
      if (c.T > 0 && fabs(t - c.T) < 1e-4) tie = true;
      bool ep = t > first && (te < 0 || log10(t / te) > 1 / ticks);
      if (fabs(t - first) < 1e-4 || (te > 0 && fabs(log10(t / te) - 1 / ticks) < 1e-5)) tie = true;
      if (i == depth + 2) fin = true;
      if (ep || fin || out) { epochs.push_back(i); te = t; }
      if (fin || out) { N = i + 1; break; }
    }
    if (tie) { R.count("ties"); continue; }
    Plan p; p.delta = q; p.doneAt = N == depth + 3 && c.done < 0 ? depth + 2 : c.done; p.evalTime = ev; p.initTime = initT; p.readTime = 13;
    vector<string> a = base("benchmark", s);
    for (string x : {string("-o"), string(policy ? "t.policy" : "none"), string("-t"), fmt("%.17g", c.T), string("--terminateNumBackups"), fmt("%ld", c.nb),
                     string("--terminateLowerBoundValue"), fmt("%.17g", c.L), string("--terminateUpperBoundValue"), fmt("%.17g", c.U),
                     string("--evaluationFirstEpochWallclockSeconds"), fmt("%g", first), string("--evaluationEpochsPerMagnitude"), fmt("%g", ticks),
                     string("--useTimeWithoutHeuristic"), fmt("%d", twh), string("-i"), string("2"), string("--evaluationMaxStepsPerTrial"), string("2"),
                     string("--storageOutputFile"), string("t.storage")}) a.push_back(x);
    for (const char *f : {"t.policy", "t.storage", "inc.plot", "bounds.plot"}) unlink(f);
    Out o = runMain(a, p);
    R.count("runs"); R.count("transitions", gT->n);
    string how = joinA(a) + planStr(p);
    if (o.code != 0) { R.fail("run", fmt("exit code %d signal %d ", o.code, o.sig) + o.err + how); return; }
    if (gT->n != N) {
      R.fail(gT->n > N ? "stops-late" : "stops-early", fmt("stopped after %d trials, has to stop after %d (state then: [%.9g, %.9g], %ld backups, elapsed %g); ", gT->n, N, tr[N - 1].lb, tr[N - 1].ub, tr[N - 1].backups, when[N - 1]) + how);
      if (R.failsThisCase >= 3) return;
      continue;
    }
    for (int i = 0; i < N; i++) if (!sameRec(gT->r[i], tr[i])) { R.fail("evaluation-disturbs", fmt("the planner's state after trial %d differs from that of a run without evaluation; ", i + 1) + how); break; }
    vector<vector<double>> inc, bnd, sto;
    string head;
    if (!readCols("inc.plot", inc)) { R.fail("inc-file", "unreadable; " + how); return; }
    string got;
    for (auto &r : inc) got += fmt(" %g", r.empty() ? -1 : r[0]);
    bool ok = inc.size() == epochs.size();
    for (size_t k = 0; ok && k < epochs.size(); k++) {
      auto &r = inc[k];
      ok = r.size() == 5 && near6(r[0], when[epochs[k]], 1e-5);
      if (ok && !(r[2] <= r[1] + 1e-9 && r[1] <= r[3] + 1e-9 && r[4] >= 0 && r[4] <= 1)) R.fail("inc-file", fmt("mean %g quantiles %g %g success %g; ", r[1], r[2], r[3], r[4]) + how);
    }
    if (!ok) {
      string want;
      for (int e : epochs) want += fmt(" %g", when[e]);
      R.fail("epochs", "evaluation epochs at" + got + ", have to be at" + want + "; " + how);
    }
    R.count("epochs", epochs.size());
    if (!readCols("t.storage", sto) || sto.size() != epochs.size()) R.fail("storage-file", fmt("%zu lines for %zu epochs; ", sto.size(), epochs.size()) + how);
    else for (size_t k = 0; k < sto.size(); k++) {
      auto &r = sto[k];
      if (r.size() != 10 || fabs(r[0] - when[epochs[k]]) > 2e-5 || r[1] != r[3] + r[5] + r[7] + r[9]) { R.fail("storage-file", fmt("line %zu; ", k + 1) + how); break; }
      const long *st = gT->r[epochs[k]].st;
      for (int j = 0; j < 8; j++) if (st[j] >= 0 && r[2 + j] != st[j]) { R.fail("storage-file", fmt("line %zu figure %d: %g, the planner holds %ld; ", k + 1, j + 3, r[2 + j], st[j]) + how); k = sto.size() - 1; break; }
      if (policy && k + 1 == sto.size()) {
        vector<FilePlane> f; string why;
        if (!readPolicyFile("t.policy", f, why)) { R.fail("policy-file", why + "; " + how); break; }
        size_t ent = 0;
        for (auto &pl : f) ent += pl.e.size();
        if (f.size() != (size_t)r[2]) R.fail("storage-file", fmt("%g elements recorded, the policy written has %zu planes; ", r[2], f.size()) + how);
      }
    }
    // the progress record
    if (!readCols("bounds.plot", bnd, &head)) { R.fail("bounds-file", "unreadable; " + how); return; }
    if (head.empty() || head[0] != '#') R.fail("bounds-file", "starts with '" + head + "'; " + how);
    long last = 0;
    double lastT = -1;
    for (auto &r : bnd) {
      R.count("lines");
      if (r.size() != 7) { R.fail("bounds-file", "line with other than 7 figures; " + how); break; }
      long k = (long)r[5];
      if (k <= last || k > N) { R.fail("bounds-file", fmt("trial %ld after trial %ld; ", k, last) + how); break; }
      const Rec &x = gT->r[k - 1];
      if (!near6(r[0], when[k - 1], 1e-5) || (s.lower && !near6(r[1], x.lb)) || (s.upper && !near6(r[2], x.ub)) || !near6(r[3], x.touched) || !near6(r[4], x.expanded) || !near6(r[6], x.backups)) {
        R.fail("bounds-file", fmt("line %g %g %g %g %g %g %g; the state after trial %ld is %g %g %g %ld %ld %ld %ld; ", r[0], r[1], r[2], r[3], r[4], r[5], r[6], k, when[k - 1], x.lb, x.ub, x.touched, x.expanded, k, x.backups) + how);
        break;
      }
      for (long j = last; j < k - 1; j++) {
        if (j == 0 && last == 0) { R.fail("bounds-file", "no line for the first trial; " + how); break; }
        if (lastT > 0 && when[j] > lastT * 1.001) { R.fail("bounds-file", fmt("no line for trial %ld at %g, the line before is for %g; ", j + 1, when[j], lastT) + how); break; }
      }
      last = k; lastT = when[k - 1];
    }
    if (bnd.empty() || (last < N && when[N - 1] > lastT * 1.001)) R.fail("bounds-file", fmt("the last line is for trial %ld of %d; ", last, N) + how);
    if (last < N && (tr[N - 1].done || N - 1 == p.doneAt || (c.nb > 0 && tr[N - 1].backups >= c.nb))) R.fail("bounds-file", fmt("no line for the last trial; ") + how);
    R.outcome(mix(mix(N, epochs.size()), mix(hdbl(when[N - 1]), bnd.size())));
    if (R.failsThisCase >= 3) return;
  }
}
// every pair of points in time from a grid that contains all carries
static void timeCase(Run &R) {
  using namespace zmdp;
  vector<long> secs = {0, 1, 2, 59, 100000, 1700000000}, us = {0, 1, 2, 499999, 500000, 500001, 999998, 999999};
  auto norm = [](const timeval &t) { return t.tv_usec >= 0 && t.tv_usec < 1000000; };
  auto tot = [](const timeval &t) { return (long long)t.tv_sec * 1000000 + t.tv_usec; };
  for (long s1 : secs) for (long u1 : us) for (long s2 : secs) for (long u2 : us) {
    timeval a, b;
    a.tv_sec = s1; a.tv_usec = u1; b.tv_sec = s2; b.tv_usec = u2;
    timeval d = a - b, p = a + b;
    R.count("time_pairs"); R.count("transitions");
    string w = fmt("(%ld,%ld) and (%ld,%ld)", s1, u1, s2, u2);
    if (tot(d) != tot(a) - tot(b) || !norm(d)) R.fail("time-arithmetic", "difference of " + w + fmt(" is (%ld,%ld)", (long)d.tv_sec, (long)d.tv_usec));
    if (tot(p) != tot(a) + tot(b) || !norm(p)) R.fail("time-arithmetic", "sum of " + w + fmt(" is (%ld,%ld)", (long)p.tv_sec, (long)p.tv_usec));
    if ((a < b) != (tot(a) < tot(b))) R.fail("time-arithmetic", "order of " + w);
    if (fabs(timevalToSeconds(a) - tot(a) * 1e-6) > 1e-6) R.fail("time-arithmetic", "seconds of " + w);
    timeval r = secondsToTimeval(timevalToSeconds(a));
    if (llabs(tot(r) - tot(a)) > 1 || !norm(r)) R.fail("time-arithmetic", "round trip of " + w + fmt(": (%ld,%ld)", (long)r.tv_sec, (long)r.tv_usec));
    gLive = true;
    gClock = timevalToSeconds(b);
    StopWatch sw;
    gClock = timevalToSeconds(a);
    double e = sw.elapsedTime();
    gLive = false;
    if (fabs(e - (tot(a) - tot(b)) * 1e-6) > 3e-6) R.fail("time-arithmetic", "stop watch from " + w + fmt(": %.9g", e));
    if (R.failsThisCase >= 3) return;
  }
}
void mc_enumerate(Run &R) {
  R.run([] { return string("time arithmetic"); }, [&] { timeCase(R); });
  vector<Model> f2, f3, fc, fm;
  family2(f2, 0); family3(f3, 0); familyCorridor(fc, 0); familyMDP(fm, 0);
  // models whose planning takes several trials
  struct Pick { const Model *m; string strat; double p; vector<string> opts; };
  vector<Pick> picks;
  auto trials = [&](const Model &m, const string &st, double p) {
    m.write(m.nO ? "t.pomdp" : "t.mdp");
    Plan pl; pl.freeN = 6;
    vector<string> a = base("solve", Subject{&m, st, p, true, true, {}});
    a.push_back("-o"); a.push_back("none");
    runMain(a, pl);
    int i = 0;
    while (i < gT->n && !gT->r[i].done) i++;
    return i;
  };
  int wanted = 0;
  auto pick = [&](vector<Model> &f, const string &st, double p, size_t want, bool goal, size_t skip) {
    size_t got = 0, tried = 0;
    wanted += want;
    for (size_t i = skip; i < f.size() && got < want && tried < 60; i += std::max<size_t>(1, f.size() / 71)) {
      if (goal && !isGoalModel(f[i])) continue;
      tried++;
      if (trials(f[i], st, p) >= 3) { picks.push_back({&f[i], st, p, {}}); got++; }
    }
  };
  size_t k = R.thorough ? 6 : 1;
  for (double p : {1e-6, 1e-2}) { pick(f2, "hsvi", p, k, false, 7); pick(f2, "frtdp", p, k, false, 5); }
  pick(f3, "frtdp", 1e-4, k, false, 3); pick(f3, "hsvi", 1e-4, k, false, 2);
  pick(fc, "hsvi", 1e-3, k, true, 0); pick(fc, "lrtdp", 1e-3, 1, true, 0); pick(fc, "rtdp", 1e-3, 1, true, 1);
  pick(fm, "lrtdp", 1e-3, k, true, 1); pick(fm, "rtdp", 1e-3, 1, true, 2); pick(fm, "hdp", 1e-3, 1, true, 3); pick(fm, "frtdp", 1e-5, k, true, 4);
  for (size_t i : {20, 45}) { picks.push_back({&f2[i], "hsvi", 0, {}}); picks.push_back({&f2[i + 1], "frtdp", -1, {}}); }
  R.run([&] { return string("choice of models"); }, [&] {
    R.count("models", picks.size());
    if ((int)picks.size() < wanted / 2) R.fail("no-trials", fmt("only %zu of %d planning problems take more than two trials", picks.size(), wanted));
  });
  for (auto &c : picks) {
    bool both = c.strat == "hsvi" || c.strat == "frtdp";
    Subject s = {c.m, c.strat, c.p, both, true, c.opts};
    auto name = [&] { return c.strat + fmt(" p=%g ", c.p) + c.m->name + "\n" + c.m->text(); };
    for (double x : {0.0, 0.35, 1.1, 10.9}) {
      vector<double> al = {0.0, 0.35, 1.1, 10.9};
      (void)x;
      R.run([&] { return "solve " + name(); }, [&] { solveCase(R, s, R.thorough ? al : vector<double>{0.0, 1.1, 10.9}, R.thorough ? 4 : 3); });
      break;
    }
    int parts = R.thorough ? 8 : 3;
    for (int j = 0; j < parts; j++)
      R.run([&] { return fmt("benchmark part %d ", j) + name(); }, [&] { benchCase(R, s, R.thorough ? vector<double>{0.0, 0.11, 0.9, 9.7} : vector<double>{(&c - &picks[0]) % 2 ? 0.0 : 0.11, 0.9, 9.7}, R.thorough ? 4 : 3, j, parts); });
  }
}
