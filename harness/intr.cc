// intr.cc - P20: the real tool under every single interruption: SIGINT or expiry of the time
// limit at every clock / file-system call of the improvement phase of 'solve', a kill at
// every call (and inside every write) of the policy rewriting of 'benchmark', and the disk
// filling up at every write.
#include "cli.h"
#include "models.h"
#include "policyfile.h"
#include <dirent.h>
using namespace mc;
static string D;   // working directory of this shard
static string model(const Model &m) { string fn = m.nO ? "m.pomdp" : "m.mdp"; m.write(D + "/" + fn); return fn; }
struct Env {
  int start = 1, clock = 1; long at = -1, at2 = -1, torn = 0, step = 1000; string mode, path, dir;
};
static Cli runShim(const vector<string> &args, const Env &e, string *log = NULL, double limit = 20) {
  CliOpt o;
  o.dir = e.dir == "" ? D : e.dir;
  o.limit = limit;
  o.env = {{"LD_PRELOAD", getenv("MC_SHIM")}, {"ZS_START", fmt("%d", e.start)}, {"ZS_CLOCK", fmt("%d", e.clock)},
           {"ZS_AT", fmt("%ld", e.at)}, {"ZS_AT2", fmt("%ld", e.at2)}, {"ZS_MODE", e.mode}, {"ZS_TORN", fmt("%ld", e.torn)},
           {"ZS_STEP", fmt("%ld", e.step)}};
  if (e.path != "") o.env.push_back({"ZS_PATH", e.path});
  if (log) o.env.push_back({"ZS_LOG", D + "/zs.log"});
  Cli r = runCli(binary("zmdp"), args, o);
  if (log) { log->clear(); slurp(D + "/zs.log", *log); }
  return r;
}
struct Ev { string what, arg; long n; };
static vector<Ev> events(const string &log) {
  vector<Ev> r;
  std::istringstream in(log);
  long k; Ev e;
  while (in >> k >> e.what >> e.arg >> e.n) r.push_back(e);
  return r;
}
// the last progress line of solve
static bool progress(const string &out, long &calls, double &lb, double &ub) {
  size_t p = out.rfind("calls to solver, bounds [");
  if (p == string::npos) return false;
  size_t q = out.rfind('\n', p);
  q = q == string::npos ? 0 : q + 1;
  long t;
  return sscanf(out.c_str() + q, "%ld %ld calls to solver, bounds [%lf .. %lf]", &t, &calls, &lb, &ub) == 4;
}
static string tail(const string &s, size_t n = 300) { return s.size() > n ? s.substr(s.size() - n) : s; }

struct Solve { const Model *m; string strat; vector<string> opts; bool policy; };
// what must be true of a solve run that was interrupted (or not)
static bool checkSolve(Run &R, const Solve &s, Oracle &orc, const Cli &c, const string &how, long &calls, const vector<Vec> &reachable) {
  R.count("runs");
  if (!c.ok()) { R.fail("not-orderly", how + ": " + c.status() + " " + tail(c.err) + tail(c.out)); return false; }
  double lb, ub, lo, hi;
  if (!progress(c.out, calls, lb, ub)) { R.fail("no-final-bounds", how + ": " + tail(c.out)); return false; }
  double tol = 1e-4 + 1e-6 * s.m->span();
  if (!orc.value(s.m->b0, lo, hi)) abort();
  bool hasL = s.policy;
  if ((hasL && lb > hi + tol) || ub < lo - tol) R.fail("reported-bounds", how + fmt(": reported [%g, %g], optimal value %g", lb, ub, (lo + hi) / 2));
  string fn = D + "/out.policy";
  if (!s.policy) return true;
  vector<FilePlane> f;
  string why;
  if (access(fn.c_str(), R_OK)) { R.fail("no-policy", how + ": no policy file; " + tail(c.out)); return false; }
  if (!readPolicyFile(fn, f, why)) { R.fail("incomplete-policy", how + ": policy file: " + why); return false; }
  for (auto &p : f) if (p.action < 0 || p.action >= s.m->nA) { R.fail("incomplete-policy", how + fmt(": action %d", p.action)); return false; }
  double v = fileVal(f, s.m->b0);
  double big = 1;
  for (auto &p : f) for (auto &x : p.e) big = std::max(big, fabs(x.second));
  double pt = 6e-6 * big + 1e-4;
  if (fabs(v - lb) > pt + 6e-5) R.fail("policy-bound", how + fmt(": the file guarantees %g from the start, reported %g", v, lb));
  for (auto &b : reachable) {
    double l2, h2;
    if (!orc.value(b, l2, h2)) continue;
    R.count("beliefs");
    if (fileVal(f, b) > h2 + pt) { R.fail("invalid-policy", how + fmt(": value %g in the file, optimal %g", fileVal(f, b), h2)); break; }
  }
  R.outcome(mix(mix(hdbl(lb), hdbl(ub)), hstr(s.m->name + s.strat)));
  return true;
}
static vector<string> solveArgs(const Solve &s, const string &fn) {
  vector<string> a = {"solve", fn, "-s", s.strat, "-o", s.policy ? "out.policy" : "none"};
  for (auto &x : s.opts) a.push_back(x);
  return a;
}
static void doSolveCase(Run &R, const Solve &s) {
  string fn = model(*s.m);
  vector<Vec> reachable = {s.m->b0};
  if (s.m->nO) for (size_t i = 0; i < reachable.size() && reachable.size() < 40; i++) {
    Vec b = reachable[i];
    for (int a = 0; a < s.m->nA; a++) for (int o = 0; o < s.m->nO; o++) {
      Vec nb(s.m->nS, 0.0); double p = 0;
      for (int t = 0; t < s.m->nS; t++) { for (int x = 0; x < s.m->nS; x++) nb[t] += b[x] * s.m->T[a][x][t]; nb[t] *= s.m->O[a][t][o]; p += nb[t]; }
      if (p < 1e-9) continue;
      bool tiny = false;
      for (double &x : nb) { x /= p; tiny |= x > 0 && x < 2e-6; }
      bool dup = false;
      for (auto &q : reachable) { double d = 0; for (size_t k = 0; k < q.size(); k++) d = std::max(d, fabs(q[k] - nb[k])); if (d < 1e-10) dup = true; }
      if (!tiny && !dup) reachable.push_back(nb);
    }
  }
  Oracle orc(*s.m, s.m->nO ? reachable : vector<Vec>{s.m->b0}, 800);
  vector<string> args = solveArgs(s, fn);
  string log;
  Env e;
  bool endless = s.strat == "rtdp";
  long n0 = 0, calls = 0;
  unlink((D + "/out.policy").c_str());
  vector<Ev> ev;
  if (!endless) {
    Cli c = runShim(args, e, &log);
    if (!checkSolve(R, s, orc, c, "undisturbed", n0, reachable)) return;
    ev = events(log);
    if (ev.empty()) { R.fail("no-handler", "no SIGINT handler was installed in the whole run"); return; }
  } else ev.resize(R.thorough ? 120 : 60);
  R.count("events", ev.size());
  size_t N = ev.size(), cap = R.thorough ? 600 : 120;
  // the middle of a long improvement phase is only repetition: all of its beginning and end
  vector<long> at;
  for (size_t k = 1; k <= N; k++) if (N <= cap || k <= cap / 2 || k + cap / 2 > N) at.push_back(k);
  for (const char *mode : {"int", "jump"}) {
    long prev = 0, prevK = 0;
    for (long k : at) {
      Env x = e;
      x.mode = mode; x.at = k;
      vector<string> a = args;
      if (x.mode == "jump") { a.push_back("-t"); a.push_back("100000"); }
      if (s.policy) unlink((D + "/out.policy").c_str());
      Cli c = runShim(a, x);
      string how = x.mode + fmt(" at call %ld of %zu (%s): ", k, N, ev[k - 1].what.c_str()) + joinArgs(a);
      if (!checkSolve(R, s, orc, c, how, calls, reachable)) { if (R.failsThisCase >= 3) return; continue; }
      R.count("transitions");
      // interrupted one call later, the run is at most one trial longer: it did stop
      if (prevK && k == prevK + 1 && (calls < prev || calls > prev + 1)) R.fail("not-prompt", how + fmt(": %ld trials, %ld when interrupted one call earlier", calls, prev));
      if (prevK == 0 && calls > 1 && x.mode == "int") R.fail("not-prompt", how + fmt(": %ld trials after an interruption before the first", calls));
      if (n0 && calls > n0) R.fail("not-prompt", how + fmt(": %ld trials, undisturbed %ld", calls, n0));
      prev = calls; prevK = k;
    }
  }
  // a second SIGINT
  if (R.thorough || N < 30) {
    size_t lim = R.thorough ? 60 : 30;
    for (size_t i = 1; i <= N && i <= lim; i++) for (size_t j = i + 1; j <= N && j <= lim; j++) {
      Env x = e; x.mode = "int"; x.at = i; x.at2 = j;
      if (s.policy) unlink((D + "/out.policy").c_str());
      Cli c = runShim(args, x);
      checkSolve(R, s, orc, c, fmt("SIGINT at calls %zu and %zu", i, j), calls, reachable);
      R.count("transitions");
      if (R.failsThisCase >= 3) return;
    }
  }
  // the disk fills up while the policy is written: no silent success
  if (s.policy) for (size_t k = 1; k <= N; k++) if (ev[k - 1].what == "write") {
    Env x = e; x.mode = "full"; x.at = k;
    unlink((D + "/out.policy").c_str());
    Cli c = runShim(args, x);
    R.count("runs"); R.count("transitions");
    vector<FilePlane> f; string why;
    if (c.ok() && !readPolicyFile(D + "/out.policy", f, why)) { R.fail("silent-disk-full", fmt("disk full at call %zu: exit 0 with an incomplete policy (%s) and no error; ", k, why.c_str()) + tail(c.err)); break; }
    if (c.sig || c.timedout) R.fail("not-orderly", fmt("disk full at call %zu: ", k) + c.status());
  }
}
// ---- benchmark: every crash point of the policy rewriting
static std::map<string, string> dirFiles(const string &prefix) {
  std::map<string, string> r;
  DIR *dp = opendir(D.c_str());
  struct dirent *e;
  while ((e = readdir(dp))) if (!strncmp(e->d_name, prefix.c_str(), prefix.size())) { string s; if (slurp(D + "/" + e->d_name, s)) r[e->d_name] = s; }
  closedir(dp);
  return r;
}
static void clearPolicies() { for (auto &p : dirFiles("bench.pol")) unlink((D + "/" + p.first).c_str()); }
static bool complete(const string &text) {
  string fn = D + "/probe";
  spit(fn, text);
  vector<FilePlane> f; string why;
  return readPolicyFile(fn, f, why) && !f.empty();
}
static void doBenchCase(Run &R, const Model &m, const string &strat, int prior, const vector<string> &opts, bool allBytes) {
  string fn = model(m);
  clearPolicies();
  vector<string> args = {"benchmark", fn, "-s", strat, "-o", "bench.pol", "-i", "2", "--evaluationMaxStepsPerTrial", "3",
                         "--evaluationFirstEpochWallclockSeconds", "0.0001", "--evaluationEpochsPerMagnitude", R.thorough ? "20" : "4"};
  for (auto &x : opts) args.push_back(x);
  // the policy of an earlier run
  string old;
  {
    vector<string> a = {"solve", fn, "-s", strat, "-o", "bench.old", "--terminateNumBackups", "1"};
    Env e;
    Cli c = runShim(a, e);
    if (!c.ok() || !slurp(D + "/bench.old", old) || !complete(old)) { R.fail("not-orderly", "solve for the earlier policy: " + c.status() + tail(c.err)); return; }
    old = "# the policy of an earlier run\n" + old;
  }
  Env e; e.start = 2; e.clock = 0; e.path = "bench.pol";
  auto prepare = [&]() { clearPolicies(); if (prior) spit(D + "/bench.pol", old); };
  prepare();
  string log;
  Cli c = runShim(args, e, &log);
  R.count("runs");
  if (!c.ok()) { R.fail("not-orderly", "undisturbed benchmark: " + c.status() + tail(c.err)); return; }
  vector<Ev> ev = events(log);
  string fin;
  if (!slurp(D + "/bench.pol", fin) || !complete(fin)) { R.fail("incomplete-policy", "undisturbed benchmark: no complete policy at the end"); return; }
  if (dirFiles("bench.pol").size() != 1) R.fail("leftover", "undisturbed benchmark leaves more than the policy file: " + dirFiles("bench.pol").rbegin()->first);
  size_t N = ev.size();
  R.count("events", N);
  // what stands complete in the policy file or a file beside it after a kill at each call,
  // and since which call: the same content may come back
  std::map<string, long> since;
  std::set<string> all;
  if (prior) since[old] = 0;
  string mainNow = prior ? old : "";      // complete content under the name given, so far
  long mustKeep = prior ? 0 : -1;
  auto look = [&]() {
    std::set<string> r;
    for (auto &p : dirFiles("bench.pol")) if (complete(p.second)) r.insert(p.second);
    return r;
  };
  auto newest = [&](const std::set<string> &c, long k) {
    long b = -1;
    for (auto &x : c) b = std::max(b, since.count(x) ? since[x] : k);
    return b;
  };
  bool published = prior;     // a complete policy has stood under the name given
  for (size_t k = 1; k <= N + 1; k++) {
    // the writes in the middle of a file say nothing new for "whole" crashes at quick
    vector<long> torn = {-1};
    if (k <= N && ev[k - 1].what == "write") {
      long n = ev[k - 1].n;
      std::set<long> t = {1, n / 2, n - 1};
      if (allBytes) for (long i = 1; i < n; i++) t.insert(i);
      if (!allBytes && k > 3 && k + 3 < N && ev[k - 2].what == "write" && ev[k].what == "write" && k % 4) t.clear();
      for (long i : t) if (i > 0 && i < n) torn.push_back(i);
    }
    for (long t : torn) {
      prepare();
      Env x = e;
      x.at = k; x.mode = t < 0 ? "crash" : "torn"; x.torn = t < 0 ? 0 : t;
      Cli d = k <= N ? runShim(args, x) : runShim(args, e);
      R.count("runs"); R.count("transitions");
      if (k <= N && d.sig != SIGKILL) { R.fail("not-orderly", fmt("crash injected at call %zu: ", k) + d.status()); return; }
      std::set<string> have = look();
      string how = k <= N ? fmt("killed %s call %zu of %zu (%s %s)", t < 0 ? "before" : fmt("after %ld of %ld bytes of", t, ev[k - 1].n).c_str(), k, N, ev[k - 1].what.c_str(), ev[k - 1].arg.c_str()) : string("at the end");
      if (mustKeep >= 0 && newest(have, k) < mustKeep) {
        string l;
        for (auto &p : dirFiles("bench.pol")) l += p.first + fmt("(%zu bytes%s) ", p.second.size(), complete(p.second) ? ", complete" : "");
        R.fail("policy-lost", how + fmt(": neither the policy that stood there (since call %ld) nor a newer one is left: %s; %s", mustKeep, l.c_str(), joinArgs(args).c_str()));
        if (R.failsThisCase >= 3) return;
      }
      if (t < 0) {
        for (auto it = since.begin(); it != since.end();) if (!have.count(it->first)) it = since.erase(it); else ++it;
        for (auto &x : have) { since.insert({x, (long)k}); all.insert(x); }
        string p;
        if (slurp(D + "/bench.pol", p) && complete(p)) { published = true; mustKeep = since[p]; }
      }
      R.outcome(mix(hstr(m.name), mix(k, mix(have.size(), dirFiles("bench.pol").size()))));
      // starting again after the crash works, and a second crash loses nothing either
      if (t == 1 || (t < 0 && k <= N && ev[k - 1].what != "write")) {
        std::map<string, string> left = dirFiles("bench.pol");
        auto again = [&]() { clearPolicies(); for (auto &p : left) spit(D + "/" + p.first, p.second); };
        if (R.thorough || k % 5 == 0 || ev[k - 1].what != "write") {
          size_t N2 = R.thorough ? 60 : 12;
          for (size_t k2 = 1; k2 <= N2; k2++) {
            again();
            Env y = e; y.mode = "crash"; y.at = k2;
            Cli g = runShim(args, y);
            R.count("runs"); R.count("transitions");
            bool any = false;
            for (auto &p : dirFiles("bench.pol")) any |= complete(p.second);
            if (!any && published) {
              R.fail("policy-lost", how + fmt(", then killed again before call %zu of the next run: no complete policy is left", k2));
              if (R.failsThisCase >= 3) return;
              break;
            }
          }
        }
        again();
        Cli g = runShim(args, e);
        R.count("runs");
        string f2;
        if (!g.ok() || !slurp(D + "/bench.pol", f2) || !complete(f2)) R.fail("no-restart", how + ": the next run " + g.status() + " without a complete policy " + tail(g.err));
        else if (f2 != fin) R.fail("no-restart", how + ": the next run ends with another policy");
      }
      // disk full instead of a crash
      if (t < 0 && k <= N && ev[k - 1].what == "write" && (R.thorough || k % 3 == 0)) {
        prepare();
        Env y = e; y.mode = "full"; y.at = k;
        Cli g = runShim(args, y);
        R.count("runs"); R.count("transitions");
        if (published && look().empty()) R.fail("policy-lost", fmt("disk full from call %zu on: no complete policy is left", k));
        if (g.ok()) { string f2; if (!slurp(D + "/bench.pol", f2) || !complete(f2)) R.fail("silent-disk-full", fmt("disk full from call %zu on: exit 0 with an incomplete policy", k)); }
        if (g.sig || g.timedout) R.fail("not-orderly", fmt("disk full from call %zu on: ", k) + g.status());
        if (R.failsThisCase >= 3) return;
      }
    }
  }
  R.count("policy_versions", all.size());
}
void mc_enumerate(Run &R) {
  char buf[4096];
  D = getcwd(buf, sizeof buf);
  vector<Model> all, f2, f3, fc, fm;
  family2(f2, 0); family3(f3, 0); familyCorridor(fc, 0); familyMDP(fm, 0);
  size_t step2 = R.thorough ? f2.size() / 30 : f2.size() / 10, step3 = R.thorough ? f3.size() / 30 : f3.size() / 8;
  for (size_t i = 0; i < f2.size(); i += std::max<size_t>(step2, 1)) all.push_back(f2[i]);
  for (size_t i = 0; i < f3.size(); i += std::max<size_t>(step3, 1)) all.push_back(f3[i]);
  for (size_t i = 0; i < fc.size(); i += std::max<size_t>(1, fc.size() / (R.thorough ? 8 : 3))) all.push_back(fc[i]);
  vector<vector<string>> variants = {{}, {"--useMaxPlanesMasking", "0", "--useMaxPlanesSupportList", "0"}, {"--useMaxPlanesExtraPruning", "0"}};
  int vi = 0;
  for (auto &m : all) {
    for (string st : {"frtdp", "hsvi"}) {
      vector<string> o = variants[vi++ % 3];
      o.push_back("-p"); o.push_back("1e-2");
      R.run([&] { return "solve " + st + " " + m.name + " " + joinArgs(o) + "\n" + m.text(); }, [&] { doSolveCase(R, {&m, st, o, true}); });
    }
    if (isGoalModel(m)) {
      vector<string> o = {"--lowerBoundRepresentation", "maxPlanes", "--upperBoundRepresentation", "point"};
      R.run([&] { return "solve rtdp " + m.name + "\n" + m.text(); }, [&] { doSolveCase(R, {&m, "rtdp", o, false}); });
    }
  }
  for (size_t i = 0; i < fm.size(); i += std::max<size_t>(1, fm.size() / (R.thorough ? 12 : 4)))
    for (string st : {"frtdp", "hsvi", "lrtdp", "hdp"}) if (st != "lrtdp" || isGoalModel(fm[i]))
      R.run([&] { return "solve " + st + " " + fm[i].name + "\n" + fm[i].text(); }, [&] { doSolveCase(R, {&fm[i], st, {"-p", "1e-2"}, false}); });
  int bi = 0;
  for (auto &m : all) {
    if (!R.thorough && bi++ % 3) continue;
    for (int prior : {0, 1})
      for (string st : {"frtdp", "hsvi"}) {
        if (!R.thorough && (prior == 0) != (st == "hsvi")) continue;
        R.run([&] { return fmt("benchmark %s prior=%d ", st.c_str(), prior) + m.name + "\n" + m.text(); },
              [&] { doBenchCase(R, m, st, prior, {"-p", "3e-2"}, R.thorough && m.nS == 2); });
      }
  }
}
