// opt.cc - P22: every combination of documented option values runs cleanly or is refused.
// main() of zmdp runs in a forked child of this process, built with address and
// undefined-behaviour sanitizers.
#include <assert.h>
#include <getopt.h>
#include <signal.h>
#include <sys/time.h>
#include "mc.h"
#include "models.h"
#include "policyfile.h"
#include <sys/stat.h>
#define CFLAGS "harness"
#define main zmdp_main
#include "zmdp.cc"
#undef main
using namespace mc;
using std::string;
struct Out { int code = -1, sig = 0; bool timedout = false; string out, err; };
static Out runMain(const vector<string> &args, double limit = 20) {
  static int fo = -1, fe = -1;
  if (fo < 0) { fo = memfd_create("o", MFD_CLOEXEC); fe = memfd_create("e", MFD_CLOEXEC); }
  if (ftruncate(fo, 0) || ftruncate(fe, 0)) abort();
  fflush(NULL);
  pid_t pid = fork();
  if (pid == 0) {
    struct itimerval z = {{0, 0}, {(long)limit, 0}};
    for (int s = 1; s < 32; s++) if (s != SIGSEGV && s != SIGBUS && s != SIGFPE && s != SIGILL) signal(s, SIG_DFL);
    setitimer(ITIMER_REAL, &z, NULL);
    struct rlimit fs = {64ul << 20, 64ul << 20};
    setrlimit(RLIMIT_FSIZE, &fs);
    lseek(fo, 0, SEEK_SET); lseek(fe, 0, SEEK_SET);
    dup2(fo, 1); dup2(fe, 2);
    vector<char *> av;
    av.push_back((char *)"zmdp");
    for (auto &a : args) av.push_back((char *)a.c_str());
    av.push_back(NULL);
    int rc = zmdp_main(av.size() - 1, &av[0]);
    fflush(NULL);
    std::cout.flush();
    _exit(rc);
  }
  int st;
  Out o;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st)) o.code = WEXITSTATUS(st); else { o.sig = WTERMSIG(st); o.timedout = o.sig == SIGALRM; }
  auto get = [](int fd) { string s; char b[65536]; ssize_t n; lseek(fd, 0, SEEK_SET); while ((n = read(fd, b, sizeof b)) > 0 && s.size() < 4000000) s.append(b, n); return s; };
  o.out = get(fo); o.err = get(fe);
  return o;
}
static string joinA(const vector<string> &a) { string s; for (auto &x : a) s += x + " "; return s; }
static string tail(const string &s, size_t n = 1500) { return s.size() > n ? s.substr(s.size() - n) : s; }
static bool fileExists(const string &f) { return access(f.c_str(), R_OK) == 0; }
static void spitFile(const string &fn, const string &s) { FILE *f = fopen(fn.c_str(), "w"); if (!f) abort(); fwrite(s.data(), 1, s.size(), f); fclose(f); }

typedef std::map<string, string> Opts;
struct Kind {
  string file;           // as given on the command line
  string type;           // pomdp mdp racetrack custom
  bool goal;             // every policy reaches the end
  bool finite;           // finitely many beliefs
  bool undiscounted;
  string text;
  bool ends() const { return goal && type != "racetrack" && type != "custom"; }   // under any policy
};
static const string kDefaults[][2] = {
  {"searchStrategy", "frtdp"}, {"lowerBoundRepresentation", "-"}, {"upperBoundRepresentation", "-"}, {"maintainLowerBound", "-"}, {"maintainUpperBound", "1"},
  {"policyOutputFile", "-"}, {"useFastModelParser", "0"}, {"terminateRegretBound", "1e-3"}, {"terminateWallclockSeconds", "-1"}, {"terminateNumBackups", "-1"},
  {"maxHorizon", "-1"}, {"runTimeActionSelection", "-"}, {"useMaxPlanesMasking", "1"}, {"useMaxPlanesSupportList", "1"}, {"useMaxPlanesCache", "1"},
  {"useMaxPlanesExtraPruning", "1"}, {"backupScriptInputDir", "none"}, {"evaluationMaxStepsPerTrial", "251"}, {"evaluationTrialsPerEpoch", "1000"}};
static string val(const Opts &o, const string &k) {
  auto it = o.find(k);
  if (it != o.end()) return it->second;
  for (auto &d : kDefaults) if (d[0] == k) return d[1];
  return "";
}
enum Want { RUN, REFUSE, EITHER, SKIP };
// what the documentation says about a combination
static Want expected(const string &cmd, const Kind &m, const Opts &o, string &why) {
  string st = val(o, "searchStrategy"), lr = val(o, "lowerBoundRepresentation"), ur = val(o, "upperBoundRepresentation"), ml = val(o, "maintainLowerBound"), mu = val(o, "maintainUpperBound");
  string rt = val(o, "runTimeActionSelection");
  bool pomdp = m.type == "pomdp";
  bool needL = st == "frtdp" || st == "hsvi", L = ml == "1" || (ml == "-" && needL), U = mu == "1";
  Want w = RUN;
  auto refuse = [&](const string &x) { w = REFUSE; why = x; };
  auto either = [&](const string &x) { if (w == RUN) { w = EITHER; why = x; } };
  if (lr == "maxPlanes" && !pomdp) { if (L) refuse("maxPlanes is for POMDPs"); else either("unused representation"); }
  if (ur == "sawtooth" && !pomdp) { if (U) refuse("sawtooth is for POMDPs"); else either("unused representation"); }
  if (needL && ml == "0") refuse("strategy needs the lower bound");
  if (st != "script" && !U) refuse("strategy needs the upper bound");
  if (!L && !U) refuse("no bound");
  if (rt == "lower" && !L) refuse("acting on a lower bound that is not kept");
  if (rt == "upper" && !U) refuse("acting on an upper bound that is not kept");
  bool planes = pomdp && L && (lr == "-" || lr == "maxPlanes");
  if (val(o, "useMaxPlanesSupportList") == "1" && val(o, "useMaxPlanesMasking") == "0") { if (planes) refuse("support list requires masking"); else either("unused"); }
  if (val(o, "useMaxPlanesExtraPruning") == "1" && val(o, "useMaxPlanesCache") == "0") { if (planes) refuse("extra pruning requires the cache"); else either("unused"); }
  if (m.undiscounted && pomdp && atoi(val(o, "maxHorizon").c_str()) < 0) refuse("undiscounted POMDP without horizon");
  if (m.undiscounted && pomdp && val(o, "maxHorizon") == "0") either("'positive value'");
  if (st == "script") {
    if (val(o, "backupScriptInputDir") == "none") { if (cmd == "benchmark") refuse("script without input"); else either("script outside benchmark"); }
    else if (cmd != "benchmark") either("script outside benchmark");
  }
  if (cmd == "benchmark")
    for (auto &p : o) if (p.second.find("/nowhere/") == 0) { if (p.first == "policyOutputFile" && !planes) either("output file not used"); else refuse("output file that cannot be opened"); }
  if (cmd == "solve")
    for (auto &p : o) if (p.second.find("/nowhere/") == 0) { if (p.first == "policyOutputFile" && planes) refuse("policy file that cannot be opened"); else either("output file not used"); }
  string tr = val(o, "evaluationTrialsPerEpoch");
  if (atoi(tr.c_str()) < 1) { if (cmd == "benchmark") refuse("number of trials below 1"); else either("unused"); }
  if (val(o, "evaluationEpochsPerMagnitude") == "0") either("no epochs per magnitude");
  if (o.count("customMDPNumStates") && m.type == "custom" && atoi(o.at("customMDPNumStates").c_str()) < 2) { if (o.at("customMDPNumStates") == "1") either("custom problem that starts at its end"); else refuse("custom problem without states"); }
  if (o.count("debugLevel") && atoi(o.at("debugLevel").c_str()) > 1) either("debug level beyond documented");
  if (o.count("modelType") && o.at("modelType") != "-" && o.at("modelType") != m.type) either("wrong model type");
  // does it ever stop?
  bool residual = st == "lrtdp" || st == "hdp";
  double reg = atof(val(o, "terminateRegretBound").c_str());
  bool stops = atof(val(o, "terminateWallclockSeconds").c_str()) > 0 || (atoi(val(o, "terminateNumBackups").c_str()) > 0 && U) || (reg > 1e-8 && st != "rtdp") || st == "script" || w == REFUSE;
  if (!stops) return SKIP;
  if ((st == "rtdp" || st == "lrtdp") && !m.goal) return SKIP;
  if (residual && !m.finite) return SKIP;
  // nothing is ever backed up where the start is already the end
  if (m.file == "dead.pomdp" && atof(val(o, "terminateWallclockSeconds").c_str()) <= 0 && (st == "rtdp" || reg <= 0)) return SKIP;
  if (m.file == "dead.pomdp" && val(o, "debugLevel") == "1" && (st == "rtdp" || reg <= 0)) return SKIP;   // debug messages without end
  if (residual && reg < 1e-6 && !(atoi(val(o, "terminateNumBackups").c_str()) > 0)) return SKIP;
  if (cmd == "benchmark" && atoi(val(o, "evaluationMaxStepsPerTrial").c_str()) <= 0 && !m.ends()) return SKIP;   // trials without end
  return w;
}
static bool sane(Run &R, const Out &r, const string &how) {
  if (r.timedout) { R.fail("hang", "no end within 20 s: " + how + tail(r.out, 300)); return false; }
  bool san = r.err.find("ERROR: AddressSanitizer") != string::npos || r.err.find("runtime error:") != string::npos || r.err.find("ERROR: LeakSanitizer") != string::npos;
  if (r.sig || san) {
    size_t p = r.err.find("runtime error:");
    if (p == string::npos) p = r.err.find("ERROR: AddressSanitizer");
    if (p == string::npos) p = r.err.find("Assertion");
    p = p == string::npos ? 0 : p > 200 ? p - 200 : 0;
    R.fail(r.sig == SIGABRT && !san ? "assertion" : "crash", fmt("signal %d exit %d: ", r.sig, r.code) + how + "\n" + r.err.substr(p, 1800));
    return false;
  }
  return true;
}
static bool hasError(const Out &r) { return r.err.size() > 5 || r.out.find("ERROR") != string::npos; }
static int gFails = 0;
static void one(Run &R, const string &cmd, const Kind &m, const Opts &o) {
  string why;
  Want w = expected(cmd, m, o, why);
  if (w == SKIP) { R.count("skipped"); return; }
  vector<string> a = {cmd, m.file};
  for (auto &p : o) { a.push_back("--" + p.first); a.push_back(p.second); }
  for (const char *f : {"out.policy", "x.policy", "inc.plot", "bounds.plot", "q.log", "st.log"}) unlink(f);
  Out r = runMain(a);
  R.count("runs"); R.count("transitions");
  string how = joinA(a);
  R.outcome(mix(hstr(cmd + m.file + val(o, "searchStrategy")), mix(r.code, hstr(r.code ? r.err : ""))));
  if (!sane(R, r, how)) return;
  if (r.code != 0) {
    R.count("refusals");
    if (!hasError(r)) { R.fail("no-message", fmt("exit %d without an error message: ", r.code) + how + tail(r.err) + tail(r.out, 300)); return; }
    if (w == RUN) R.fail("refused", how + ": documented combination refused: " + tail(r.err, 500));
    return;
  }
  if (w == REFUSE) { R.fail("accepted", how + ": has to be refused (" + why + ")"); return; }
  if (w != RUN) return;
  // it ran: it has to have done its work
  string lr = val(o, "lowerBoundRepresentation"), st = val(o, "searchStrategy"), ml = val(o, "maintainLowerBound"), po = val(o, "policyOutputFile");
  bool planes = m.type == "pomdp" && (ml == "1" || (ml == "-" && (st == "frtdp" || st == "hsvi"))) && lr != "point";
  if (po == "-") po = cmd == "solve" ? "out.policy" : "none";
  if (cmd == "solve" && r.out.find(" done\n") == string::npos) R.fail("unfinished", how + ": " + tail(r.out, 300));
  if (cmd == "benchmark") {
    string f = o.count("evaluationOutputFile") ? o.at("evaluationOutputFile") : "inc.plot";
    std::ifstream in(f);
    string l;
    if (!std::getline(in, l)) R.fail("unfinished", how + ": no evaluation recorded " + tail(r.out, 300));
  }
  if (planes && po != "none" && st != "script") {
    vector<FilePlane> f; string y;
    if (!readPolicyFile(po, f, y)) R.fail("no-policy", how + ": policy file " + po + ": " + y);
  }
}
static vector<std::pair<string, string>> deviations(const string &cmd) {
  vector<std::pair<string, string>> d = {
    {"lowerBoundRepresentation", "point"}, {"lowerBoundRepresentation", "maxPlanes"}, {"upperBoundRepresentation", "point"}, {"upperBoundRepresentation", "sawtooth"},
    {"maintainLowerBound", "0"}, {"maintainLowerBound", "1"}, {"maintainUpperBound", "0"}, {"policyOutputFile", "none"}, {"policyOutputFile", "x.policy"}, {"policyOutputFile", "/nowhere/p"},
    {"useFastModelParser", "1"}, {"terminateRegretBound", "-1"}, {"terminateRegretBound", "0"}, {"terminateRegretBound", "0.5"}, {"terminateRegretBound", "1e-9"},
    {"terminateWallclockSeconds", "-1"}, {"terminateWallclockSeconds", "1e-9"}, {"terminateNumBackups", "-1"}, {"terminateNumBackups", "0"}, {"terminateNumBackups", "1"},
    {"debugLevel", "1"}, {"maxHorizon", "3"}, {"maxHorizon", "0"}, {"useWeakUpperBoundHeuristic", "1"}, {"runTimeActionSelection", "upper"}, {"runTimeActionSelection", "lower"},
    {"useMaxPlanesMasking", "0"}, {"useMaxPlanesSupportList", "0"}, {"useMaxPlanesCache", "0"}, {"useMaxPlanesExtraPruning", "0"}, {"useSawtoothSupportList", "0"},
    {"useLogBackups", "1"}, {"qValuesOutputFile", "q.log"}, {"customMDPNumStates", "1"}, {"customMDPNumStates", "2"}, {"customMDPNumStates", "40"}, {"customMDPNumStates", "0"},
    {"modelType", "pomdp"}, {"modelType", "mdp"}};
  vector<std::pair<string, string>> b = {
    {"terminateLowerBoundValue", "-100"}, {"terminateLowerBoundValue", "1e9"}, {"terminateUpperBoundValue", "100"}, {"terminateUpperBoundValue", "-1e9"},
    {"evaluationTrialsPerEpoch", "1"}, {"evaluationTrialsPerEpoch", "2"}, {"evaluationTrialsPerEpoch", "31"}, {"evaluationTrialsPerEpoch", "0"}, {"evaluationTrialsPerEpoch", "-1"},
    {"evaluationMaxStepsPerTrial", "1"}, {"evaluationMaxStepsPerTrial", "0"}, {"evaluationMaxStepsPerTrial", "-1"}, {"evaluationFirstEpochWallclockSeconds", "0"},
    {"evaluationEpochsPerMagnitude", "1"}, {"evaluationEpochsPerMagnitude", "0"}, {"evaluationEpochsPerMagnitude", "1000"}, {"useEvaluationCache", "0"},
    {"evaluationOutputFile", "other.plot"}, {"evaluationOutputFile", "/nowhere/i"}, {"boundsOutputFile", "/nowhere/b"}, {"simulationTraceOutputFile", "/nowhere/s"},
    {"storageOutputFile", "/nowhere/t"}, {"scoresOutputFile", "/nowhere/c"}, {"simulationTracesToLogPerEpoch", "0"}, {"simulationTracesToLogPerEpoch", "-1"}, {"simulationTracesToLogPerEpoch", "2"},
    {"useTimeWithoutHeuristic", "0"}, {"storageOutputFile", "st.log"}, {"boundValuesOutputFile", "bv.log"}, {"stateIndexOutputFile", "si.log"}, {"backupsOutputFile", "bl.log"}};
  if (cmd == "benchmark") d.insert(d.end(), b.begin(), b.end());
  return d;
}
static vector<Kind> kinds() {
  vector<Kind> r;
  auto txt = [](Model m) { return m.text(); };
  // a goal POMDP with finitely many beliefs
  Model g;
  g.nS = 3; g.nA = 2; g.nO = 2; g.gamma = .9;
  g.T = {detMap(3, {1, 2, 2}), detMap(3, {2, 2, 2})};
  g.O = {{{.8, .2}, {.2, .8}, {.5, .5}}, {{1, 0}, {1, 0}, {0, 1}}};
  g.R = {{-1, -2, 0}, {-3, 1, 0}};
  g.b0 = {.5, .5, 0};
  r.push_back({"goal.pomdp", "pomdp", true, true, false, txt(g)});
  Model u = g;
  u.gamma = 1;
  r.push_back({"undisc.pomdp", "pomdp", true, true, true, txt(u)});
  Model n;
  n.nS = n.nA = n.nO = 2; n.gamma = .8;
  n.T = {{{1, 0}, {0, 1}}, {{.5, .5}, {.5, .5}}};
  n.O = {{{.75, .25}, {.25, .75}}, {{.5, .5}, {.5, .5}}};
  n.R = {{0, 0}, {1, -2}};
  n.b0 = {.5, .5};
  r.push_back({"nogoal.pomdp", "pomdp", false, false, false, txt(n)});
  vector<Model> fc;
  familyCorridor(fc, 0);
  r.push_back({"corridor.pomdp", "pomdp", false, false, false, txt(fc[fc.size() / 2])});
  Model one;
  one.nS = 1; one.nA = 1; one.nO = 1; one.gamma = .5; one.T = {{{1}}}; one.O = {{{1}}}; one.R = {{2}}; one.b0 = {1};
  r.push_back({"one.pomdp", "pomdp", false, true, false, txt(one)});
  Model d = one;
  d.R = {{0}};
  r.push_back({"dead.pomdp", "pomdp", true, true, false, txt(d)});
  Model md;
  md.nS = 3; md.nA = 2; md.nO = 0; md.gamma = .95;
  md.T = {{{.5, .5, 0}, {0, .5, .5}, {0, 0, 1}}, {{0, .25, .75}, {.5, 0, .5}, {0, 0, 1}}};
  md.R = {{-1, -1, 0}, {-3, 2, 0}};
  md.b0 = {1, 0, 0};
  r.push_back({"goal.mdp", "mdp", true, true, false, txt(md)});
  md.T[0][2] = {1, 0, 0};
  r.push_back({"nogoal.mdp", "mdp", false, true, false, txt(md)});
  r.push_back({"tiny.racetrack", "racetrack", true, true, false, ""});
  r.push_back({"custom", "custom", true, true, false, ""});
  return r;
}
static const char *kTrack = "discount 1.0\nerrorProbability 0.1\nuseMaxCost 1\nmaxCost 1000\nuseErrorIsWind 0\n---\n@@@@@\n@s f@\n@@@@@\n";
// everything a case may refer to, made once per process and directory
static void fixtures(Run &R, const vector<Kind> &ks) {
  static bool done = false;
  if (done) return;
  done = true;
  for (auto &k : ks) {
    if (k.type == "racetrack") spitFile(k.file, kTrack);
    else if (k.type != "custom") spitFile(k.file, k.text);
    mkdir(("log-" + k.file).c_str(), 0755);
    vector<string> a = {"benchmark", k.file, "-t", "1", "--terminateNumBackups", "60", "-i", "2", "--evaluationMaxStepsPerTrial", "4", "--useLogBackups", "1",
                        "--stateIndexOutputFile", "log-" + k.file + "/stateIndex.log", "--backupsOutputFile", "log-" + k.file + "/backups.log"};
    if (k.undiscounted && k.type == "pomdp") { a.push_back("--maxHorizon"); a.push_back("6"); }
    if (k.type == "pomdp") { a.push_back("-o"); a.push_back(k.file + ".policy"); }
    Out r = runMain(a);
    if (!sane(R, r, joinA(a))) continue;
    if (r.code) R.fail("fixture", joinA(a) + ": " + tail(r.err));
    // the names the options may be given
    string s;
    for (const char *f : {"stateIndex.log", "backups.log"}) {
      std::ifstream in("log-" + k.file + "/" + f); std::stringstream ss; ss << in.rdbuf();
      spitFile("log-" + k.file + (f[0] == 's' ? "/si.log" : "/bl.log"), ss.str());
    }
  }
}
static Opts baseOpts(const string &cmd, const Kind &k, const string &st) {
  Opts o;
  o["searchStrategy"] = st;
  o["terminateWallclockSeconds"] = "0.4";
  o["terminateNumBackups"] = "100";
  if (k.undiscounted && k.type == "pomdp") o["maxHorizon"] = "6";
  if (st == "script") o["backupScriptInputDir"] = "log-" + k.file;
  if (st == "script") o["maintainLowerBound"] = "1";
  if (cmd == "benchmark") {
    o["evaluationTrialsPerEpoch"] = "3";
    o["evaluationMaxStepsPerTrial"] = "5";
    o["evaluationFirstEpochWallclockSeconds"] = "0.001";
  }
  return o;
}
// evaluate: what the documentation says
struct EvalCase { Opts o; };
static void evalGroup(Run &R, const vector<Kind> &ks, size_t mi, int stride, int phase) {
  fixtures(R, ks);
  const Kind &m = ks[mi];
  spitFile("flat.alpha", "0\n1 2 3\n\n1\n0 0 0\n");
  spitFile("two.alpha", "0\n-1 2\n\n1\n0 0.5\n");
  spitFile("bad.policy", "{ policyType => \"MaxPlanesLowerBound\", numPlanes => 1, planes => [ { action => 0");
  spitFile("empty.policy", "");
  vector<std::pair<string, string>> d = {
    {"policyInputFile", "flat.alpha"}, {"policyInputFile", "two.alpha"}, {"policyInputFile", "missing.policy"}, {"policyInputFile", "bad.policy"}, {"policyInputFile", "empty.policy"},
    {"policyInputFile", "nogoal.pomdp.policy"}, {"policyInputFile", "goal.pomdp.policy"}, {"policyInputFile", "corridor.pomdp.policy"},
    {"policyType", "cassandraAlpha"}, {"policyType", "lspath"}, {"policyType", "lsblind"}, {"policyType", "maxPlanes"},
    {"plannerModel", "-"}, {"plannerModel", m.file}, {"plannerModel", "nogoal.pomdp"}, {"plannerModel", "corridor.pomdp"}, {"plannerModel", "missing.pomdp"}, {"plannerModel", "goal.mdp"},
    {"customModel", "missing.ls"}, {"useFastModelParser", "1"}, {"debugLevel", "1"}, {"maxHorizon", "3"},
    {"evaluationTrialsPerEpoch", "1"}, {"evaluationTrialsPerEpoch", "2"}, {"evaluationTrialsPerEpoch", "31"}, {"evaluationTrialsPerEpoch", "0"}, {"evaluationTrialsPerEpoch", "-1"},
    {"evaluationMaxStepsPerTrial", "1"}, {"evaluationMaxStepsPerTrial", "0"}, {"evaluationMaxStepsPerTrial", "-1"}, {"useEvaluationCache", "0"},
    {"simulationTracesToLogPerEpoch", "0"}, {"simulationTracesToLogPerEpoch", "-1"}, {"simulationTracesToLogPerEpoch", "2"}, {"simulationTraceOutputFile", "/nowhere/s"}, {"scoresOutputFile", "/nowhere/c"},
    {"simulationTraceOutputFile", "tr.plot"}, {"scoresOutputFile", "sc.plot"},
    {"useMaxPlanesMasking", "0"}, {"useMaxPlanesSupportList", "0"}, {"useMaxPlanesCache", "0"}, {"useMaxPlanesExtraPruning", "0"}, {"runTimeActionSelection", "upper"}, {"runTimeActionSelection", "lower"},
    {"lowerBoundRepresentation", "point"}, {"upperBoundRepresentation", "point"}, {"maintainUpperBound", "0"}, {"searchStrategy", "rtdp"}, {"modelType", "mdp"}, {"modelType", "pomdp"},
    {"terminateRegretBound", "0"}, {"useWeakUpperBoundHeuristic", "1"}};
  auto run = [&](const Opts &dev) {
    Opts o = {{"policyInputFile", m.file + ".policy"}, {"evaluationTrialsPerEpoch", "3"}, {"evaluationMaxStepsPerTrial", "5"}};
    for (auto &p : dev) o[p.first] = p.second;
    string pt = o.count("policyType") ? o["policyType"] : "maxPlanes", pf = o["policyInputFile"], pm = o.count("plannerModel") ? o["plannerModel"] : "-";
    bool samePlanner = pm == "-" || pm == m.file;
    Want w = RUN;
    string why;
    auto refuse = [&](const string &x) { w = REFUSE; why = x; };
    auto either = [&]() { if (w == RUN) w = EITHER; };
    if (m.type != "pomdp") { if (m.type == "mdp") refuse("an MDP cannot be evaluated as a POMDP"); else either(); }
    if (m.undiscounted) either();
    if (pt == "lspath" || pt == "lsblind") { if (!o.count("customModel") && pt == "lspath") refuse("no customModel"); else if (o.count("customModel")) refuse("missing customModel file"); else either(); }
    else {
      if (pf == "missing.policy" || pf == "bad.policy" || pf == "empty.policy") refuse("unusable policy file");
      if (pm == "missing.pomdp" || pm == "goal.mdp") refuse("unusable planner model");
      if (!samePlanner) {
        const Kind *q = NULL;
        for (auto &k : ks) if (k.file == pm) q = &k;
        if (q && pm != "goal.mdp") { if (pm == "corridor.pomdp" && m.file != pm) refuse("models do not fit"); else if (pf != pm + ".policy") either(); if (m.file == "one.pomdp" || m.file == "dead.pomdp") refuse("models do not fit"); if (pm == "nogoal.pomdp" && m.file == "corridor.pomdp") refuse("models do not fit"); }
        either();
      }
      bool alpha = pf.find(".alpha") != string::npos;
      if (alpha != (pt == "cassandraAlpha")) { if (pf.find("missing") == string::npos) either(); if (alpha) refuse("vectors are not a policy"); }
      if (pf != m.file + ".policy" && samePlanner) either();
      if (o.count("useMaxPlanesMasking") && !o.count("useMaxPlanesSupportList")) refuse("support list requires masking");
      if (o.count("useMaxPlanesCache") && !o.count("useMaxPlanesExtraPruning")) either();
    }
    if (atoi(o["evaluationTrialsPerEpoch"].c_str()) < 1 && w == RUN) refuse("number of trials below 1");
    for (auto &p : o) if (p.second.find("/nowhere/") == 0) { if (w == RUN) refuse("output file that cannot be opened"); }
    if (o.count("modelType") || o.count("lowerBoundRepresentation") || o.count("upperBoundRepresentation") || o.count("maintainUpperBound") || o.count("searchStrategy") || o.count("terminateRegretBound") || o.count("runTimeActionSelection")) either();
    if (atoi(o["evaluationMaxStepsPerTrial"].c_str()) <= 0 && !m.ends()) return;
    vector<string> a = {"evaluate", m.file};
    for (auto &p : o) { a.push_back("--" + p.first); a.push_back(p.second); }
    Out r = runMain(a);
    R.count("runs"); R.count("transitions");
    string how = joinA(a);
    R.outcome(mix(hstr("evaluate" + m.file + pt + pf), mix(r.code, hstr(r.code ? r.err : ""))));
    if (!sane(R, r, how)) return;
    if (r.code != 0) {
      R.count("refusals");
      if (!hasError(r)) { R.fail("no-message", fmt("exit %d without an error message: ", r.code) + how + tail(r.err) + tail(r.out, 300)); return; }
      if (w == RUN) R.fail("refused", how + ": documented combination refused: " + tail(r.err, 500) + tail(r.out, 300));
      return;
    }
    if (w == REFUSE) { R.fail("accepted", how + ": has to be refused (" + why + ")"); return; }
    if (r.out.find("REWARD_MEAN_CONF95MIN_CONF95MAX") == string::npos) R.fail("unfinished", how + ": " + tail(r.out, 300));
  };
  run({});
  for (size_t i = 0; i < d.size(); i++) {
    run({d[i]});
    for (size_t j = i + 1; j < d.size(); j++) if (d[i].first != d[j].first && (i * 7 + j + phase) % stride == 0) { run({d[i], d[j]}); if (R.failsThisCase >= 4) return; }
  }
}
void mc_enumerate(Run &R) {
  vector<Kind> ks = kinds();
  int base = 0;
  for (const char *cmd : {"solve", "benchmark"})
    for (auto &k : ks)
      for (const char *st : {"frtdp", "hsvi", "rtdp", "lrtdp", "hdp", "script"}) {
        base++;
        if ((!strcmp(st, "rtdp") || !strcmp(st, "lrtdp")) && !k.goal) continue;
        if ((!strcmp(st, "lrtdp") || !strcmp(st, "hdp")) && !k.finite) continue;
        string c = cmd, s = st;
        auto name = [&](const char *w) { return string(w) + " " + c + " " + k.file + " " + s; };
        // every option alone and every pair (at quick every pair somewhere)
        int stride = R.thorough ? 3 : 20;
        vector<std::pair<string, string>> d = deviations(c);
        int parts = R.thorough ? 8 : 1;
        for (int part = 0; part < parts; part++)
          R.run([&] { return name("pairs") + fmt(" part %d", part); }, [&] {
            fixtures(R, ks);
            Opts b = baseOpts(c, k, s);
            if (part == 0) one(R, c, k, b);
            for (size_t i = 0; i < d.size(); i++) {
              if ((int)(i % parts) != part) continue;
              Opts o = b;
              o[d[i].first] = d[i].second;
              one(R, c, k, o);
              for (size_t j = i + 1; j < d.size(); j++) {
                if (d[j].first == d[i].first || (i * 7 + j + base) % stride) continue;
                Opts o2 = o;
                o2[d[j].first] = d[j].second;
                one(R, c, k, o2);
                if (R.failsThisCase >= 4) return;
              }
            }
          });
        // the full product of what decides which bounds are kept and how
        R.run([&] { return name("product"); }, [&] {
          fixtures(R, ks);
          int n = 0;
          for (const char *lr : {"-", "point", "maxPlanes"}) for (const char *ur : {"-", "point", "sawtooth"}) for (const char *ml : {"-", "0", "1"}) for (const char *mu : {"0", "1"})
            for (const char *rt : {"-", "upper", "lower"}) for (int pl = 0; pl < 16; pl++) for (const char *ss : {"0", "1"}) {
              // the last factors make no difference without the representations they are about
              if (k.type != "pomdp" && (pl != 15 || *ss == '0') && n % 37) { n++; continue; }
              n++;
              if ((n + base) % (R.thorough ? 7 : 47)) continue;
              Opts o = baseOpts(c, k, s);
              o["lowerBoundRepresentation"] = lr; o["upperBoundRepresentation"] = ur; o["maintainLowerBound"] = ml; o["maintainUpperBound"] = mu; o["runTimeActionSelection"] = rt;
              o["useMaxPlanesMasking"] = pl & 1 ? "1" : "0"; o["useMaxPlanesSupportList"] = pl & 2 ? "1" : "0"; o["useMaxPlanesCache"] = pl & 4 ? "1" : "0"; o["useMaxPlanesExtraPruning"] = pl & 8 ? "1" : "0";
              o["useSawtoothSupportList"] = ss;
              o["terminateNumBackups"] = "40";
              one(R, c, k, o);
              if (R.failsThisCase >= 4) return;
            }
        });
      }
  for (size_t i = 0; i < ks.size(); i++)
    R.run([&] { return "evaluate " + ks[i].file; }, [&] { evalGroup(R, ks, i, R.thorough ? 1 : 6, i); });
}
