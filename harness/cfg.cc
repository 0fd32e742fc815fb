// P15: the effective configuration of the real command line tool, for every option,
// source and order, against a reference resolver written from the documentation.
#include "zm.h"
#include "cli.h"
using namespace mc;
struct OptDef { const char *name, *def; vector<const char *> alt; char kind; };   // kind: e(num) b(ool) i(nt) d(ouble) s(tring)
static const vector<OptDef> &options() {
  static vector<OptDef> o = {
    {"command", "none", {"solve", "benchmark"}, 'c'}, {"simulatorModel", "none", {"m1.pomdp", "m2.pomdp"}, 'm'},
    {"searchStrategy", "frtdp", {"hsvi", "rtdp", "lrtdp", "hdp", "script", "frtdp"}, 'e'},
    {"modelType", "-", {"pomdp", "mdp", "racetrack", "custom", "-"}, 'e'},
    {"lowerBoundRepresentation", "-", {"point", "maxPlanes", "-"}, 'e'},
    {"upperBoundRepresentation", "-", {"point", "sawtooth", "-"}, 'e'},
    {"maintainLowerBound", "-", {"0", "1", "-"}, 'e'}, {"maintainUpperBound", "1", {"0", "1"}, 'b'},
    {"policyOutputFile", "-", {"p1.out", "none"}, 's'}, {"useFastModelParser", "0", {"1", "0"}, 'b'},
    {"terminateRegretBound", "1e-3", {"0.5", "2"}, 'd'}, {"terminateLowerBoundValue", "-999", {"-3.5", "7"}, 'd'},
    {"terminateUpperBoundValue", "-999", {"12", "-0.25"}, 'd'}, {"terminateWallclockSeconds", "-1", {"3", "0.125"}, 'd'},
    {"terminateNumBackups", "-1", {"10", "500"}, 'i'}, {"debugLevel", "0", {"1", "2"}, 'g'}, {"maxHorizon", "-1", {"7", "30"}, 'i'},
    {"useWeakUpperBoundHeuristic", "0", {"1", "0"}, 'b'}, {"runTimeActionSelection", "-", {"upper", "lower", "-"}, 'e'},
    {"evaluationTrialsPerEpoch", "1000", {"17", "3"}, 'i'}, {"evaluationMaxStepsPerTrial", "251", {"9", "40"}, 'i'},
    {"evaluationFirstEpochWallclockSeconds", "1.0", {"0.25", "3"}, 'd'}, {"evaluationEpochsPerMagnitude", "10", {"3", "0.5"}, 'd'},
    {"useEvaluationCache", "1", {"0", "1"}, 'b'}, {"evaluationOutputFile", "inc.plot", {"a.x", "b.x"}, 's'},
    {"boundsOutputFile", "bounds.plot", {"a.x", "b.x"}, 's'}, {"simulationTraceOutputFile", "sim.plot", {"a.x", "b.x"}, 's'},
    {"simulationTracesToLogPerEpoch", "1", {"-1", "4"}, 'i'}, {"scoresOutputFile", "scores.plot", {"a.x", "b.x"}, 's'},
    {"useTimeWithoutHeuristic", "1", {"0", "1"}, 'b'}, {"useMaxPlanesMasking", "1", {"0", "1"}, 'b'},
    {"useMaxPlanesSupportList", "1", {"0", "1"}, 'b'}, {"useMaxPlanesCache", "1", {"0", "1"}, 'b'},
    {"useMaxPlanesExtraPruning", "1", {"0", "1"}, 'b'}, {"useSawtoothSupportList", "1", {"0", "1"}, 'b'},
    {"useLogBackups", "0", {"1", "0"}, 'b'}, {"stateIndexOutputFile", "stateIndex.log", {"a.x", "b.x"}, 's'},
    {"backupsOutputFile", "backups.log", {"a.x", "b.x"}, 's'}, {"backupScriptInputDir", "none", {"d1", "d2"}, 's'},
    {"boundValuesOutputFile", "boundValues.log", {"a.x", "b.x"}, 's'}, {"qValuesOutputFile", "none", {"a.x", "b.x"}, 's'},
    {"customMDPNumStates", "5", {"3", "9"}, 'i'}, {"storageOutputFile", "none", {"a.x", "b.x"}, 's'},
    {"policyInputFile", "out.policy", {"a.x", "b.x"}, 's'}, {"policyType", "maxPlanes", {"cassandraAlpha", "lsblind", "lspath", "maxPlanes"}, 'e'},
    {"plannerModel", "-", {"a.pomdp", "b.pomdp"}, 's'}, {"customModel", "none", {"a.x", "b.x"}, 's'}};
  return o;
}
typedef std::map<string, string> Map;
static const Map &aliases() {
  static Map m = {{"-f", "useFastModelParser=1"}, {"-d", "debugLevel=1"}, {"-i", "evaluationTrialsPerEpoch"}, {"-l", "lowerBoundRepresentation"},
    {"-o", "policyOutputFile"}, {"-p", "terminateRegretBound"}, {"-s", "searchStrategy"}, {"-t", "terminateWallclockSeconds"}, {"-u", "upperBoundRepresentation"}};
  return m;
}
static string aliasOf(const string &opt, string *fixed = NULL) {
  for (auto &a : aliases()) {
    size_t e = a.second.find('=');
    if (a.second.substr(0, e) == opt) { if (e != string::npos && fixed) *fixed = a.second.substr(e + 1); return a.first; }
  }
  return "";
}
static const OptDef &optDef(const string &n) { for (auto &o : options()) if (n == o.name) return o; abort(); }

static Run *RP;
// runs the tool; returns the effective configuration it reports ("" entries absent)
static bool dump(const vector<string> &args, Map &m, Cli &c) {
  m.clear();
  c = runCli(binary("zmdp"), args);
  RP->count("executions");
  size_t b = c.out.find("[params begin]"), e = c.out.find("[params end]");
  if (b == string::npos || e == string::npos) return false;
  std::istringstream in(c.out.substr(b + 14, e - b - 14));
  string l;
  while (getline(in, l)) {
    if (l == "") continue;
    if (!l.compare(0, 6, "alias ")) { size_t k = l.find(' ', 6); m["alias:" + l.substr(6, k - 6)] = l.substr(k + 1); continue; }
    size_t k = l.find(' ');
    m[l.substr(0, k)] = k == string::npos ? "" : l.substr(k + 1);
  }
  return true;
}
static Map defaults() { Map m; for (auto &o : options()) m[o.name] = o.def; return m; }
static bool check(const string &key, const vector<string> &args, Map want, const string &fileText) {
  Map got; Cli c;
  auto ctx = [&] { return "zmdp " + joinArgs(args) + (fileText != "" ? "\nconfig file:\n" + fileText.substr(0, 3000) : ""); };
  RP->describe(ctx());
  bool have = dump(args, got, c);
  if (c.timedout || c.flooded || (!c.exited && !have)) { RP->fail(key, ctx() + ": " + c.status()); return false; }
  if (!have) { RP->fail(key, ctx() + ": no configuration, " + c.status() + " " + c.err.substr(0, 400)); return false; }
  if (want["policyOutputFile"] == "-") want["policyOutputFile"] = want["command"] == "solve" ? "out.policy" : "none";
  uint64_t h = 1;
  for (auto &w : want) {
    auto g = got.find(w.first);
    if (g == got.end() || g->second != w.second) {
      RP->fail(key, fmt("%s\n%s: wanted '%s', effective '%s'", ctx().c_str(), w.first.c_str(), w.second.c_str(), g == got.end() ? "(absent)" : g->second.c_str()));
      return false;
    }
    h = mix(h, hstr(w.second));
  }
  RP->outcome(h);
  return true;
}
static bool refused(const string &key, const vector<string> &args, const string &fileText, const string &dir = "") {
  CliOpt o; o.dir = dir;
  auto ctx = [&] { return "zmdp " + joinArgs(args) + (fileText != "" ? "\nconfig file:\n" + fileText.substr(0, 3000) : ""); };
  RP->describe(ctx());
  Cli c = runCli(binary("zmdp"), args, o);
  RP->count("executions");
  RP->count("refusals");
  bool msg = c.err.find("ERROR") != string::npos || c.out.find("ERROR") != string::npos;
  if (!c.exited || c.code == 0 || !msg) { RP->fail(key, ctx() + ": not refused: " + c.status() + ", stderr '" + c.err.substr(0, 300) + "' stdout '" + c.out.substr(0, 300) + "'"); return false; }
  RP->outcome(hstr(c.err.substr(0, 60)));
  return true;
}

// one setting of an option from one source
struct Set { char src; string val; };     // f: file, c: command line, a: alias on the command line
static vector<Set> sources(const OptDef &o) {
  vector<Set> v;
  for (int i = 0; i < 2; i++) { v.push_back({'f', o.alt[i]}); v.push_back({'c', o.alt[i]}); }
  string fixed, a = aliasOf(o.name, &fixed);
  if (a != "") { if (fixed != "") v.push_back({'a', fixed}); else v.push_back({'a', o.alt[1]}); }
  v.push_back({'f', o.def}); v.push_back({'c', o.def});
  return v;
}
static void addSetting(const OptDef &o, const Set &s, vector<string> &cli, string &file, Map &fileM, Map &cliM) {
  if (s.src == 'f') { file += string(o.name) + " " + s.val + "\n"; fileM[o.name] = s.val; return; }
  string fixed, a = aliasOf(o.name, &fixed);
  if (s.src == 'a') { cli.push_back(a); if (fixed == "") cli.push_back(s.val); }
  else { cli.push_back(string("--") + o.name); cli.push_back(s.val); }
  cliM[o.name] = s.val;
}
static Map resolve(const Map &f, const Map &c) {
  Map m = defaults();
  for (auto &x : f) m[x.first] = x.second;
  for (auto &x : c) m[x.first] = x.second;
  return m;
}
static void seqs(const OptDef &o) {
  vector<Set> src = sources(o);
  int n = src.size();
  for (int len = 0; len <= (RP->thorough ? 4 : 3); len++) {
    long tot = 1;
    for (int i = 0; i < len; i++) tot *= n;
    for (long code = 0; code < tot; code++) {
      vector<string> cli; string file; Map fm, cm;
      long x = code;
      for (int i = 0; i < len; i++, x /= n) addSetting(o, src[x % n], cli, file, fm, cm);
      bool dbg = o.kind == 'g';
      Map want = resolve(fm, cm);
      if (dbg && want["debugLevel"] == "0") continue;       // nothing to observe
      vector<string> args;
      bool pos = !(o.kind == 'c' || o.kind == 'm');
      int place = code % 4;          // where command, model and -c stand among the options
      if (o.kind == 'c' && want["command"] == "none") { spit("c.cfg", file); args = cli; args.push_back("--simulatorModel"); args.push_back("m.pomdp"); args.push_back("-c"); args.push_back("c.cfg"); refused("no-command", args, file); continue; }
      if (o.kind == 'm' && want["simulatorModel"] == "none") { spit("c.cfg", file); args = cli; args.push_back("--command"); args.push_back("solve"); args.push_back("-c"); args.push_back("c.cfg"); refused("no-model", args, file); continue; }
      vector<string> cm1 = {"solve"}, md = {"m.pomdp"}, cf = {code & 4 ? "-c" : "--config", "c.cfg"};
      if (o.kind == 'c') cm1 = {}; else want["command"] = "solve";
      if (o.kind == 'm') md = {}; else want["simulatorModel"] = "m.pomdp";
      if (!pos) { if (cm1.size()) cm1 = {"--command", "solve"}; if (md.size()) md = {"--simulatorModel", "m.pomdp"}; }
      vector<string> d = {"--debugLevel", "1"};
      if (dbg) d.clear(); else want["debugLevel"] = "1";
      auto app = [&](const vector<string> &v) { args.insert(args.end(), v.begin(), v.end()); };
      if (place == 0) { app(cm1); app(d); app(cli); app(cf); app(md); }
      else if (place == 1) { app(cf); app(cli); app(cm1); app(md); app(d); }
      else if (place == 2) { app(d); app(cm1); app(md); app(cf); app(cli); }
      else { app(cm1); app(cli); app(md); app(d); app(cf); }
      spit("c.cfg", file);
      if (!check(string("sequence-") + (fm.count(o.name) ? cm.count(o.name) ? "both" : "file" : cm.count(o.name) ? "cli" : "default"), args, want, file)) return;
    }
  }
}
static void pairs(int a, int b) {
  const OptDef &p = options()[a], &q = options()[b];
  vector<Set> sp = {{'f', p.alt[0]}, {'c', p.alt[0]}}, sq = {{'f', q.alt[0]}, {'c', q.alt[0]}};
  if (aliasOf(p.name) != "") { string fx; aliasOf(p.name, &fx); sp.push_back({'a', fx != "" ? fx : p.alt[0]}); }
  if (aliasOf(q.name) != "") { string fx; aliasOf(q.name, &fx); sq.push_back({'a', fx != "" ? fx : q.alt[0]}); }
  for (auto &x : sp) for (auto &y : sq) for (int ord = 0; ord < 2; ord++) {
    vector<string> cli; string file; Map fm, cm;
    if (ord) { addSetting(q, y, cli, file, fm, cm); addSetting(p, x, cli, file, fm, cm); }
    else { addSetting(p, x, cli, file, fm, cm); addSetting(q, y, cli, file, fm, cm); }
    Map want = resolve(fm, cm);
    bool dbg = p.kind == 'g' || q.kind == 'g';
    if (p.kind == 'c' || q.kind == 'c') {} else { cli.insert(cli.begin(), "--command"); cli.insert(cli.begin() + 1, "solve"); want["command"] = "solve"; }
    if (p.kind == 'm' || q.kind == 'm') {} else { cli.push_back("--simulatorModel"); cli.push_back("m.pomdp"); want["simulatorModel"] = "m.pomdp"; }
    if (!dbg) { cli.push_back("-d"); want["debugLevel"] = "1"; }
    cli.push_back("-c"); cli.push_back("c.cfg");
    spit("c.cfg", file);
    if (!check("pair", cli, want, file)) return;
  }
}
// ---------------------------------------------------------------- file layouts
// reference reading of one line; false = malformed
struct Line { string text; bool bad; string field, val, alias, aval; };
static vector<Line> lineAlphabet() {
  string L1000(1000, 'x');
  vector<Line> v;
  auto set = [&](const string &t, const string &f, const string &x) { v.push_back({t, false, f, x, "", ""}); };
  auto non = [&](const string &t) { v.push_back({t, false, "", "", "", ""}); };
  set("searchStrategy hsvi", "searchStrategy", "hsvi");
  set("searchStrategy rtdp", "searchStrategy", "rtdp");
  set("searchStrategy\t \thdp", "searchStrategy", "hdp");
  set("  searchStrategy lrtdp", "searchStrategy", "lrtdp");
  set("searchStrategy hsvi   \t", "searchStrategy", "hsvi");
  set("searchStrategy hdp\r", "searchStrategy", "hdp");
  set("policyOutputFile " + L1000, "policyOutputFile", L1000);
  set("policyOutputFile " + L1000 + "yyyyyy", "policyOutputFile", L1000 + "yyyyyy");           // line of 1023
  set("policyOutputFile " + L1000 + "yyyyyyz", "policyOutputFile", L1000 + "yyyyyyz");         // 1024
  set("policyOutputFile " + L1000 + "yyyyyyzz", "policyOutputFile", L1000 + "yyyyyyzz");
  set("policyOutputFile " + L1000 + L1000 + L1000, "policyOutputFile", L1000 + L1000 + L1000);
  set("searchStrategy" + string(1005, ' ') + "hsvi", "searchStrategy", "hsvi");
  set("searchStrategy" + string(1006, ' ') + "hsvi", "searchStrategy", "hsvi");
  set("searchStrategy" + string(4000, ' ') + "hsvi", "searchStrategy", "hsvi");
  non("# a comment"); non("#searchStrategy rtdp"); non(""); non("   \t "); non("#" + string(1021, 'c')); non("#" + string(1022, 'c'));
  non("#" + string(1023, 'c')); non("#" + string(5000, 'c')); non("# \xc3\xa9\xff"); non(string(3000, ' '));
  v.push_back({"alias -q --searchStrategy", false, "", "", "-q", "--searchStrategy"});
  v.push_back({"alias -q --searchStrategy hsvi", false, "", "", "-q", "--searchStrategy hsvi"});
  v.push_back({"alias -q -s", false, "", "", "-q", "-s"});
  v.push_back({"alias\t-q\t--upperBoundRepresentation", false, "", "", "-q", "--upperBoundRepresentation"});
  v.push_back({"alias -s --policyOutputFile", false, "", "", "-s", "--policyOutputFile"});
  v.push_back({"searchStrategy", true}); v.push_back({"alias", true}); v.push_back({"alias -q", true}); v.push_back({"noSuchOption 3", true});
  v.push_back({"SearchStrategy hsvi", true}); v.push_back({"--searchStrategy hsvi", true}); v.push_back({"searchStrategy=hsvi", true});
  return v;
}
// command line tokens after a file: "", -q hdp, -q (fixed), -s hdp
static bool expand(const Map &al, const vector<string> &cli, Map &cm) {
  // reference for option tokens used here
  vector<string> t;
  std::function<void(const string &, int)> ex = [&](const string &a, int depth) {
    auto i = al.find(a);
    if (i == al.end() || depth == 0) { t.push_back(a); return; }
    std::istringstream in(i->second);
    string w;
    while (in >> w) ex(w, depth - 1);
  };
  for (size_t k = 0; k < cli.size(); k++) {
    size_t before = t.size();
    ex(cli[k], 3);
    if (t.size() > before && !t.back().compare(0, 2, "--") && k + 1 < cli.size()) t.push_back(cli[++k]);
  }
  for (size_t k = 0; k < t.size(); k++) {
    if (t[k].compare(0, 2, "--")) return false;
    if (k + 1 >= t.size()) return false;
    string o = t[k].substr(2);
    cm[o] = t[k + 1];
    k++;
  }
  return true;
}
static Map baseAliases() {
  Map m;
  for (auto &a : aliases()) { size_t e = a.second.find('='); m[a.first] = "--" + a.second.substr(0, e) + (e == string::npos ? "" : " " + a.second.substr(e + 1)); }
  return m;
}
static void layouts(int i, const vector<Line> &A, int depth) {
  vector<vector<string>> clis = {{}, {"-q", "hdp"}, {"-q"}, {"-s", "hdp"}};
  std::function<bool(vector<int> &)> go = [&](vector<int> &ix) {
    for (int nl = 0; nl < 2; nl++) {
      string f; bool bad = false; Map fm, al = baseAliases();
      for (size_t k = 0; k < ix.size(); k++) {
        const Line &l = A[ix[k]];
        f += l.text;
        if (k + 1 < ix.size() || nl) f += "\n";
        if (l.bad) bad = true;
        else if (l.alias != "") al[l.alias] = l.aval;
        else if (l.field != "") fm[l.field] = l.val;
      }
      spit("c.cfg", f);
      int which = al.count("-q") || al["-s"] != "--searchStrategy" ? 0 : -1;
      for (int q = 0; q < (which == 0 ? 4 : 1); q++) {
        Map cm;
        if (q && (!al.count("-q") && clis[q][0] == "-q")) continue;
        if (!expand(al, clis[q], cm)) continue;
        vector<string> a = {"-c", "c.cfg", "-d", "solve", "m.pomdp"};
        a.insert(a.end(), clis[q].begin(), clis[q].end());
        if (bad) { if (q == 0 && !refused("bad-file", a, f)) return false; continue; }
        Map want = resolve(fm, cm);
        want["command"] = "solve"; want["simulatorModel"] = "m.pomdp"; want["debugLevel"] = "1";
        string key = "layout";
        if (!nl && ix.size()) key = "layout-no-newline";
        for (int k : ix) if (A[k].text.size() > 1000) key = "layout-long";
        if (!check(key, a, want, f)) return false;
      }
    }
    return true;
  };
  vector<int> ix;
  if (i < 0) { go(ix); return; }
  ix = {i};
  if (!go(ix)) return;
  for (int j = 0; j < (int)A.size(); j++) {
    ix = {i, j};
    if (!go(ix)) return;
    if (depth < 3) continue;
    for (int k = 0; k < (int)A.size(); k++) { ix = {i, j, k}; if (!go(ix)) return; }
  }
}
// ---------------------------------------------------------------- the rest
static void values(const string &v) {
  // one string as value of an option, long form and short form
  for (auto &o : options()) {
    if (o.kind != 's') continue;
    for (int form = 0; form < 3; form++) {
      string al = aliasOf(o.name);
      if (form == 1 && al == "") continue;
      vector<string> a = {"solve", "-d"};
      if (form == 2) a = {"-d"};
      a.push_back(form == 1 ? al : string("--") + o.name); a.push_back(v);
      if (form == 2) a.push_back("solve");
      a.push_back("m.pomdp");
      Map want = defaults();
      want[o.name] = v; want["command"] = "solve"; want["simulatorModel"] = "m.pomdp"; want["debugLevel"] = "1";
      if (!check("value-as-given", a, want, "")) return;
    }
    // the same from a file: one word, whatever characters it has
    if (v == "" || v.find_first_of(" \t") != string::npos) continue;
    for (int form = 0; form < 3; form++) {
      string f = string(form == 1 ? "  " : "") + o.name + (form == 2 ? "\t" : " ") + v + (form ? "\n" : "");
      spit("c.cfg", f);
      Map want = defaults();
      want[o.name] = v; want["command"] = "solve"; want["simulatorModel"] = "m.pomdp"; want["debugLevel"] = "1";
      if (!check("value-as-given-file", {"solve", "-c", "c.cfg", "-d", "m.pomdp"}, want, f)) return;
    }
  }
}
static void generated() {
  Map got; Cli c;
  RP->count("executions");
  unlink("g.cfg");
  c = runCli(binary("zmdp"), {"--genConfig", "g.cfg"});
  string g;
  if (!c.ok() || !slurp("g.cfg", g)) { RP->fail("genconfig", "zmdp --genConfig g.cfg: " + c.status()); return; }
  vector<string> lines;
  { std::istringstream in(g); string l; while (getline(in, l)) lines.push_back(l); }
  const char *cmds[] = {"solve", "benchmark", "evaluate"};
  for (auto cmd : cmds) {
    Map want = defaults();
    want["command"] = cmd; want["simulatorModel"] = "m.pomdp"; want["debugLevel"] = "1";
    for (auto &a : baseAliases()) want["alias:" + a.first] = a.second;
    if (!check("genconfig-back", {cmd, "-c", "g.cfg", "-d", "m.pomdp"}, want, "(generated)")) return;
    if (!check("genconfig-defaults", {cmd, "-d", "m.pomdp"}, want, "")) return;
  }
  // edited copies: each documented line replaced by another value, or removed, or moved to the end
  for (auto &o : options()) for (int how = 0; how < 4; how++) {
    string f, moved; int found = 0;
    Map want = defaults();
    for (auto &l : lines) {
      std::istringstream in(l);
      string w;
      in >> w;
      if (w == o.name && l[0] != '#') {
        found++;
        if (how == 0) { f += string(o.name) + " " + o.alt[0] + "\n"; want[o.name] = o.alt[0]; }
        else if (how == 2) moved = string(o.name) + " " + o.alt[1];
        else if (how == 3) { f += l + "\n"; moved = string(o.name) + "\t" + o.alt[0] + "\n"; }
        continue;
      }
      f += l + "\n";
    }
    if (found != 1) { RP->fail("genconfig-content", fmt("option %s stands %d times in the generated file", o.name, found)); return; }
    if (how == 2) want[o.name] = o.alt[1];
    if (how == 3) want[o.name] = o.alt[0];
    f += moved;
    spit("c.cfg", f);
    vector<string> a = {"-c", "c.cfg"};
    if (o.kind != 'g' || want[o.name] == "0") { a.push_back("--debugLevel"); a.push_back("1"); want["debugLevel"] = "1"; }
    if (want["command"] == "none") { a.push_back("--command"); a.push_back("solve"); want["command"] = "solve"; }
    if (want["simulatorModel"] == "none") { a.push_back("--simulatorModel"); a.push_back("m.pomdp"); want["simulatorModel"] = "m.pomdp"; }
    if (!check("genconfig-edited", a, want, fmt("(generated, %s edited %d)", o.name, how))) return;
  }
  // full names of commands, long and short, before and after a config file
  for (auto nm : {"eval", "evaluate", "bench", "benchmark", "solve"}) for (int p = 0; p < 3; p++) {
    Map want = defaults();
    string full = string(nm) == "eval" ? "evaluate" : string(nm) == "bench" ? "benchmark" : nm;
    want["command"] = full; want["simulatorModel"] = "m.pomdp"; want["debugLevel"] = "1";
    vector<string> a = p == 0 ? vector<string>{nm, "-d", "m.pomdp"} : p == 1 ? vector<string>{"-c", "g.cfg", "-d", nm, "m.pomdp"} : vector<string>{"-d", "--", nm, "m.pomdp"};
    if (!check("command-name", a, want, "")) return;
  }
  // writing it where it cannot be written
  refused("genconfig-unwritable", {"--genConfig", "no/such/dir/x"}, "");
  refused("genconfig-unwritable", {"--genConfig", "/dev/full"}, "");
}
static void help() {
  struct { vector<string> a; const char *word; } H[] = {
    {{"-h"}, "Generic options"}, {{"--help"}, "Generic options"}, {{"solve", "-h"}, "zmdp solve' generates"}, {{"bench", "-h"}, "zmdp benchmark' tests"},
    {{"benchmark", "--help"}, "zmdp benchmark' tests"}, {{"eval", "-h"}, "zmdp evaluate' evaluates"}, {{"evaluate", "m.pomdp", "-h"}, "zmdp evaluate' evaluates"},
    {{"--version"}, "CFLAGS"}};
  for (auto &h : H) {
    Cli c = runCli(binary("zmdp"), h.a);
    RP->count("executions");
    if (!c.exited || (c.out + c.err).find(h.word) == string::npos) { RP->fail("help", "zmdp " + joinArgs(h.a) + ": " + c.status() + " " + (c.out + c.err).substr(0, 200)); return; }
  }
}
static void errors() {
  Map d = defaults();
  for (auto &o : options()) {
    refused("missing-argument", {"solve", "m.pomdp", string("--") + o.name}, "");
    string al = aliasOf(o.name), fixed;
    aliasOf(o.name, &fixed);
    if (al != "" && fixed == "") refused("missing-argument", {"solve", "m.pomdp", al}, "");
    string n = o.name;
    for (string bad : {n + "x", n.substr(1), n.substr(0, n.size() - 1), string(1, toupper(n[0])) + n.substr(1) == n ? "q" + n : string(1, toupper(n[0])) + n.substr(1)}) {
      if (d.count(bad)) continue;
      refused("unknown-option", {"solve", "m.pomdp", "--" + bad, o.alt[0]}, "");
      spit("c.cfg", bad + " " + o.alt[0] + "\n");
      refused("unknown-option-file", {"solve", "m.pomdp", "-c", "c.cfg"}, bad);
    }
  }
  for (string s : {"-x", "-", "-dd", "-sfrtdp", "-S"}) { refused("unknown-short", {s, "solve", "m.pomdp"}, ""); refused("unknown-short", {"solve", s, "m.pomdp"}, ""); refused("unknown-short", {"solve", "m.pomdp", s}, ""); }
  refused("too-many", {"solve", "m.pomdp", "x"}, "");
  refused("too-many", {"solve", "bench", "m.pomdp"}, "");
  refused("no-command", {}, "");
  refused("no-model", {"solve"}, ""); refused("no-model", {"bench"}, ""); refused("no-model", {"eval"}, "");
  for (string s : {"Solve", "sol", "solvex", "evaluates", "m.pomdp", "none"}) refused("unknown-command", {s, "m.pomdp"}, "");
  refused("missing-config", {"-c", "nothere.cfg", "solve", "m.pomdp"}, "");
  refused("config-without-argument", {"solve", "m.pomdp", "-c"}, ""); refused("config-without-argument", {"solve", "m.pomdp", "--config"}, "");
  refused("config-without-argument", {"--genConfig"}, "");
  for (string m : {"m", "m.pomd", "m.POMDP", "pomdp", "m.pomdp.txt", "custom.x"}) refused("model-type", {"solve", m}, "");
}
static void badValues(const OptDef &o) {
  // real models, so that the option is read by the command it applies to
  Model m;
  vector<Model> ms;
  family2(ms, 0);
  ms[0].write("v.pomdp");
  Cli c = runCli(binary("zmdp"), {"solve", "v.pomdp", "--terminateNumBackups", "1", "-o", "v.policy"});
  if (!c.ok()) { RP->fail("value-setup", c.status() + c.err.substr(0, 300)); return; }
  vector<string> bad;
  string n = o.name;
  if (o.kind == 'e') { bad = {"x", "--", "1x", "", "0 1", "Frtdp"}; for (auto a : o.alt) { bad.push_back(string(a) + "x"); if (strlen(a) > 1) { bad.push_back(string(a).substr(0, strlen(a) - 1)); string u = a; u[0] = toupper(u[0]); bad.push_back(u); } } }
  else if (o.kind == 'b') bad = {"x", "", "2", "-1", "yes", "true", "0x", "1 ", "01x", "10"};
  else if (o.kind == 'i' || o.kind == 'g') bad = {"x", "", "1x", "1.5", "one", "--1", "1 2", "99999999999999", "-", "-99999999999999999999", "4294967297"};
  else if (o.kind == 'd') bad = {"x", "", "1x", "1.5.2", "one", "--1", "1 2", "-", "nan", "1,5"};
  else return;
  std::set<string> evalOnly = {"policyType"}, both = {"useFastModelParser", "maxHorizon", "debugLevel", "evaluationTrialsPerEpoch", "evaluationMaxStepsPerTrial", "useEvaluationCache", "simulationTracesToLogPerEpoch"};
  std::set<string> notSolve = {"evaluationTrialsPerEpoch", "evaluationMaxStepsPerTrial", "useEvaluationCache", "simulationTracesToLogPerEpoch"};
  std::set<string> benchOnly = {"terminateLowerBoundValue", "terminateUpperBoundValue", "evaluationFirstEpochWallclockSeconds", "evaluationEpochsPerMagnitude"};
  for (auto &b : bad) {
    bool isGood = false;
    for (auto a : o.alt) if (b == a) isGood = true;
    if (b == o.def || isGood) continue;
    vector<vector<string>> cmds;
    vector<string> solve = {"solve", "v.pomdp", "--terminateNumBackups", "1", "-o", "v2.policy"}, bench = {"bench", "v.pomdp", "--terminateNumBackups", "1", "-i", "3"},
                   eval = {"eval", "v.pomdp", "--policyInputFile", "v.policy", "-i", "3", "--evaluationMaxStepsPerTrial", "5"};
    if (n == "customMDPNumStates") { solve[1] = bench[1] = "custom"; }
    if (evalOnly.count(n)) cmds = {eval};
    else if (benchOnly.count(n)) cmds = {bench};
    else if (notSolve.count(n)) cmds = {bench, eval};
    else if (both.count(n)) cmds = {solve, bench, eval};
    else if (n == "useWeakUpperBoundHeuristic" || n == "modelType" || 1) cmds = {solve, bench};
    for (auto &a : cmds) {
      vector<string> x = a;
      x.push_back("--" + n); x.push_back(b);
      if (!refused("invalid-value-" + n, x, "")) return;
      if (b != "" && b.find(' ') == string::npos) {     // the same from a file
        vector<string> y; bool skip = false;
        for (size_t k = 0; k < a.size(); k++) { if (a[k] == "--" + n || a[k] == aliasOf(n)) { k++; continue; } y.push_back(a[k]); }
        spit("c.cfg", n + " " + b + "\n");
        y.push_back("-c"); y.push_back("c.cfg");
        if (!skip && !refused("invalid-value-file-" + n, y, n + " " + b)) return;
      }
    }
  }
}
// how the strings become the parameters of the planner
static void decode() {
  for (auto &o : options()) {
    if (o.kind == 's' || o.kind == 'c' || o.kind == 'm' || o.kind == 'g') continue;
    vector<string> vals(o.alt.begin(), o.alt.end());
    vals.push_back(o.def);
    if (o.kind == 'd') { vals.push_back("1e-7"); vals.push_back("3e2"); vals.push_back("-0.5"); vals.push_back("0"); vals.push_back(".5"); }
    if (o.kind == 'i') { vals.push_back("0"); vals.push_back("-3"); vals.push_back("2147483647"); }
    for (auto &v : vals) {
      string name = o.name;
      Forked f = forked([&]() -> string {
        ZMDPConfig *c = makeConfig({{name, v}, {"simulatorModel", "x.pomdp"}});
        SolverParams p;
        p.setValues(*c);
        std::map<string, double> g = {{"searchStrategy", p.searchStrategy}, {"modelType", p.modelType}, {"lowerBoundRepresentation", p.lowerBoundRepresentation},
          {"upperBoundRepresentation", p.upperBoundRepresentation}, {"maintainLowerBound", p.maintainLowerBound}, {"maintainUpperBound", p.maintainUpperBound},
          {"useFastModelParser", p.useFastModelParser}, {"terminateRegretBound", p.terminateRegretBound}, {"terminateWallclockSeconds", p.terminateWallclockSeconds},
          {"maxHorizon", p.maxHorizon}, {"useWeakUpperBoundHeuristic", p.useWeakUpperBoundHeuristic}, {"runTimeActionSelection", p.useUpperBoundRunTimeActionSelection},
          {"evaluationTrialsPerEpoch", p.evaluationTrialsPerEpoch}, {"evaluationMaxStepsPerTrial", p.evaluationMaxStepsPerTrial},
          {"evaluationFirstEpochWallclockSeconds", p.evaluationFirstEpochWallclockSeconds}, {"evaluationEpochsPerMagnitude", p.evaluationEpochsPerMagnitude}};
        if (!g.count(name)) return "";
        return fmt("%.17g", g[name]);
      });
      RP->count("decoded");
      std::map<string, int> en = {{"frtdp", S_FRTDP}, {"hsvi", S_HSVI}, {"rtdp", S_RTDP}, {"lrtdp", S_LRTDP}, {"hdp", S_HDP}, {"script", S_SCRIPT}, {"pomdp", T_POMDP}, {"mdp", T_MDP},
        {"racetrack", T_RACETRACK}, {"custom", T_CUSTOM}, {"point", V_POINT}, {"maxPlanes", V_MAXPLANES}, {"sawtooth", V_SAWTOOTH}, {"lower", 0}, {"upper", 1}, {"0", 0}, {"1", 1}};
      double want;
      if (o.kind == 'e') {
        if (v != "-") want = en[v];
        else if (name == "modelType") want = T_POMDP;
        else if (name == "lowerBoundRepresentation") want = V_MAXPLANES;
        else if (name == "upperBoundRepresentation") want = V_SAWTOOTH;
        else want = -1;      // resolved later
      } else want = atof(v.c_str());
      if (name == "terminateWallclockSeconds" && want <= 0) want = 99e+20;      // no limit
      if (name == "modelType" && v != "pomdp" && v != "-") { /* representations follow the type */ }
      if (!f.exited || f.code != 0) {
        // an MDP type with explicit POMDP representation does not occur here
        RP->fail("decode", fmt("%s %s: %s %s", o.name, v.c_str(), f.status().c_str(), f.err.substr(0, 200).c_str()));
        return;
      }
      if (f.data == "") continue;
      double got = atof(f.data.c_str());
      if (name == "terminateWallclockSeconds" && want > 1e18 ? got < 1e9 : got != want) {
        RP->fail("decode", fmt("%s %s became %s", o.name, v.c_str(), f.data.c_str()));
        return;
      }
      RP->outcome(mix(hstr(name), hdbl(got)));
    }
  }
  // type and representations inferred from the file name
  struct { const char *m; int t, l, u; } N[] = {{"a.pomdp", T_POMDP, V_MAXPLANES, V_SAWTOOTH}, {"a.mdp", T_MDP, V_POINT, V_POINT}, {"d/a.b.racetrack", T_RACETRACK, V_POINT, V_POINT},
    {"custom", T_CUSTOM, V_POINT, V_POINT}, {"x.mdp.pomdp", T_POMDP, V_MAXPLANES, V_SAWTOOTH}, {".mdp", T_MDP, V_POINT, V_POINT}};
  for (auto &n : N) {
    Forked f = forked([&]() -> string { SolverParams p; p.setValues(*makeConfig({{"simulatorModel", n.m}})); return fmt("%d %d %d", p.modelType, p.lowerBoundRepresentation, p.upperBoundRepresentation); });
    RP->count("decoded");
    if (f.data != fmt("%d %d %d", n.t, n.l, n.u)) { RP->fail("infer", fmt("%s: %s %s", n.m, f.status().c_str(), f.data.c_str())); return; }
  }
}
void mc_enumerate(Run &R) {
  RP = &R;
  const vector<OptDef> &O = options();
  R.run([&] { return string("generated configuration"); }, [&] { generated(); R.sample("generated configuration file read back, every line edited, removed, moved"); });
  R.run([&] { return string("errors"); }, [&] { errors(); });
  R.run([&] { return string("help"); }, [&] { help(); });
  R.run([&] { return string("decode"); }, [&] { decode(); });
  for (auto &o : O) R.run([&] { return fmt("invalid values of %s", o.name); }, [&] { badValues(o); });
  for (string v : {"a b", "", " ", "-", "-o", "-f", "--", "--searchStrategy", "eval", "bench", "solve x", "a\tb", "#x", "a#b", "a;b", "//x", "a=b", "a,b", "$HOME", "~", "0x10", "alias", "1e3", "'", "\"q\"", "\\n", "%s%n", "caf\xc3\xa9"})
    R.run([&] { return "value '" + v + "'"; }, [&] { values(v); });
  vector<Line> A = lineAlphabet();
  for (int i = -1; i < (int)A.size(); i++) R.run([&] { return fmt("files starting with line %d", i); }, [&] { layouts(i, A, R.thorough ? 3 : 2); if (i == 0) R.sample("config files of lines from an alphabet of " + std::to_string(A.size())); });
  for (auto &o : O) R.run([&] { return fmt("all setting sequences of %s", o.name); }, [&] { seqs(o); if (!strcmp(o.name, "searchStrategy")) R.sample("searchStrategy set from file/long/short form in every sequence of up to 3"); });
  for (size_t a = 0; a < O.size(); a++) for (size_t b = a + 1; b < O.size(); b++) R.run([&] { return fmt("%s with %s", O[a].name, O[b].name); }, [&] { pairs(a, b); });
}
