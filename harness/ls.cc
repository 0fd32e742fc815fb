// P19: the life survey tools.  The domain rules are implemented a second time below (no
// state folding, reward levels kept exactly) and explored together with the generated
// model: every reachable pair of states, every action, every outcome and observation.
#include "zm.h"
#include "cli.h"
#include "lsmap.h"
#include <memory>
#include "LifeSurvey.h"
#include "LSModelFile.h"
#include "LSPathAndReactExec.h"
#include "Pomdp.h"
using namespace mc;
static Run *RP;
// ------------------------------------------------------------- a generated model
struct Gen {
  double disc = -1; string values;
  vector<string> S, A, O;
  vector<double> b0;
  std::map<std::pair<int, int>, double> R;                      // action, state
  std::map<std::pair<int, int>, std::map<int, double>> T, Ob;   // action, state -> state / obs
};
static bool idx(const vector<string> &names, const string &w, int &i) {
  static std::map<const void *, std::map<string, int>> memo;
  auto it = std::find(names.begin(), names.end(), w);
  i = it - names.begin();
  return it != names.end();
}
static string load(const string &text, bool full, Gen &g) {
  std::istringstream in(text);
  string l;
  std::map<string, int> si, ai, oi;
  auto names = [&](std::istringstream &w, vector<string> &v, std::map<string, int> &ix) -> bool {
    string x;
    if (full) { while (w >> x) { ix[x] = v.size(); v.push_back(x); } return ix.size() == v.size(); }
    int n;
    if (!(w >> n)) return false;
    for (int i = 0; i < n; i++) { ix[fmt("%d", i)] = i; v.push_back(fmt("%d", i)); }
    return true;
  };
  while (getline(in, l)) {
    std::istringstream w(l);
    string k, c, x, y, z;
    if (!(w >> k)) continue;
    if (k == "discount:") { if (!(w >> g.disc)) return l; }
    else if (k == "values:") w >> g.values;
    else if (k == "actions:") { if (!names(w, g.A, ai)) return "actions"; }
    else if (k == "observations:") { if (!names(w, g.O, oi)) return "observations"; }
    else if (k == "states:") { if (!names(w, g.S, si)) return "states"; }
    else if (k == "start:") { double v; while (w >> v) g.b0.push_back(v); }
    else if (k == "R:" || k == "T:" || k == "O:") {
      // k a : s : x ...
      string as, c1, ss, c2, ts; double v;
      if (!(w >> as >> c1 >> ss >> c2 >> ts) || c1 != ":" || c2 != ":") return l;
      if (!ai.count(as) || !si.count(ss)) return "unknown name in " + l;
      int a = ai[as], s = si[ss];
      if (k == "R:") {
        string c3, os;
        if (!(w >> c3 >> os >> v) || ts != "*" || c3 != ":" || os != "*" || g.R.count({a, s})) return l;
        g.R[{a, s}] = v;
      } else {
        if (!(w >> v)) return l;
        auto &ix = k == "T:" ? si : oi;
        if (!ix.count(ts)) return "unknown name in " + l;
        auto &row = (k == "T:" ? g.T : g.Ob)[{a, s}];
        if (row.count(ix[ts])) return "repeated " + l;
        row[ix[ts]] = v;
      }
    } else return "unexpected line " + l;
  }
  if (g.b0.size() != g.S.size()) return fmt("%zu start probabilities for %zu states", g.b0.size(), g.S.size());
  return "";
}
static const char *ANAME[7] = {"ane", "ae", "ase", "anes", "aes", "ases", "alook"};
static bool product(const Map &m, const Gen &g, string &why) {
  if (g.disc != 0.999 || g.values != "reward" || g.A.size() != 7 || g.O.size() != 28) { why = fmt("preamble %g %s %zu %zu", g.disc, g.values.c_str(), g.A.size(), g.O.size()); return false; }
  int ai[7], oi[28];
  for (int a = 0; a < 7; a++) if (!idx(g.A, ANAME[a], ai[a])) { why = "action names"; return false; }
  for (int o = 0; o < 28; o++) if (!idx(g.O, o == 27 ? "onull" : fmt("o%d%d%d", o / 9, o / 3 % 3, o % 3), oi[o])) { why = "observation names"; return false; }
  std::map<string, int> si;
  for (size_t i = 0; i < g.S.size(); i++) si[g.S[i]] = i;
  auto find = [&](const St &s, int &i) -> bool {
    if (s.term) { auto it = si.find("sterminal"); if (it == si.end()) return false; i = it->second; return true; }
    // every way of forgetting levels of regions that cannot be entered any more
    int n = s.lev.size(), hits = 0;
    for (int mask = 0; mask < 1 << n; mask++) {
      string r;
      bool okm = true;
      for (int k = 0; k < n; k++) { if (mask >> k & 1) { r += '9'; if (canEnter(m, s.x, s.y, k)) okm = false; } else r += '0' + s.lev[k]; }
      if (!okm) continue;
      auto it = si.find(fmt("sx%dy%dd%du%dn%d%d%dr%s", s.x, s.y, s.last, s.used, s.life[0], s.life[1], s.life[2], r.c_str()));
      if (it != si.end()) { i = it->second; hits++; }
    }
    return hits == 1;
  };
  double suma = m.oa[0] + m.oa[1] + m.oa[2], sump = m.op[0] + m.op[1] + m.op[2];
  vector<std::pair<double, St>> init, out;
  initial(m, init);
  vector<double> b(g.S.size(), 0);
  std::map<std::pair<string, int>, St> seen;
  vector<std::pair<St, int>> q;
  for (auto &p : init) {
    int i;
    if (!find(p.second, i)) { why = "no single state for initial " + p.second.key(); return false; }
    b[i] += p.first;
    if (seen.insert({{p.second.key(), i}, p.second}).second) q.push_back({p.second, i});
  }
  for (size_t i = 0; i < b.size(); i++) if (fabs(b[i] - g.b0[i]) > 1e-14) { why = fmt("start probability of %s: %.17g for %.17g", g.S[i].c_str(), g.b0[i], b[i]); return false; }
  std::set<int> reached;
  for (size_t k = 0; k < q.size(); k++) {
    St s = q[k].first; int gi = q[k].second;
    reached.insert(gi);
    for (int a = 0; a < 7; a++) {
      RP->count("transitions");
      double rew = step(m, s, a, out);
      auto ri = g.R.find({ai[a], gi});
      double gr = ri == g.R.end() ? 0 : ri->second;
      if (fabs(gr - rew) > 1e-11) { why = fmt("reward of %s in %s: %.15g for %.15g", ANAME[a], g.S[gi].c_str(), gr, rew); return false; }
      std::map<int, double> want;
      for (auto &p : out) {
        int i;
        if (!find(p.second, i)) { why = fmt("%s in %s: no single state for %s", ANAME[a], g.S[gi].c_str(), p.second.key().c_str()); return false; }
        want[i] += p.first;
        if (p.first > 1e-15 && seen.insert({{p.second.key(), i}, p.second}).second) q.push_back({p.second, i});
      }
      auto ti = g.T.find({ai[a], gi});
      std::map<int, double> have;
      if (ti != g.T.end()) have = ti->second;
      for (auto &p : have) want[p.first] += 0;
      for (auto &p : want) {
        double hv = have.count(p.first) ? have[p.first] : 0;
        if (fabs(hv - p.second) > 1e-14) { why = fmt("%s in %s to %s: %.17g for %.17g", ANAME[a], g.S[gi].c_str(), g.S[p.first].c_str(), hv, p.second); return false; }
      }
      // observation after arriving in this state by this action (as the model states it)
      std::map<int, double> wo;
      if (s.term || a != 6) wo[oi[27]] = 1;
      else for (int o = 0; o < 27; o++) {
        int c[3] = {o / 9, o / 3 % 3, o % 3};
        double p = 1;
        for (int d = 0; d < 3; d++) p *= s.life[d] ? m.op[c[d]] / sump : m.oa[c[d]] / suma;
        wo[oi[o]] = p;
      }
      auto oit = g.Ob.find({ai[a], gi});
      for (int o = 0; o < 28; o++) {
        double hv = 0;
        if (oit != g.Ob.end() && oit->second.count(oi[o])) hv = oit->second.at(oi[o]);
        if (fabs(hv - (wo.count(oi[o]) ? wo[oi[o]] : 0)) > 1e-14) { why = fmt("observation %s after %s in %s: %.17g", g.O[oi[o]].c_str(), ANAME[a], g.S[gi].c_str(), hv); return false; }
      }
    }
  }
  RP->count("states", q.size());
  // states beyond the reachable ones must at least be well formed
  for (size_t s = 0; s < g.S.size(); s++) for (int a = 0; a < 7; a++) {
    double t = 0, o = 0;
    auto ti = g.T.find({a, (int)s}); if (ti != g.T.end()) for (auto &p : ti->second) t += p.second;
    auto ob = g.Ob.find({a, (int)s}); if (ob != g.Ob.end()) for (auto &p : ob->second) o += p.second;
    if (fabs(t - 1) > 1e-10 || fabs(o - 1) > 1e-10) { why = fmt("state %s action %d: probabilities add up to %.15g and %.15g", g.S[s].c_str(), a, t, o); return false; }
  }
  uint64_t h = 3;
  for (auto &r : g.R) h = mix(h, hdbl(r.second));
  RP->outcome(mix(h, mix(g.S.size(), q.size())));
  return true;
}
static void writeTargets(const Map &m, const string &fn) {
  string s = "# targets\n";
  for (auto &p : m.targets) s += fmt("%d %d\n", p.first, p.second);
  if (m.layout & 1) s += "\n";
  spit(fn, s);
}
static bool generate(const Map &m, bool alsoReaders) {
  RP->describe(drawn(m));
  spit("m.lifeSurvey", m.text());
  if (m.hasTargets) writeTargets(m, "m.targets");
  Gen f, n;
  for (int form = 0; form < 2; form++) {
    vector<string> a;
    if (form) a.push_back(m.layout & 2 ? "--full" : "-f");
    if (m.hasTargets) { a.push_back(m.layout & 1 ? "-t" : "--target-list"); a.push_back("m.targets"); }
    a.push_back("m.lifeSurvey");
    string fn = form ? "f.pomdp" : "m.pomdp";
    unlink(fn.c_str());
    if (form || (m.layout & 4)) a.push_back(fn);
    Cli c = runCli(binary("gen_LifeSurvey"), a);
    RP->count("executions");
    string t;
    if (!c.ok() || !slurp(fn, t)) { RP->fail(m.h % 2 ? "gen" : "gen-even", drawn(m) + ": " + c.status() + " " + c.err.substr(0, 400)); return false; }
    string e = load(t, form, form ? f : n);
    if (e != "") { RP->fail("gen-format", drawn(m) + ": " + e); return false; }
  }
  string why;
  if (!product(m, f, why)) { RP->fail(m.hasTargets ? "model-targets" : m.layout & 8 ? "model-last-line" : m.h % 2 ? "model" : "model-even", drawn(m) + ": " + why); return false; }
  if (f.disc != n.disc || f.S.size() != n.S.size() || f.A.size() != n.A.size() || f.O.size() != n.O.size() || f.b0 != n.b0 || f.R != n.R || f.T != n.T || f.Ob != n.Ob) {
    RP->fail("numeric-form", drawn(m) + ": the numeric model is not the full-name model");
    return false;
  }
  if (alsoReaders) for (int k = 0; k < 3; k++) {
    Forked r = forked([&]() -> string {
      ZMDPConfig *c = makeConfig({{"useFastModelParser", k == 1 ? "1" : "0"}});
      Pomdp p(k == 2 ? "f.pomdp" : "m.pomdp", c);
      std::ostringstream o;
      o << p.numStates << " " << p.getNumActions() << " " << p.getNumObservations() << " " << p.getDiscount();
      double d = 0;
      for (int s = 0; s < p.numStates; s++) for (int a = 0; a < 7; a++) {
        auto ri = f.R.find({a, s});
        d = std::max(d, fabs(p.R(s, a) - (ri == f.R.end() ? 0 : ri->second)));
      }
      o << " " << (d < 1e-9);
      return o.str();
    });
    RP->count("read");
    if (!r.ok() || r.data != fmt("%zu 7 28 0.999 1", f.S.size())) { RP->fail("not-readable", drawn(m) + fmt(": reader %d: %s '%s' %s", k, r.status().c_str(), r.data.c_str(), r.err.substr(0, 300).c_str())); return false; }
  }
  return true;
}
static bool roundTrip(const Map &m) {
  RP->describe(drawn(m));
  spit("m.lifeSurvey", m.text());
  Forked r = forked([&]() -> string {
    LSModelFile a, b;
    a.readFromFile("m.lifeSurvey");
    FILE *f = fopen("r.lifeSurvey", "w");
    a.writeToFile(f);
    fclose(f);
    b.readFromFile("r.lifeSurvey");
    auto cellsOf = [&](LSModelFile &z) { string s; for (int y = -1; y < 8; y++) for (int x = -1; x < 20; x++) { int c = z.grid.getCellBounded(LSPos(x, y)); if (c != LS_OBSTACLE) s += fmt("%d,%d,%d ", x, y, c); } return s; };
    string want;
    for (int y = -1; y < 8; y++) for (int x = -1; x < 20; x++) if (m.cell(x, y) >= 0) want += fmt("%d,%d,%d ", x, y, m.cell(x, y));
    if (cellsOf(a) != want) return "read as " + cellsOf(a) + " for " + want;
    if (cellsOf(b) != want) return "re-read as " + cellsOf(b) + " for " + want;
    if (a.startX != m.sx || a.startY != m.sy || a.baseCost != m.base || a.lookaheadCost != m.look || a.regionPriors != m.prior) return "parameters read wrong";
    if (b.startX != m.sx || b.startY != m.sy || b.baseCost != m.base || b.lookaheadCost != m.look || b.regionPriors != m.prior) return "parameters changed by writing and reading";
    for (int i = 0; i < 3; i++) if (fabs(a.obsDistributionLifeAbsent[i] - b.obsDistributionLifeAbsent[i]) > 1e-15 || fabs(a.obsDistributionLifePresent[i] - b.obsDistributionLifePresent[i]) > 1e-15) return "observation table changed";
    return "ok";
  });
  RP->count("roundtrips");
  if (r.data != "ok") { RP->fail(m.h % 2 ? "roundtrip" : "roundtrip-even", drawn(m) + ": " + r.status() + " " + r.data + r.err.substr(0, 300)); return false; }
  return true;
}
static bool dumpMap(const Map &m) {
  RP->describe(drawn(m));
  spit("m.lifeSurvey", m.text());
  unlink("m.mapDump"); unlink("d.out");
  vector<string> a = {"m.lifeSurvey"};
  if (m.layout & 1) a.push_back("d.out");
  Cli c = runCli(binary("dumpMap"), a);
  RP->count("executions");
  string t, want;
  slurp(m.layout & 1 ? "d.out" : "m.mapDump", t);
  for (int y = 0; y < m.h; y++) for (int x = 0; x < 100; x++) if (m.cell(x, y) >= 0) want += fmt("%d %d %d\n", x, y, m.cell(x, y));
  if (!c.ok() || t != want) { RP->fail("dumpmap", drawn(m) + ": " + c.status() + "\n" + t); return false; }
  return true;
}
// all action sequences up to a length, against the statistics tool
static void stats(const Map &m0, int len) {
  Map m = m0;
  m.hasTargets = true;
  spit("m.lifeSurvey", m.text());
  writeTargets(m, "m.targets");
  vector<int> seq;
  std::function<bool(const St &, double, int, int, int, int)> go = [&](const St &s, double rew, int looks, int good, int samples, int ill) -> bool {
    string t = "# trace\n";
    for (int a : seq) t += fmt("%d %d\n", a, a == 6 ? (a * 5 + (int)seq.size()) % 27 : 27);
    if (m.layout & 1) t += "\n";
    spit("m.actions", t);
    RP->describe(drawn(m) + "\ntrace:\n" + t);
    vector<string> a = {"m.lifeSurvey", "m.targets", "m.actions"};
    if (m.layout & 2) a.insert(a.begin(), "-v");
    Cli c = runCli(binary("calcLSTrialStats"), a);
    RP->count("executions"); RP->count("traces");
    int g[5] = {-1, -1, -1, -1, -1}; double r = -1e9;
    std::istringstream in(c.out);
    string l;
    while (getline(in, l)) {
      sscanf(l.c_str(), "ACTIONS_LOOK_TOTAL %d %d", &g[0], &g[1]);
      sscanf(l.c_str(), "SAMPLES_GOOD_TOTAL %d %d", &g[2], &g[3]);
      sscanf(l.c_str(), "ILLEGAL_ACTIONS %d", &g[4]);
      sscanf(l.c_str(), "REWARD %lf", &r);
    }
    int w[5] = {looks, (int)seq.size(), good, samples, ill};
    if (!c.ok() || memcmp(g, w, sizeof g) || fabs(r - rew) > 6e-4) {
      RP->fail(ill ? "stats-illegal" : "stats", fmt("%s\ntrace:\n%s: %s looks %d/%d samples %d/%d illegal %d reward %.3f, wanted %d/%d %d/%d %d %.6f", drawn(m).c_str(), t.c_str(), c.status().c_str(), g[0], g[1], g[2], g[3], g[4], r, w[0], w[1], w[2], w[3], w[4], rew));
      return false;
    }
    RP->outcome(mix(hdbl(r), mix(g[0] * 64 + g[2], g[3] * 64 + g[4])));
    if ((int)seq.size() == len || s.term) return true;
    for (int a = 0; a < 7; a++) {
      vector<std::pair<double, St>> out;
      bool il = illegal(m, s, a);
      double im = step(m, s, a, out);
      if (out.size() != 1) { RP->fail("harness", "targets should make life certain"); return false; }
      bool smp = a >= 3 && a < 6 && !il, gd = smp && m.targets.count({s.x + DX[a % 3], s.y + DY[a % 3]});
      seq.push_back(a);
      bool ok = go(out[0].second, rew + pow(0.999, seq.size() - 1) * im, looks + (a == 6), good + gd, samples + smp, ill + il);
      seq.pop_back();
      if (!ok) return false;
    }
    return true;
  };
  vector<std::pair<double, St>> in;
  initial(m, in);
  if (in[0].second.term) return;
  go(in[0].second, 0, 0, 0, 0, 0);
}
static bool refuse(const string &key, const string &text, const vector<string> &tools = {"gen_LifeSurvey", "dumpMap"}) {
  spit("m.lifeSurvey", text);
  RP->describe(text);
  for (auto &t : tools) {
    Cli c = runCli(binary(t), {"m.lifeSurvey", "x.out"});
    RP->count("executions"); RP->count("refusals");
    if (!c.exited || c.code == 0 || c.err.find("ERROR") == string::npos) { RP->fail(key, text + "\n" + t + ": " + c.status() + " " + c.err.substr(0, 200)); return false; }
  }
  return true;
}
static bool targets(const Map &m) {
  spit("m.lifeSurvey", m.text());
  RP->describe(drawn(m));
  string first;
  for (int seed = 1; seed < 4; seed++) for (int rep = 0; rep < 2; rep++) {
    Cli c = runCli(binary("genTargetLocations"), {rep ? "--seed" : "-s", fmt("%d", seed), "m.lifeSurvey"});
    RP->count("executions");
    if (!c.ok()) { RP->fail("targets", drawn(m) + c.status() + c.err.substr(0, 200)); return false; }
    if (rep == 0) first = c.out;
    else if (first != c.out) { RP->fail("targets-seed", drawn(m) + ": same seed, different targets"); return false; }
    // header, map, list
    std::istringstream in(c.out);
    string l; int num = -1;
    getline(in, l);
    size_t p = l.find("numTargets=");
    if (p != string::npos) num = atoi(l.c_str() + p + 11);
    vector<string> rows;
    getline(in, l);
    for (int y = m.h - 1; y >= 0; y--) { getline(in, l); rows.push_back(l); }
    getline(in, l);
    getline(in, l);
    std::set<std::pair<int, int>> lst, pic;
    char ch; int x, y;
    while (in >> x >> ch >> y) lst.insert({x, y});
    bool ok = (int)lst.size() == num && l.substr(0, 2) == "--";
    for (int r = 0; r < m.h && ok; r++) {
      int yy = m.h - 1 - r;
      for (int k = 0; k < (int)m.rows[yy].size(); k++) {
        size_t col = 2 + (yy & 1) + 2 * k;
        char cc = col < rows[r].size() ? rows[r][col] : ' ';
        int xx = (yy + 1) / 2 + k, reg = m.cell(xx, yy);
        if ((reg < 0) != (cc == ' ')) ok = false;
        if (cc == 'O') pic.insert({xx, yy});
        if (reg >= 0 && m.prior[reg] == 0 && cc == 'O') ok = false;
        if (reg >= 0 && m.prior[reg] == 1 && cc != 'O') ok = false;
      }
    }
    if (!ok || pic != lst) { RP->fail("targets", drawn(m) + ":\n" + c.out); return false; }
    RP->outcome(hstr(c.out));
  }
  return true;
}
// the path policy: whatever it senses, it looks once per cell and never acts illegally
static void pathPolicy(const Map &m, int depth) {
  spit("m.lifeSurvey", m.text());
  RP->describe("path policy\n" + drawn(m));
  Forked r = forked([&]() -> string {
    ZMDPConfig *c = makeConfig({{"policyType", "lspath"}});
    int lens = 0;
    std::set<string> seen;
    vector<int> hist;
    string bad;
    std::function<void(int)> go = [&](int d) {
      // replay
      static LSPathAndReactExec *e = NULL;
      if (!e) { e = new LSPathAndReactExec(); e->init("m.lifeSurvey", c); }
      e->setToInitialState();
      St s; s.x = m.sx; s.y = m.sy; s.last = 1; s.used = 0; s.life[0] = s.life[1] = s.life[2] = 0; s.lev.assign(m.nreg(), 0); s.lev[m.cell(m.sx, m.sy)] = 1;
      for (size_t i = 0; i <= hist.size(); i++) {
        int a = e->chooseAction();
        if (illegal(m, s, a) || (!s.used && a != 6)) { bad = fmt("action %d in %s", a, s.key().c_str()); return; }
        if (i == hist.size()) {
          if (d == 0) return;
          St n = s;
          if (a == 6) { for (int o : {0, 8, 2, 26, 18, 24}) { if (bad != "") return; hist.push_back(o); go(d - 1); hist.pop_back(); } }
          else { int x = s.x + DX[a % 3], y = s.y + DY[a % 3]; lens++; if (m.atExit(x, y)) return; hist.push_back(27); go(d - 1); hist.pop_back(); }
          return;
        }
        e->advanceToNextState(a, hist[i]);
        if (a == 6) s.used = 1; else { s.x += DX[a % 3]; s.y += DY[a % 3]; s.last = a % 3; s.used = 0; }
      }
    };
    go(depth);
    return bad == "" ? fmt("ok %d", lens) : bad;
  }, 60);
  RP->count("paths");
  // maps with dead ends may leave it without a legal move: it says so
  if (r.exited && r.code != 0 && r.err.find("no legal moves") != string::npos) { RP->count("dead_ends"); return; }
  if (r.data.compare(0, 2, "ok")) RP->fail("path-policy", drawn(m) + ": " + r.status() + " " + r.data + " " + r.err.substr(0, 300));
}
void mc_enumerate(Run &R) {
  RP = &R;
  // 2 rows first bottom; total cells <= bound
  vector<vector<int>> shapes = {{1}, {2}, {3}, {4}, {1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 1}, {3, 2}, {2, 3}, {1, 1, 1}, {2, 1, 2}, {1, 2, 1}, {2, 2, 1}, {2, 2, 2}, {3, 3}, {5}};
  if (R.thorough) for (auto s : vector<vector<int>>{{4, 3}, {3, 2, 2}, {3, 3, 1}, {2, 2, 2, 1}, {1, 1, 1, 1}, {2, 2, 2, 2}, {4, 4}, {7}}) shapes.push_back(s);
  int serial = 0;
  for (auto &sh : shapes) {
    int n = 0;
    for (int w : sh) n += w;
    const char *al = R.thorough && n <= 5 ? " abc" : " ab";
    int K = strlen(al);
    long tot = 1;
    for (int i = 0; i < n; i++) tot *= K;
    for (long code = 0; code < tot; code++) {
      Map m;
      m.h = sh.size();
      long x = code; std::set<char> used;
      for (int w : sh) { string r; for (int k = 0; k < w; k++, x /= K) { r += al[x % K]; used.insert(al[x % K]); } m.rows.push_back(r); }
      used.erase(' ');
      if (used.empty() || !used.count('a') || (used.count('c') && !used.count('b'))) continue;
      vector<std::pair<int, int>> cells;
      for (int y = 0; y < m.h; y++) for (int k = 0; k < (int)m.rows[y].size(); k++) if (m.rows[y][k] != ' ') cells.push_back({(y + 1) / 2 + k, y});
      serial++;
      int me = serial;
      if (n > 4 && !R.thorough && code % 2) continue;
      R.run([&] { return fmt("map %d", me); }, [&] {
        for (size_t c = 0; c < cells.size(); c++) {
          Map q = m;
          q.sx = cells[c].first; q.sy = cells[c].second;
          params(q, me * 5 + c * 3);
          if (n > 4 && !R.thorough && c != me % cells.size() && c != (me + 1) % cells.size()) continue;
          R.count("maps");
          if (!generate(q, me % 9 == 0)) return;
          if (me % 2 == 0 && !roundTrip(q)) return;
          if (me % 4 == 0 && !dumpMap(q)) return;
          if (me % 8 == 0 && !targets(q)) return;
          if (me % 3 == 0) {
            for (int t = 0; t < 2; t++) {
              q.hasTargets = true; q.targets.clear();
              for (size_t k = 0; k < cells.size(); k++) if ((me + t * 3 + k * k) % 3 == 0) q.targets.insert(cells[k]);
              if (t) { q.targets.insert({-1, 0}); q.targets.insert({50, 50}); }
              if (!generate(q, false)) return;
            }
            q.hasTargets = false;
          }
        }
        if (me % 300 == 0) R.sample(m.text());
      });
      if (n >= 4 && serial % (R.thorough ? 12 : 60) == 0) R.run([&] { return fmt("traces of map %d", me); }, [&] {
        Map q = m;
        q.sx = cells[0].first; q.sy = cells[0].second;
        params(q, me);
        for (size_t k = 0; k < cells.size(); k++) if ((me + k) % 2 == 0) q.targets.insert(cells[k]);
        stats(q, R.thorough ? 4 : 3);
      });
    }
  }
  // larger maps: path policy and traces
  vector<vector<string>> big = {{"aabbb", "abbb", "aabbb"}, {"aaaaaaaa", "abbb ccc", "aabbbbcc"}, {"aaaa", "bbbb"}, {"abcabcabc"}, {"aaaaa", "a  a", "bbbbb", "bbbb", "ccccc"}};
  for (size_t b = 0; b < big.size(); b++) {
    Map m;
    m.h = big[b].size(); m.rows = big[b];
    for (int i = 0; i < (R.thorough ? 8 : 3); i++) {
      Map q = m;
      q.sy = i % m.h; q.sx = (q.sy + 1) / 2;
      params(q, i * 3 + b);
      if (q.cell(q.sx, q.sy) < 0) continue;
      R.run([&] { return fmt("large map %zu", b); }, [&] {
        pathPolicy(q, R.thorough ? 9 : 7);
        for (int y = 0; y < q.h; y++) for (int x = 0; x < 12; x++) if (q.cell(x, y) >= 0 && (x + y + i) % 3 == 0) q.targets.insert({x, y});
        stats(q, R.thorough ? 4 : 3);
        if (q.h * q.rows[0].size() < 26) { q.targets.clear(); roundTrip(q) && dumpMap(q) && targets(q) && (b == 1 || b == 4 || generate(q, true)); }
      });
    }
  }
  R.run([&] { return string("malformed maps"); }, [&] {
    Map m;
    m.h = 2; m.rows = {"ab", "a"}; m.sx = 0; m.sy = 0;
    params(m, 0);
    m.layout = 0;
    auto with = [&](std::function<void(Map &)> f) { Map q = m; f(q); return q.text(); };
    string t = m.text();
    for (int x = -2; x < 6; x++) for (int y = -2; y < 4; y++) if (m.cell(x, y) < 0 && !refuse("bad-start", with([&](Map &q) { q.sx = x; q.sy = y; }))) return;
    for (double v : {-.1, 1.1, -1e9, 2.0}) for (int i = 0; i < 2; i++) if (!refuse("bad-prior", with([&](Map &q) { q.prior[i] = v; }))) return;
    for (int i = 0; i < 3; i++) { if (!refuse("bad-obs", with([&](Map &q) { q.oa[i] = -1; }))) return; if (!refuse("bad-obs", with([&](Map &q) { q.op[i] = -.5; }))) return; }
    if (!refuse("bad-obs", with([&](Map &q) { q.oa[0] = q.oa[1] = q.oa[2] = 0; }))) return;
    if (!refuse("bad-count", with([&](Map &q) { q.prior.push_back(.5); }))) return;
    if (!refuse("bad-count", with([&](Map &q) { q.prior.pop_back(); }))) return;
    // every preamble line removed, every map character replaced
    vector<string> L; { std::istringstream in(t); string l; while (getline(in, l)) L.push_back(l); }
    for (size_t k = 0; k < L.size(); k++) {
      string s;
      bool pre = true;
      for (size_t j = 0; j < L.size(); j++) { if (L[j][0] == '-') { if (j < k) pre = false; } if (j != k) s += L[j] + "\n"; }
      if (pre && !refuse("missing-line", s)) return;
    }
    for (char c : string("A1*.@{`\t")) for (size_t p = t.find("---") + 4; p < t.size(); p++) if (t[p] >= 'a' && t[p] <= 'z') { string s = t; s[p] = c; if (!refuse("bad-cell", s)) return; }
    string s = t; s.insert(t.find("---") + 4, "x");
    if (!refuse("bad-checkerboard", s)) return;
    if (!refuse("empty-map", t.substr(0, t.find("---") + 4))) return;
    if (!refuse("no-map", t.substr(0, t.find("---")))) return;
    if (!refuse("empty-line", t + "\n" + "a b\n")) return;
    unlink("nothere");
    for (auto tool : {"gen_LifeSurvey", "dumpMap"}) {
      Cli c = runCli(binary(tool), {"nothere", "x"});
      if (!c.exited || c.code == 0) { R.fail("missing-file", tool + c.status()); return; }
      spit("m.lifeSurvey", t);
      c = runCli(binary(tool), {"m.lifeSurvey", "/dev/full"});
      if (!c.exited || c.code == 0) { R.fail("unwritable", string(tool) + " to a full device: " + c.status()); return; }
      c = runCli(binary(tool), {"m.lifeSurvey", "no/such/dir/x"});
      if (!c.exited || c.code == 0) { R.fail("unwritable", string(tool) + " to a missing directory: " + c.status()); return; }
    }
  });
}
