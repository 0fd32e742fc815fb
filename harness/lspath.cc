// P24: the life survey heuristics 'lspath' and 'lsblind'.  Every path of a map is listed and
// the planned one compared with the best of them; then everything the vehicle can sense is
// fed to the policy and each of its actions compared with the documented preferences.
#include "zm.h"
#include "cli.h"
#include "lsmap.h"
#include "LifeSurvey.h"
#include "LSPathAndReactExec.h"
using namespace mc;
static Run *RP;
struct Step { int x, y, last; };
static bool can(const Map &m, int x, int y, int last, int d) {
  return m.cell(x + DX[d], y + DY[d]) >= 0 && !(last == 0 && d == 2) && !(last == 2 && d == 0);
}
// expected number of regions with life in one of the cells that can be sampled along the path
static double worth(const Map &m, const vector<Step> &p) {
  vector<std::set<std::pair<int, int>>> seen(m.nreg());
  for (auto &s : p) {
    if (m.atExit(s.x, s.y)) break;
    for (int d = 0; d < 3; d++) if (can(m, s.x, s.y, s.last, d)) seen[m.cell(s.x + DX[d], s.y + DY[d])].insert({s.x + DX[d], s.y + DY[d]});
  }
  double v = 0;
  for (int r = 0; r < m.nreg(); r++) v += 1 - pow(1 - m.prior[r], (double)seen[r].size());
  return v;
}
static void paths(const Map &m, vector<Step> &p, double &best, long &n) {
  Step s = p.back();
  if (m.atExit(s.x, s.y)) { n++; best = std::max(best, worth(m, p)); return; }
  for (int d = 0; d < 3; d++) if (can(m, s.x, s.y, s.last, d)) { p.push_back({s.x + DX[d], s.y + DY[d], d}); paths(m, p, best, n); p.pop_back(); }
}
struct Ref {                     // what the policy may know
  Step at; int used = 0; bool pos[3] = {false, false, false};
  std::set<int> sampled;
  string key() const { string k = fmt("%d,%d,%d,%d,%d%d%d", at.x, at.y, at.last, used, pos[0], pos[1], pos[2]); for (int r : sampled) k += fmt(",%d", r); return k; }
};
static int hexDist(int dx, int dy) { return (abs(dx) + abs(dy) + abs(dx - dy)) / 2; }
static int preferred(const Map &m, const Ref &s, const vector<Step> &plan) {
  if (!s.used) return 6;
  static const int rank[3] = {2, 0, 1};     // NE before SE before E
  int best = -1; bool bestT = false; int bestD = 0;
  for (int d = 0; d < 3; d++) {
    if (!can(m, s.at.x, s.at.y, s.at.last, d)) continue;
    int x = s.at.x + DX[d], y = s.at.y + DY[d];
    bool t = s.pos[d] && !s.sampled.count(m.cell(x, y));
    int dist = 9999;
    for (auto &c : plan) dist = std::min(dist, hexDist(x - c.x, y - c.y));
    if (best < 0 || t != bestT ? best < 0 || t : dist != bestD ? dist < bestD : rank[d] > rank[best]) { best = d; bestT = t; bestD = dist; }
  }
  return best < 0 ? -1 : bestT * 3 + best;
}
static void observe(Ref &s, const Map &m, int a, int o) {
  if (a == 6) { s.used = 1; if (o < 27) { int c[3] = {o / 9, o / 3 % 3, o % 3}; for (int d = 0; d < 3; d++) s.pos[d] = c[d] == 2; } return; }
  int d = a % 3;
  s.at = {s.at.x + DX[d], s.at.y + DY[d], d};
  if (a >= 3 && s.pos[d]) s.sampled.insert(m.cell(s.at.x, s.at.y));
  s.used = 0; s.pos[0] = s.pos[1] = s.pos[2] = false;
}
static string describe(const vector<Step> &p) { string s; for (auto &c : p) s += fmt("(%d,%d)", c.x, c.y); return s; }
static ZMDPConfig *conf(const string &type) { static std::map<string, ZMDPConfig *> c; if (!c[type]) c[type] = makeConfig({{"policyType", type}}); return c[type]; }
static int gOut = -1;
static void quiet() { fflush(stdout); if (gOut < 0) gOut = dup(1); int n = open("plan.out", O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(n, 1); close(n); }
static string loud() { fflush(stdout); std::cout.flush(); dup2(gOut, 1); string s; slurp("plan.out", s); return s; }
static bool onMap(const Map &m, bool sense, size_t cap, vector<Step> *planOut = NULL) {
  spit("m.lifeSurvey", m.text());
  RP->describe(drawn(m));
  quiet();
  LSPathAndReactExec e;
  e.init("m.lifeSurvey", conf("lspath"));
  string out = loud();
  RP->count("plans");
  vector<Step> plan;
  for (auto &c : e.plannedPath) plan.push_back({c.pos.x, c.pos.y, c.lastMoveDirection});
  vector<Step> p = {{m.sx, m.sy, 1}};
  double best = -1; long n = 0;
  paths(m, p, best, n);
  RP->count("paths", n);
  if (n == 0) {
    if (plan.size()) { RP->fail("plan-impossible", drawn(m) + ": no path leads out, planned " + describe(plan)); return false; }
  } else {
    if (plan.empty() || plan[0].x != m.sx || plan[0].y != m.sy) { RP->fail("plan-start", drawn(m) + ": planned " + describe(plan)); return false; }
    for (size_t i = 0; i < plan.size(); i++) {
      bool last = i + 1 == plan.size();
      if (m.atExit(plan[i].x, plan[i].y) != last) { RP->fail("plan-exit", drawn(m) + ": planned " + describe(plan) + " does not end where the map does"); return false; }
      if (last) break;
      int d = plan[i + 1].last;
      if (d < 0 || d > 2 || !can(m, plan[i].x, plan[i].y, plan[i].last, d) || plan[i].x + DX[d] != plan[i + 1].x || plan[i].y + DY[d] != plan[i + 1].y) { RP->fail("plan-illegal", drawn(m) + fmt(": step %zu of the planned path is illegal: ", i) + describe(plan)); return false; }
    }
    double v = worth(m, plan);
    if (!(v >= best - 1e-9)) { RP->fail("plan-not-best", drawn(m) + fmt(": the planned path ") + describe(plan) + fmt(" is worth %.9g, the best one %.9g", v, best)); return false; }
    size_t at = out.find("life samples):");
    if (at != string::npos) {
      double said = atof(out.c_str() + at + 14);
      if (!(fabs(said - best) < 2e-6)) { RP->fail("plan-value", drawn(m) + fmt(": the planned path is said to be worth %.9g, the best one is worth %.9g", said, best)); return false; }
    }
  }
  RP->outcome(hstr(describe(plan) + fmt("%.6f", best)));
  if (planOut) *planOut = plan;
  if (!sense || m.atExit(m.sx, m.sy)) return true;
  // every reading at every look
  struct Node { Ref s; vector<std::pair<int, int>> hist; };
  std::set<string> seen;
  std::deque<Node> q;
  Node r; r.s.at = {m.sx, m.sy, 1};
  q.push_back(r);
  while (q.size() && seen.size() < cap) {
    Node x = q.front(); q.pop_front();
    quiet();
    e.setToInitialState();
    int a = -2;
    for (auto &h : x.hist) { e.chooseAction(); e.advanceToNextState(h.first, h.second); }
    int want = preferred(m, x.s, plan);
    if (want >= 0) a = e.chooseAction();
    loud();
    RP->count("actions");
    if (want < 0) { RP->count("dead_ends"); continue; }
    if (a != want) {
      string h;
      for (auto &k : x.hist) h += fmt(" %d/%d", k.first, k.second);
      RP->fail("reaction", drawn(m) + ": after" + h + " in " + x.s.key() + fmt(" the policy chooses %d, its rules say %d; plan ", a, want) + describe(plan));
      return false;
    }
    for (int o = a == 6 ? 0 : 27; o < (a == 6 ? 27 : 28); o++) {
      if (a == 6 && x.hist.size() > 3) { int c[3] = {o / 9, o / 3 % 3, o % 3}; if ((c[0] == 1) + (c[1] == 1) + (c[2] == 1)) continue; }
      Node y = x;
      observe(y.s, m, a, o);
      y.hist.push_back({a, o});
      if (a != 6 && m.atExit(y.s.at.x, y.s.at.y)) continue;
      if (seen.insert(y.s.key() + (y.hist.size() < 3 ? fmt("/%d", o) : string())).second) q.push_back(y);
    }
  }
  RP->count("situations", seen.size());
  return true;
}
// the whole program on a generated model: the logged actions are the policy's
static void program(const Map &m, int i) {
  vector<Step> plan;
  if (!onMap(m, false, 0, &plan)) return;
  Cli g = runCli(binary("gen_LifeSurvey"), {"m.lifeSurvey", "m.pomdp"});
  if (!g.ok()) { RP->fail("generate", drawn(m) + g.status()); return; }
  for (const char *type : {"lspath", "lsblind"}) for (int cache = 0; cache < 2; cache++) {
    string t = "sim.log";
    unlink(t.c_str());
    vector<string> args = {"evaluate", i % 2 ? "-f" : "--useFastModelParser", "--policyType", type, "--customModel", "m.lifeSurvey", "--evaluationTrialsPerEpoch", "20", "--evaluationMaxStepsPerTrial", "25",
                           "--useEvaluationCache", cache ? "1" : "0", "--simulationTraceOutputFile", t, "--simulationTracesToLogPerEpoch", "-1", "--scoresOutputFile", "sc.log", "m.pomdp"};
    if (i % 2 == 0) args.insert(args.begin() + 2, "1");
    Cli c = runCli(binary("zmdp"), args);
    RP->count("programs");
    if (c.exited && c.code && c.err.find("no legal moves") != string::npos) { RP->count("dead_ends"); continue; }
    string s;
    if (!c.ok() || !slurp(t, s)) { RP->fail("evaluate", drawn(m) + type + ": " + c.status() + " " + c.err.substr(0, 300)); return; }
    std::istringstream in(s);
    string l;
    Ref st; int trials = 0, steps = 0; string hist;
    while (getline(in, l)) {
      if (l.compare(0, 9, ">>> begin") == 0) { st = Ref(); st.at = {m.sx, m.sy, 1}; trials++; steps = 0; hist = ""; continue; }
      if (l.compare(0, 4, "sim:")) continue;
      size_t p = l.find(']'), p2 = l.find(']', p + 1);
      int a = atoi(l.c_str() + p + 1), o = atoi(l.c_str() + p2 + 1);
      int want = type[2] == 'b' ? 4 : preferred(m, st, plan);
      RP->count("logged_actions");
      hist += fmt(" %d/%d", a, o);
      if (a != want) { RP->fail("logged-action", drawn(m) + type + ": logged" + hist + fmt(", the policy is to choose %d", want)); return; }
      if (type[2] != 'b') observe(st, m, a, o);
      steps++;
    }
    if (trials != 20) { RP->fail("trials", drawn(m) + fmt("%s: %d trials logged", type, trials)); return; }
  }
}
void mc_enumerate(Run &R) {
  RP = &R;
  // small maps: every layout
  vector<vector<int>> shapes = {{1}, {3}, {2, 2}, {3, 2}, {2, 3}, {2, 1, 2}, {2, 2, 2}, {3, 3}, {5}};
  if (R.thorough) for (auto s : vector<vector<int>>{{3, 2, 3}, {4, 4}, {3, 3, 3}}) shapes.push_back(s);
  int serial = 0;
  for (auto &sh : shapes) {
    int n = 0;
    for (int w : sh) n += w;
    const char *al = n <= 6 ? " abc" : " ab";
    int K = strlen(al);
    long tot = 1;
    for (int i = 0; i < n; i++) tot *= K;
    long st = std::max(1L, tot / (R.thorough ? 8000 : 700));
    if (st % 2 == 0) st++;
    if (st % 3 == 0) st += 2;
    for (long code = 0; code < tot; code += st) {
      Map m;
      m.h = sh.size();
      long x = code; std::set<char> used;
      for (int w : sh) { string r; for (int k = 0; k < w; k++, x /= K) { r += al[x % K]; used.insert(al[x % K]); } m.rows.push_back(r); }
      used.erase(' ');
      if (used.empty() || !used.count('a') || (used.count('c') && !used.count('b'))) continue;
      int me = ++serial;
      R.run([&] { return fmt("map %d", me); }, [&] {
        int k = 0;
        for (int y = 0; y < m.h; y++) for (int c = 0; c < (int)m.rows[y].size(); c++) if (m.rows[y][c] != ' ') {
          Map q = m;
          q.sx = (y + 1) / 2 + c; q.sy = y;
          params(q, me * 5 + k++ * 3);
          q.layout = 0;
          if (!onMap(q, (me + k) % 3 == 0, 4000)) return;
        }
        if (me % 300 == 0) R.sample(m.text());
      });
    }
  }
  // wide maps: columns of up to three regions, every way to divide them, obstacles in turn
  for (int h = 1; h <= 4; h++) for (int w = 3; w <= (h == 1 ? 14 : R.thorough ? 9 : 8); w++)
    for (int c1 = 1; c1 <= w; c1++) for (int c2 = c1; c2 <= w; c2++) for (int holes = 0; holes < (h > 1 ? 6 : 1); holes++) {
      if (c1 == w && c2 != w) continue;
      Map m;
      m.h = h;
      for (int y = 0; y < h; y++) { string r; for (int k = 0; k < w; k++) { int slant = holes > 3 ? (y * (holes - 3)) % 3 : 0; r += k + slant < c1 ? 'a' : k + slant < c2 ? 'b' : 'c'; } m.rows.push_back(r); }
      if (holes == 1) m.rows[h - 1][w / 2] = ' ';
      if (holes == 2) m.rows[0][w / 3] = ' ';
      if (holes == 3) { m.rows[h / 2][w / 2] = ' '; if (h > 2) m.rows[0][w - 1] = ' '; }
      std::set<char> us; for (auto &r : m.rows) for (char c : r) us.insert(c);
      us.erase(' ');
      if (!us.count('a') || (us.count('c') && !us.count('b'))) continue;
      int me = ++serial;
      R.run([&] { return fmt("wide map %d", me); }, [&] {
        for (int y = 0; y < h; y++) for (int pr = 0; pr < 3; pr++) {
          Map q = m;
          q.sy = y; q.sx = (y + 1) / 2;
          if (q.cell(q.sx, q.sy) < 0) continue;
          params(q, me * 3 + y + pr * 5);
          q.layout = 0;
          if (!onMap(q, me % 6 == 0 && pr == 0, R.thorough ? 3000 : 600)) return;
        }
        if (me % 200 == 0) R.sample(m.text());
      });
      if (h * w <= 9 && h > 1 && holes < 2 && c2 % 2) R.run([&] { return fmt("program on map %d", me); }, [&] {
        Map q = m;
        q.sy = me % h; q.sx = (q.sy + 1) / 2;
        if (q.cell(q.sx, q.sy) < 0) return;
        params(q, me);
        q.layout = 0;
        if (q.atExit(q.sx, q.sy)) return;
        program(q, me);
      });
    }
}
