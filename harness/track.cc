// P17: racetrack and chain models implement their documented dynamics.
// The reference below is written from the documented rules: cells crossed by the
// straight line between cell centres (exact integer geometry), first finish or closed
// cell along it decides; error is either "no acceleration" or one of eight wind
// directions; crash returns to the start, cost one per move.
#include "zm.h"
#include <sys/mman.h>
#include <memory>
#include "RaceTrack.h"
#include "CustomMDP.h"
#include "AbstractBound.h"
using namespace mc;
static Run *RP;
static int gFd = -1;
static string putFile(const string &t) {
  if (gFd < 0) gFd = memfd_create("track", 0);
  if (ftruncate(gFd, 0) || pwrite(gFd, t.data(), t.size(), 0) != (ssize_t)t.size()) abort();
  return fmt("/proc/self/fd/%d", gFd);
}

struct Params { double disc, err; int useMax; double maxCost; int wind; };
struct Ref {
  int w, h;
  vector<string> map;
  Params p;
  vector<std::pair<int, int>> starts;
  char cell(int x, int y) const { return x < 0 || y < 0 || x >= w || y >= h ? '@' : map[y][x]; }
  void init() {
    h = map.size(); w = map[0].size();
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) if (map[y][x] == 's') starts.push_back({x, y});
  }
  // 0 normal, 1 finish, 2 crash for the line from (x,y) by (dx,dy)
  static const vector<std::pair<int, int>> &crossed(int dx, int dy) {
    static std::map<std::pair<int, int>, vector<std::pair<int, int>>> memo;
    auto it = memo.find({dx, dy});
    if (it != memo.end()) return it->second;
    // cells whose interior the open segment meets, by entry time; exact: all times are
    // multiples of 1/(2|dx||dy|) (or of 1/(2|dx|), 1/(2|dy|))
    vector<std::pair<double, std::pair<int, int>>> v;
    long L = 2l * std::max(1, abs(dx)) * std::max(1, abs(dy));
    for (int cx = std::min(0, dx); cx <= std::max(0, dx); cx++) for (int cy = std::min(0, dy); cy <= std::max(0, dy); cy++) {
      // times (times L) at which the point is inside the cell: (lo, hi)
      long lo = 0, hi = L;
      bool in = true;
      for (int k = 0; k < 2; k++) {
        long d = k ? dy : dx, c = k ? cy : cx;
        if (d == 0) { if (c != 0) in = false; continue; }
        long a = (2 * c - 1) * L / (2 * d), b = (2 * c + 1) * L / (2 * d);
        if (a > b) std::swap(a, b);
        lo = std::max(lo, a); hi = std::min(hi, b);
      }
      if (dx == 0 && dy == 0) { if (cx == 0 && cy == 0) v.push_back({0, {0, 0}}); continue; }
      if (in && lo < hi) v.push_back({(double)lo, {cx, cy}});
    }
    std::sort(v.begin(), v.end());
    vector<std::pair<int, int>> r;
    for (auto &e : v) r.push_back(e.second);
    return memo[{dx, dy}] = r;
  }
  int line(int x, int y, int dx, int dy) const {
    for (auto &c : crossed(dx, dy)) {
      char k = cell(x + c.first, y + c.second);
      if (k == 'f') return 1;
      if (k == '@') return 2;
    }
    return 0;
  }
};
typedef vector<int> St;       // {} start position not yet drawn, {1} finished, {x,y,vx,vy}
static string sstr(const St &s) { return s.empty() ? "(start)" : s.size() == 1 ? "(finished)" : fmt("(%d,%d,%d,%d)", s[0], s[1], s[2], s[3]); }
static bool fromC(const state_vector &s, St &r) {
  if (s.size() != 4) return false;
  double v[4] = {0, 0, 0, 0};
  for (auto &e : s.data) { if (e.index < 0 || e.index > 3) return false; v[e.index] = e.value; }
  if (v[0] == -1 && !v[1] && !v[2] && !v[3]) { r = {}; return true; }
  if (v[0] == -2 && !v[1] && !v[2] && !v[3]) { r = {1}; return true; }
  r = {(int)v[0], (int)v[1], (int)v[2], (int)v[3]};
  for (int i = 0; i < 4; i++) if (v[i] != r[i]) return false;
  return true;
}
typedef std::map<St, double> Dist;
static Dist refNext(const Ref &f, const St &s, int a) {
  Dist d;
  if (s.empty()) { for (auto &p : f.starts) d[{p.first, p.second, 0, 0}] += 1.0 / f.starts.size(); return d; }
  if (s.size() == 1) { d[s] = 1; return d; }
  auto go = [&](int ax, int ay, double pr) {
    if (pr == 0) return;
    int vx = s[2] + ax, vy = s[3] + ay;
    int k = f.line(s[0], s[1], vx, vy);
    if (k == 1) d[St{1}] += pr;
    else if (k == 2) d[St{}] += pr;
    else d[{s[0] + vx, s[1] + vy, vx, vy}] += pr;
  };
  int ax = a / 3 - 1, ay = a % 3 - 1;
  go(ax, ay, 1 - f.p.err);
  if (f.p.wind) { for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) if (x || y) go(ax + x, ay + y, f.p.err / 8); }
  else go(0, 0, f.p.err);
  return d;
}
static string spec(const Ref &f, int layout) {
  vector<string> k = {fmt("discount %g\n", f.p.disc), fmt("errorProbability %g\n", f.p.err), fmt("useMaxCost %d\n", f.p.useMax), fmt("maxCost %g\n", f.p.maxCost), fmt("useErrorIsWind %d\n", f.p.wind)};
  string s;
  if (layout & 1) std::reverse(k.begin(), k.end());
  if (layout & 2) s += "# a comment\n";
  for (auto &x : k) s += x;
  if (layout & 4) s += "# another one\n";
  s += layout & 8 ? "-\n" : "---\n";
  if (layout & 2) s += "# the map\n";
  for (auto &l : f.map) s += l + (layout & 16 ? "\r\n" : "\n");
  if (layout & 32) { while (s.back() == '\n' || s.back() == '\r') s.pop_back(); }
  return s;
}
static void checkTrack(const Ref &f, int layout, long maxStates, bool values) {
  Run &R = *RP;
  string text = spec(f, layout);
  R.describe(text);
  RaceTrack m(putFile(text));
  R.count("tracks");
  if (m.getNumActions() != 9 || m.numStateDimensions != 4) R.fail("shape", "not 9 actions in 4 dimensions");
  if (fabs(m.getDiscount() - f.p.disc) > 1e-12) R.fail("discount", fmt("discount %g", m.getDiscount()));
  std::map<St, int> idx;
  vector<St> q;
  vector<state_vector> qs;
  auto see = [&](const St &s, const state_vector &c) { if (idx.count(s)) return; idx[s] = q.size(); q.push_back(s); qs.push_back(c); };
  St s0;
  state_vector c0 = m.getInitialState();
  if (!fromC(c0, s0) || !s0.empty()) { R.fail("initial", "initial state is not the start"); return; }
  see(s0, c0);
  outcome_prob_vector opv;
  struct Row { vector<std::pair<int, double>> nx[9]; double r[9]; };
  vector<Row> rows;
  for (size_t i = 0; i < q.size() && (long)i < maxStates; i++) {
    St s = q[i];
    state_vector cs = qs[i];
    R.count("states");
    if (m.getIsTerminalState(cs) != (s.size() == 1)) R.fail("terminal", sstr(s) + " terminal: " + (m.getIsTerminalState(cs) ? "yes" : "no"));
    rows.push_back(Row());
    for (int a = 0; a < 9; a++) {
      R.count("transitions");
      double rw = s.size() == 1 || (s.empty() && f.p.disc == 1) ? 0 : -1;
      if (m.getReward(cs, a) != rw) R.fail("reward", sstr(s) + fmt(" action %d: reward %g, by the rules %g", a, m.getReward(cs, a), rw));
      rows.back().r[a] = rw;
      Dist want = refNext(f, s, a), got;
      m.getOutcomeProbVector(opv, cs, a);
      double sum = 0;
      bool legal = true;
      for (int o = 0; o < (int)opv.size(); o++) {
        double p = opv(o);
        sum += p;
        if (!(p >= 0 && p <= 1 + 1e-12)) { R.fail("distribution", sstr(s) + fmt(" action %d outcome %d has probability %g", a, o, p)); legal = false; }
        if (p <= 0) continue;
        state_vector nx;
        m.getNextState(nx, cs, a, o);
        St t;
        if (!fromC(nx, t)) { R.fail("illegal-state", sstr(s) + fmt(" action %d outcome %d leads to a vector that is no state", a, o)); legal = false; continue; }
        got[t] += p;
        if (t.size() == 4 && f.cell(t[0], t[1]) == '@') R.fail("illegal-state", sstr(s) + fmt(" action %d leads into the closed cell ", a) + sstr(t));
        see(t, nx);
      }
      if (!(fabs(sum - 1) < 1e-9)) R.fail("distribution", sstr(s) + fmt(" action %d: probabilities sum to %.12g", a, sum));
      for (auto &e : want) if (!(fabs(got[e.first] - e.second) < 1e-9)) { R.fail("dynamics", sstr(s) + fmt(" action %d (acceleration %d,%d) leads to ", a, a / 3 - 1, a % 3 - 1) + sstr(e.first) + fmt(" with probability %.9g, by the rules %.9g", got[e.first], e.second)); legal = false; break; }
      for (auto &e : got) if (!want.count(e.first) && e.second > 1e-12) { R.fail("dynamics", sstr(s) + fmt(" action %d leads to ", a) + sstr(e.first) + fmt(" with probability %.9g, by the rules never", e.second)); legal = false; break; }
      if (!legal) return;
      uint64_t h = a;
      for (auto &e : want) { h = mix(h, hdbl(e.second)); h = mix(h, idx[e.first]); rows.back().nx[a].push_back({idx[e.first], e.second}); }
      R.outcome(h);
    }
  }
  if (q.size() > rows.size() || !values) return;
  // the supplied bounds against the exact optimal values
  int n = q.size();
  Vec V(n, 0.0);
  bool conv = false;
  for (int it = 0; it < 20000 && !conv; it++) {
    double d = 0;
    for (int i = 0; i < n; i++) {
      double b = -1e300;
      for (int a = 0; a < 9; a++) { double x = rows[i].r[a]; for (auto &e : rows[i].nx[a]) x += f.p.disc * e.second * V[e.first]; b = std::max(b, x); }
      d = std::max(d, fabs(b - V[i])); V[i] = b;
    }
    conv = d < 1e-12;
    if (*std::min_element(V.begin(), V.end()) < -5000) break;       // the goal cannot be reached
  }
  if (!conv) { R.count("unreachable_goal"); return; }
  if (f.p.useMax && *std::min_element(V.begin(), V.end()) < -f.p.maxCost) { R.count("max_cost_too_small"); return; }
  std::unique_ptr<AbstractBound> lb(m.newLowerBound(NULL)), ub(m.newUpperBound(NULL));
  lb->initialize(1e-3); ub->initialize(1e-3);
  for (int i = 0; i < n; i++) {
    double l = lb->getValue(qs[i], NULL), u = ub->getValue(qs[i], NULL);
    R.count("bounds");
    if (!(l <= V[i] + 1e-6)) R.fail("lower-bound", sstr(q[i]) + fmt(" lower bound %g, optimal value %g", l, V[i]));
    if (!(u >= V[i] - 1e-6)) R.fail("upper-bound", sstr(q[i]) + fmt(" upper bound %g, optimal value %g", u, V[i]));
    if (q[i].size() == 1 && (l != 0 || u != 0)) R.fail("terminal-value", fmt("finished: bounds %g %g", l, u));
  }
  R.sample(text);
}
static vector<string> walled(const vector<string> &v) {
  vector<string> r = {string(v[0].size() + 2, '@')};
  for (auto &l : v) r.push_back("@" + l + "@");
  r.push_back(string(v[0].size() + 2, '@'));
  return r;
}

void mc_enumerate(Run &R) {
  RP = &R;
  static const Params ps[] = {{1, .1, 1, 1000, 0}, {1, .25, 1, 1000, 1}, {.95, .1, 0, -1, 0}, {.9, .5, 0, -1, 1}, {.95, 0, 1, 50, 0}, {1, 1, 1, 3000, 0}, {.99, 1, 0, 1000, 1}, {.5, 0, 0, 7, 1}, {.95, .3, 1, 20, 1}};
  static const char cells[] = " @sf";
  // ---- every small track
  struct G { int w, h; bool wall; };
  vector<G> gs = {{1, 1, true}, {2, 1, true}, {1, 3, true}, {2, 2, true}, {3, 2, true}, {2, 3, true}, {5, 1, true}, {1, 5, true}, {1, 2, false}, {3, 1, false}, {2, 2, false}, {3, 2, false}, {2, 3, false}, {1, 5, false}, {6, 1, false}};
  if (R.thorough) { gs.push_back({3, 3, true}); gs.push_back({4, 2, true}); gs.push_back({2, 4, false}); gs.push_back({7, 1, true}); gs.push_back({1, 7, true}); gs.push_back({3, 3, false}); }
  for (auto &g : gs) {
    long tot = (long)pow(4, g.w * g.h);
    for (long c0 = 0; c0 < tot; c0 += 64)
      R.run([&] { return fmt("tracks %dx%d%s from %ld", g.w, g.h, g.wall ? " walled" : "", c0); }, [&] {
        for (long c = c0; c < std::min(tot, c0 + 64); c++) {
          Ref f;
          vector<string> m(g.h, string(g.w, ' '));
          bool s = false;
          for (int i = 0, k = c; i < g.w * g.h; i++, k /= 4) { m[i / g.w][i % g.w] = cells[k % 4]; s |= k % 4 == 2; }
          // a track whose last line would be taken for something else is not in the format
          if (!s) continue;
          f.map = g.wall ? walled(m) : m;
          // every parameter set on the small tracks, in turn on the larger ones
          int np = g.w * g.h <= 4 ? 9 : 1;
          f.starts.clear();
          f.init();
          for (int k = 0; k < np; k++) { f.p = ps[np > 1 ? k : (c / 3) % 9]; checkTrack(f, (c + k) % 64, 4000, true); }
        }
      });
  }
  // ---- lines: one obstacle or finish cell anywhere, every displacement
  int N = R.thorough ? 9 : 6;
  for (int dx = -N; dx <= N; dx++)
    R.run([&] { return fmt("lines dx=%d", dx); }, [&] {
      int W = 2 * N + 3, C = N + 1;
      for (int kind = 0; kind < 2; kind++)
        for (int ox = -N; ox <= N; ox++) for (int oy = -N; oy <= N; oy++) {
          Ref f;
          f.p = ps[0];
          f.p.err = 0;
          f.map = walled(vector<string>(W - 2, string(W - 2, ' ')));
          f.map[1][1] = 's';
          f.map[C + oy][C + ox] = kind ? '@' : 'f';
          // and a cell of the other kind one step further or nearer
          int px = C + ox + (ox > 0 ? 1 : -1) * (1 - 2 * ((ox + oy) & 1)), py = C + oy;
          if (px > 0 && py > 0 && px < W - 1 && f.map[py][px] == ' ') f.map[py][px] = kind ? 'f' : '@';
          f.init();
          if (f.starts.empty()) continue;
          if (f.map[C][C] == '@') continue;
          string text = spec(f, 0);
          RaceTrack m(putFile(text));
          outcome_prob_vector opv;
          for (int dy = -N; dy <= N; dy++) {
            // position (C,C), velocity such that coasting moves by (dx,dy)
            state_vector s;
            s.resize(4);
            s.push_back(0, C); s.push_back(1, C);
            if (dx) s.push_back(2, dx);
            if (dy) s.push_back(3, dy);
            m.getOutcomeProbVector(opv, s, 4);
            R.count("lines");
            int got = -1;
            for (int o = 0; o < (int)opv.size(); o++) if (opv(o) > .5) {
              state_vector nx;
              m.getNextState(nx, s, 4, o);
              St t;
              fromC(nx, t);
              got = t.empty() ? 2 : t.size() == 1 ? 1 : 0;
              if (got == 0 && (t != St{C + dx, C + dy, dx, dy})) R.fail("dynamics", fmt("coasting by (%d,%d) from (%d,%d) ends in ", dx, dy, C, C) + sstr(t));
            }
            int want = f.line(C, C, dx, dy);
            if (got != want) { R.describe(text); R.fail("line", fmt("moving by (%d,%d) from (%d,%d): %s, by the rules %s", dx, dy, C, C, got == 1 ? "finish" : got == 2 ? "crash" : got == 0 ? "no event" : "nothing", want == 1 ? "finish" : want == 2 ? "crash" : "no event")); }
            R.outcome(mix(dx * 100 + dy, want));
          }
        }
    });
  // ---- the tracks that come with the program
  for (const char *n : {"toy", "small-b", "large-b", "large-b-3", "large-b-w", "large-ring", "large-ring-3", "large-ring-w"})
    R.run([&] { return string("shipped track ") + n; }, [&] {
      // the text as shipped must be what the rules say it is
      std::ifstream in(string(getenv("MC_ROOT")) + "/src/mdps/" + n + ".racetrack");
      string l, text;
      Ref f;
      bool body = false;
      std::map<string, double> kv;
      while (std::getline(in, l)) {
        text += l + "\n";
        if (l.empty() || l[0] == '#') continue;
        if (body) f.map.push_back(l);
        else if (l[0] == '-') body = true;
        else { char k[100]; double v; if (sscanf(l.c_str(), "%99s %lf", k, &v) == 2) kv[k] = v; }
      }
      for (const char *k : {"discount", "errorProbability", "useMaxCost", "useErrorIsWind"}) if (!kv.count(k)) { R.fail("shipped", string(n) + " does not set " + k); return; }
      f.p = {kv["discount"], kv["errorProbability"], (int)kv["useMaxCost"], kv["maxCost"], (int)kv["useErrorIsWind"]};
      f.init();
      R.describe(n);
      if (f.starts.empty()) { R.fail("shipped", string(n) + " has no start"); return; }
      checkTrack(f, 0, R.thorough ? 400000 : 6000, string(n) == "toy");
    });
  // ---- spec files that cannot be used
  R.run([&] { return string("unusable specs"); }, [&] {
    Ref f;
    f.p = ps[0];
    f.map = walled({"s f", "  f"});
    f.init();
    string ok = spec(f, 0);
    auto bad = [&](const string &t, const char *what) {
      R.describe(t);
      string fn = putFile(t);
      Forked k = forked([&] { dup2(2, 1); RaceTrack m(fn); return string("read"); });
      if (!(k.exited && k.code != 0 && k.err != "")) R.fail(string("bad-spec"), string(what) + ": " + k.status() + " " + k.err.substr(0, 300));
      R.count("bad_specs");
    };
    for (const char *k : {"discount", "errorProbability", "useMaxCost", "useErrorIsWind", "maxCost"}) {
      string t = ok;
      size_t p = t.find(k), e = t.find('\n', p);
      bad(t.substr(0, p) + t.substr(e + 1), "missing parameter");
      bad(t.substr(0, p) + k + t.substr(e), "parameter without value");
    }
    bad(ok.substr(0, ok.find("---") + 4), "no map");
    bad(ok.substr(0, ok.find("---")), "no map separator");
    bad(ok.substr(0, ok.size() - 3) + "\n", "last line too short");
    bad(ok + "@\n", "another line too short");
    for (size_t i = ok.find("---") + 4; i < ok.size(); i++) if (ok[i] != '\n') { bad(ok.substr(0, i) + ok.substr(i + 1), "line with a cell missing"); bad(ok.substr(0, i) + " " + ok.substr(i), "line with a cell too many"); }
    string t = ok;
    for (char &c : t) if (&c > &t[t.find("---")] && c == 's') c = ' ';
    bad(t, "no start");
    bad("", "empty");
    { Forked k = forked([&] { dup2(2, 1); RaceTrack m("/nonexistent/track"); return string("read"); }); if (!(k.exited && k.code != 0 && k.err != "")) R.fail("bad-spec", "missing file: " + k.status()); }
  });
  // ---- the chain
  for (int n = 1; n <= (R.thorough ? 60 : 25); n++)
    R.run([&] { return fmt("chain of %d", n); }, [&] {
      ZMDPConfig *c = makeConfig({{"customMDPNumStates", std::to_string(n)}});
      CustomMDP m(*c);
      R.describe(fmt("chain of %d", n));
      if (m.getNumActions() != 2 || m.getDiscount() != 1 || m.numStateDimensions != 1) R.fail("chain-shape", "two actions, undiscounted, one dimension");
      auto st = [&](int x) { state_vector s; s.resize(1); s.push_back(0, x); return s; };
      auto xof = [&](const state_vector &s) { return s.size() == 1 ? (int)s(0) : -99; };
      if (xof(m.getInitialState()) != 0) R.fail("chain-start", "does not start in cell 0");
      std::unique_ptr<AbstractBound> lb(m.newLowerBound(c)), ub(m.newUpperBound(c));
      lb->initialize(1e-3); ub->initialize(1e-3);
      for (int x = 0; x < n; x++) {
        state_vector s = st(x);
        R.count("states");
        if (m.getIsTerminalState(s) != (x == n - 1)) R.fail("chain-terminal", fmt("cell %d", x));
        double V = -(n - 1 - x) / .9;
        double l = lb->getValue(s, NULL), u = ub->getValue(s, NULL);
        if (!(l <= V + 1e-9 && u >= V - 1e-9)) R.fail("chain-bounds", fmt("cell %d: bounds [%g,%g], optimal value %g", x, l, u, V));
        for (int a = 0; a < 2; a++) {
          R.count("transitions");
          double rw = x == n - 1 ? 0 : -1;
          if (m.getReward(s, a) != rw) R.fail("chain-reward", fmt("cell %d action %d: %g", x, a, m.getReward(s, a)));
          std::map<int, double> want, got;
          int to = x == n - 1 ? x : a == 0 ? std::max(0, x - 1) : x + 1;
          want[to] += .9; want[x] += .1;
          outcome_prob_vector o;
          m.getOutcomeProbVector(o, s, a);
          for (int i = 0; i < (int)o.size(); i++) if (o(i) != 0) {
            if (o(i) < 0) R.fail("chain-dynamics", fmt("cell %d action %d: negative probability", x, a));
            state_vector nx;
            m.getNextState(nx, s, a, i);
            got[xof(nx)] += o(i);
          }
          for (auto &e : want) if (fabs(got[e.first] - e.second) > 1e-9) R.fail("chain-dynamics", fmt("cell %d action %d to %d: probability %g, documented %g", x, a, e.first, got[e.first], e.second));
          for (auto &e : got) if (!want.count(e.first)) R.fail("chain-dynamics", fmt("cell %d action %d to %d: probability %g, documented 0", x, a, e.first, e.second));
          R.outcome(mix(n * 1000 + x, a * 7 + to));
        }
      }
    });
}
