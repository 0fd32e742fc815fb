// sim.cc - P13: simulation against the model, over all action sequences and all
// resolutions of the random draws on a grid that includes both ends of the range.
#include "zm.h"
#include "MDPSim.h"
#include "BoundPairExec.h"
#include "Pomdp.h"
using namespace mc;

static vector<int> drawGrid(bool th) {
  vector<int> g = {0, 1, RAND_MAX / 4, RAND_MAX / 2, RAND_MAX / 2 + 1, (int)(RAND_MAX * .75), RAND_MAX - 1, RAND_MAX};
  if (th) { g.push_back(RAND_MAX / 10); g.push_back(RAND_MAX / 10 * 9); g.push_back(RAND_MAX / 3); }
  return g;
}
static cvector mdpState(int s) { cvector r; r.resize(1); r.push_back(0, s); return r; }

struct Ex {   // exact one-step semantics over either kind of model
  const Model &m;
  explicit Ex(const Model &_m) : m(_m) {}
  bool terminal(const Vec &b) const { for (int s = 0; s < m.nS; s++) if (b[s] > 1e-9 && !m.absorbing(s)) return false; return true; }
  double reward(const Vec &b, int a) const { double r = 0; for (int s = 0; s < m.nS; s++) r += b[s] * m.R[a][s]; return r; }
  // outcome list: probability and next belief; MDP outcomes are the possible successors
  // in increasing state order, POMDP outcomes are the observations
  void outcomes(const Vec &b, int a, vector<std::pair<double, Vec>> &out) const {
    Vec pred(m.nS, 0.0);
    for (int s = 0; s < m.nS; s++) for (int t = 0; t < m.nS; t++) pred[t] += b[s] * m.T[a][s][t];
    out.clear();
    if (!m.nO) {
      for (int t = 0; t < m.nS; t++) if (pred[t] > 0) { Vec v(m.nS, 0.0); v[t] = 1; out.push_back({pred[t], v}); }
    } else for (int o = 0; o < m.nO; o++) {
      Vec v(m.nS); double q = 0;
      for (int t = 0; t < m.nS; t++) { v[t] = pred[t] * m.O[a][t][o]; q += v[t]; }
      if (q > 0) for (double &x : v) x /= q;
      out.push_back({q, v});
    }
  }
};
static Vec real(const Model &m, const cvector &s) {
  if (m.nO) return toV(s);
  Vec v(m.nS, 0.0);
  int i = (int)s(0);
  if (i >= 0 && i < m.nS) v[i] = 1;
  return v;
}
static bool near(const Vec &a, const Vec &b, double tol = 1e-8) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!(fabs(a[i] - b[i]) <= tol)) return false;
  return true;
}

static void checkModel(Run &R, const Model &m, int depth) {
  string fn = fmt("s%d.%s", R.shard, m.nO ? "pomdp" : "mdp");
  m.write(fn);
  Opts o = {{"searchStrategy", "hsvi"}};
  Sys *y = makeSys(fn, o);
  MDP *p = y->so.problem;
  Ex ex(m);
  Vec init(m.nS, 0.0);
  if (m.nO) init = m.b0; else init[m.start] = 1;
  vector<int> grid = drawGrid(R.thorough);
  // reachable states for the frequency checks
  vector<Vec> reach;
  // ---- all action sequences x all draws
  for (int as = 0; as < (int)pow(m.nA, depth); as++) {
    vector<int> acts;
    for (int i = 0, c = as; i < depth; i++) { acts.push_back(c % m.nA); c /= m.nA; }
    Chooser ch;
    gRandGrid = grid;
    gChooser = &ch;
    do {
      ch.begin();
      MDPSim sim(p);
      // run twice with a restart in between: the second run must not see the first
      for (int round = 0; round < 2; round++) {
        std::ostringstream trace;
        sim.simOutFile = &trace;
        if (round) { for (int i = 0; i < depth && !sim.terminated; i++) { gChooser = NULL; sim.performAction((as + i) % m.nA); gChooser = &ch; } trace.str(""); }
        sim.restart();
        if (!near(real(m, sim.state), init) || sim.elapsedTime != 0 || sim.rewardSoFar != 0 || sim.terminated || sim.lastOutcomeIndex != -1)
          R.fail("restart", fmt("after restart: state %s time %d reward %g terminated %d last %d", vstr(real(m, sim.state)).c_str(), sim.elapsedTime, sim.rewardSoFar, sim.terminated, sim.lastOutcomeIndex));
        if (round == 0) ;
        double total = 0, disc = 1;
        Vec cur = init;
        vector<std::pair<int, int>> steps;
        bool term = false;
        string path;
        for (int i = 0; i < (round ? 1 : depth); i++) {
          int a = acts[i];
          total += disc * ex.reward(cur, a);
          disc *= m.gamma;
          vector<std::pair<double, Vec>> out;
          ex.outcomes(cur, a, out);
          sim.performAction(a);
          R.count("transitions");
          int z = sim.lastOutcomeIndex;
          path += fmt("a%d->o%d ", a, z);
          steps.push_back({a, z});
          if (z < 0 || z >= (int)out.size() || out[z].first < 1e-11) { R.fail("impossible-outcome", fmt("draws %s: %s: outcome %d from %s has probability %g", ch.str().c_str(), path.c_str(), z, vstr(cur).c_str(), z >= 0 && z < (int)out.size() ? out[z].first : -1.0)); goto done; }
          if (!near(real(m, sim.state), out[z].second)) { R.fail("next-state", path + ": " + vstr(real(m, sim.state)) + " expected " + vstr(out[z].second)); goto done; }
          if (sim.elapsedTime != i + 1) R.fail("time", fmt("%d after %d steps", sim.elapsedTime, i + 1));
          if (!(fabs(sim.rewardSoFar - total) <= 1e-8 * m.span())) { R.fail("reward", fmt("%s: %.10g expected %.10g", path.c_str(), sim.rewardSoFar, total)); goto done; }
          cur = out[z].second;
          term = ex.terminal(cur);
          if (sim.terminated != term) { R.fail("terminated", fmt("%s: flag %d in state %s", path.c_str(), sim.terminated, vstr(cur).c_str())); goto done; }
          if ((int)reach.size() < 40) { bool have = false; for (auto &r : reach) have |= near(r, cur); if (!have) reach.push_back(cur); }
          R.outcome(mix(mix(hdbl(total), z), term));
          if (term) break;
        }
        if (round == 0) {
          // the trace says the same
          std::istringstream in(trace.str());
          string l;
          std::getline(in, l);
          bool ok = l == ">>> begin";
          for (auto &s : steps) {
            ok = ok && (bool)std::getline(in, l) && l.compare(0, 6, "sim: [") == 0;
            size_t q = l.find("] "), r = l.rfind("] ");
            ok = ok && q != string::npos && r != string::npos && atoi(l.c_str() + q + 2) == s.first && atoi(l.c_str() + r + 2) == s.second;
          }
          if (term) ok = ok && (bool)std::getline(in, l) && l == "terminated";
          ok = ok && !std::getline(in, l);
          if (!ok) { R.fail("trace", trace.str() + " for " + path); goto done; }
        }
      }
      R.count("runs");
    } while (ch.next());
  done:
    gChooser = NULL;
    if (R.failsThisCase > 3) return;
  }
  reach.push_back(init);
  R.count("states", reach.size());
  // ---- long runs: every pattern of two actions x every pattern of two draws, repeated
  for (int as = 0; as < m.nA * m.nA; as++) for (size_t g0 = 0; g0 < grid.size(); g0++) for (size_t g1 = 0; g1 < grid.size(); g1++) {
    MDPSim sim(p);
    double total = 0, disc = 1;
    Vec cur = init;
    bool bad = false;
    int i = 0;
    for (; i < 150 && !bad; i++) {
      int a = i % 2 ? as / m.nA : as % m.nA;
      vector<std::pair<double, Vec>> out;
      ex.outcomes(cur, a, out);
      total += disc * ex.reward(cur, a);
      disc *= m.gamma;
      Chooser c;
      gRandGrid = {grid[i % 2 ? g1 : g0]};
      gChooser = &c;
      sim.performAction(a);
      gChooser = NULL;
      R.count("transitions");
      int z = sim.lastOutcomeIndex;
      string at = fmt("step %d of actions %d,%d draws %d,%d", i, as % m.nA, as / m.nA, grid[g0], grid[g1]);
      if (z < 0 || z >= (int)out.size() || out[z].first < 1e-11) { R.fail("impossible-outcome", at); bad = true; break; }
      cur = out[z].second;
      { double nt = 0; for (int s = 0; s < m.nS; s++) if (!m.absorbing(s)) nt += cur[s]; if (nt > 0 && nt < 1e-7) break; }   // as good as over: not judged
      if (!near(real(m, sim.state), cur, 1e-6)) { R.fail("next-state", at + ": " + vstr(real(m, sim.state)) + " expected " + vstr(cur)); bad = true; break; }
      cur = real(m, sim.state);            // no accumulation of rounding
      if (sim.elapsedTime != i + 1) { R.fail("time", at); bad = true; }
      if (!(fabs(sim.rewardSoFar - total) <= 1e-7 * m.span())) { R.fail("reward", at + fmt(": %.10g expected %.10g", sim.rewardSoFar, total)); bad = true; }
      if (sim.terminated != ex.terminal(cur)) { R.fail("terminated", at + ": " + vstr(cur)); bad = true; }
      if (sim.terminated) break;
    }
    R.count("runs"); R.count("long_runs");
    if (R.failsThisCase > 3) return;
  }
  // ---- outcome frequencies over an even grid of draws equal the model's probabilities
  const int N = 256;
  for (auto &b : reach) for (int a = 0; a < m.nA; a++) {
    vector<std::pair<double, Vec>> out;
    ex.outcomes(b, a, out);
    cvector s0;
    if (m.nO) s0 = toC(b); else for (int s = 0; s < m.nS; s++) if (b[s] > .5) s0 = mdpState(s);
    for (int how = 0; how < 3; how++) {
      vector<int> cnt(out.size(), 0);
      MDPNode *cn = NULL;
      BoundPairExec exec;
      if (how == 1) { cn = y->so.bounds->getNode(s0); if (cn->isFringe()) y->so.bounds->expand(*cn); }
      if (how == 2) exec.init(p, y->so.bounds);
      bool bad = false;
      for (int i = 0; i <= N && !bad; i++) {
        Chooser ch;
        gRandGrid = {(int)((double)RAND_MAX * i / N)};
        gChooser = &ch;
        int z;
        if (how == 0) { MDPSim sim(p); sim.state = s0; sim.performAction(a); z = sim.lastOutcomeIndex; }
        else if (how == 1) z = BoundPairCore::getSimulatedOutcome(*cn, a);
        else { exec.currentState = s0; z = exec.getRandomOutcome(a); }
        gChooser = NULL;
        if (z < 0 || z >= (int)out.size() || out[z].first < 1e-11 || (how == 1 && !cn->Q[a].outcomes[z])) { R.fail("impossible-outcome", fmt("way %d, draw %d/%d: outcome %d from %s action %d", how, i, N, z, vstr(b).c_str(), a)); bad = true; }
        else cnt[z]++;
      }
      R.count("frequency_checks");
      for (size_t z = 0; z < out.size() && !bad; z++)
        if (fabs(cnt[z] - out[z].first * N) > 2.001) R.fail("outcome-frequency", fmt("way %d: %s action %d outcome %zu: %d of %d draws, probability %g", how, vstr(b).c_str(), a, z, cnt[z], N + 1, out[z].first));
    }
    // executing: same transitions, terminal test, initial state
    BoundPairExec exec;
    exec.init(p, y->so.bounds);
    exec.setToInitialState();
    if (!near(real(m, exec.currentState), init)) R.fail("exec-initial", vstr(real(m, exec.currentState)));
    for (size_t z = 0; z < out.size(); z++) if (out[z].first > 1e-7) {
      exec.currentState = s0;
      exec.advanceToNextState(a, z);
      if (!near(real(m, exec.currentState), out[z].second)) R.fail("exec-advance", vstr(real(m, exec.currentState)) + " expected " + vstr(out[z].second));
      if (exec.getStateIsTerminal() != ex.terminal(out[z].second)) R.fail("exec-terminal", vstr(out[z].second));
    }
  }
  // ---- acting after the end is refused
  for (auto &b : reach) if (ex.terminal(b) && R.idx % 50 == 0) {
    Forked f = forked([&]() -> string { MDPSim sim(p); sim.terminated = true; sim.performAction(0); return "performed"; });
    if (f.data == "performed" || !f.exited || f.code == 0) R.fail("acts-after-end", f.status());
    break;
  }
  delete y->so.bounds->lookup;
}

void mc_enumerate(Run &R) {
  // the primitive: every distribution over a small alphabet with zeros anywhere, both
  // representations, every draw of the grid
  vector<Vec> ds;
  for (int n = 1; n <= 5; n++) {
    vector<Vec> ws = {{0}, {1}, {3}, {1e-6}};
    int tot = (int)pow(4, n);
    for (int c = 0; c < tot; c++) {
      Vec w(n); double s = 0;
      for (int i = 0, k = c; i < n; i++, k /= 4) { w[i] = ws[k % 4][0]; s += w[i]; }
      if (s < 1) continue;
      for (double &x : w) x /= s;
      ds.push_back(w);
    }
  }
  for (int n : {3, 6, 7, 10, 13, 49}) { Vec w(n + 2, 0.0); for (int i = 0; i < n; i++) w[i + 1] = 1.0 / n; ds.push_back(w); }
  for (size_t k = 0; k < ds.size(); k += 16)
    R.run([&] { return fmt("distributions %zu..", k) + vstr(ds[k]); }, [&] {
      for (size_t i = k; i < std::min(ds.size(), k + 16); i++) {
        dvector d; cvector c0, c1;
        d.resize(ds[i].size()); c0.resize(ds[i].size()); c1.resize(ds[i].size());
        for (size_t j = 0; j < ds[i].size(); j++) { d(j) = ds[i][j]; if (ds[i][j]) c0.push_back(j, ds[i][j]); c1.push_back(j, ds[i][j]); }
        vector<int> g = drawGrid(true);
        for (int q = 0; q <= 128; q++) g.push_back((int)((double)RAND_MAX * q / 128));
        vector<int> cnt(ds[i].size() * 3, 0);
        for (size_t gi = 0; gi < g.size(); gi++) for (int how = 0; how < 3; how++) {
          Chooser ch;
          gRandGrid = {g[gi]};
          gChooser = &ch;
          int z = how == 0 ? MatrixUtils::chooseFromDistribution(d) : how == 1 ? MatrixUtils::chooseFromDistribution(c0) : MatrixUtils::chooseFromDistribution(c1);
          gChooser = NULL;
          R.count("draws");
          if (z < 0 || z >= (int)ds[i].size() || ds[i][z] == 0) { R.fail("impossible-outcome", fmt("draw %d from %s (representation %d) chose %d", g[gi], vstr(ds[i]).c_str(), how, z)); }
          else if (gi >= g.size() - 129) cnt[how * ds[i].size() + z]++;
          R.outcome(mix(z, hdbl(ds[i][z < 0 ? 0 : z])));
        }
        for (size_t z = 0; z < cnt.size(); z++) if (fabs(cnt[z] - 128 * ds[i][z % ds[i].size()]) > 2.001) R.fail("outcome-frequency", fmt("%s: index %zu chosen %d of 129", vstr(ds[i]).c_str(), z % ds[i].size(), cnt[z]));
      }
    });
  vector<Model> ms;
  family2(ms, R.thorough ? 1 : 0);
  family3(ms, R.thorough ? 1 : 0);
  familyMDP(ms, R.thorough ? 1 : 0);
  { vector<Model> w; familyWide(w, R.thorough ? 1 : 0); for (auto &m : w) R.run([&] { return m.name + "\n" + m.text(); }, [&] { checkModel(R, m, R.thorough ? 3 : 2); }); }
  size_t step = R.thorough ? 3 : 7;
  for (size_t i = 0; i < ms.size(); i += step) {
    // impossible outcomes first and last in the list
    R.run([&] { return ms[i].name + "\n" + ms[i].text(); }, [&] { checkModel(R, ms[i], 3); if (i % 70 == 0) R.sample(ms[i].name + ": all action sequences x draws of length 3"); });
  }
  vector<Model> cs;
  familyCorridor(cs, R.thorough ? 1 : 0);
  for (size_t i = 0; i < cs.size(); i += R.thorough ? 1 : 2)
    R.run([&] { return cs[i].name; }, [&] { checkModel(R, cs[i], R.thorough ? 3 : 2); });
}
