// evalh.cc - P14: the policy evaluator against the trials it performed.
// The trials are read back from the simulation trace (all logged) and everything the
// evaluator reports is recomputed from them on the exact model; the draws of short
// evaluations are explored exhaustively.
#include "zm.h"
#include "cli.h"
#include "policyfile.h"
#include "BoundPairExec.h"
#include "PolicyEvaluator.h"
#include "Pomdp.h"
using namespace mc;

struct Trial { vector<std::pair<int, int>> steps; bool terminated = false; };
static bool parseTrace(const string &fn, vector<Trial> &out, string &why) {
  std::ifstream in(fn);
  string l;
  out.clear();
  while (std::getline(in, l)) {
    if (l == ">>> begin") { out.push_back(Trial()); continue; }
    if (out.empty()) { why = "trace does not start with a trial: " + l; return false; }
    if (l == "terminated") { if (out.back().terminated) { why = "terminated twice"; return false; } out.back().terminated = true; continue; }
    size_t q = l.find("] "), r = l.rfind("] ");
    if (l.compare(0, 6, "sim: [") || q == string::npos || r == q || out.back().terminated) { why = "trace line: " + l; return false; }
    out.back().steps.push_back({atoi(l.c_str() + q + 2), atoi(l.c_str() + r + 2)});
  }
  return true;
}
struct Exact {
  const Model &m;
  explicit Exact(const Model &_m) : m(_m) {}
  Vec init() const { if (m.nO) return m.b0; Vec v(m.nS, 0.0); v[m.start] = 1; return v; }
  bool terminal(const Vec &b) const { for (int s = 0; s < m.nS; s++) if (b[s] > 1e-9 && !m.absorbing(s)) return false; return true; }
  double reward(const Vec &b, int a) const { double r = 0; for (int s = 0; s < m.nS; s++) r += b[s] * m.R[a][s]; return r; }
  void outcomes(const Vec &b, int a, vector<std::pair<double, Vec>> &out) const {
    Vec pred(m.nS, 0.0);
    for (int s = 0; s < m.nS; s++) for (int t = 0; t < m.nS; t++) pred[t] += b[s] * m.T[a][s][t];
    out.clear();
    if (!m.nO) { for (int t = 0; t < m.nS; t++) if (pred[t] > 0) { Vec v(m.nS, 0.0); v[t] = 1; out.push_back({pred[t], v}); } }
    else for (int o = 0; o < m.nO; o++) {
      Vec v(m.nS); double q = 0;
      for (int t = 0; t < m.nS; t++) { v[t] = pred[t] * m.O[a][t][o]; q += v[t]; }
      if (q > 0) for (double &x : v) x /= q;
      out.push_back({q, v});
    }
  }
};
static vector<int64_t> keyOf(const Vec &b) { vector<int64_t> k; for (double x : b) k.push_back(llround(x * 1e7)); return k; }

struct EvalCase { int T, S; bool cache, identical; int logs; };
// runs one evaluation and checks everything.  false on failure.
// pl: the model the policy is executed with, when it is not the one simulated
static bool evaluate(Run &R, const Model &m, Sys *y, MDP *simModel, const EvalCase &c, vector<Trial> *keep, const Model *pl = NULL) {
  string tr = fmt("sim%d.plot", R.shard), sc = fmt("sc%d.plot", R.shard);
  unlink(tr.c_str()); unlink(sc.c_str());
  ZMDPConfig cfg(*y->cfg);
  cfg.setString("useEvaluationCache", c.cache ? "1" : "0");
  cfg.setInt("evaluationTrialsPerEpoch", c.T);
  cfg.setInt("evaluationMaxStepsPerTrial", c.S);
  cfg.setInt("simulationTracesToLogPerEpoch", c.logs);
  cfg.setString("scoresOutputFile", sc);
  cfg.setString("simulationTraceOutputFile", tr);
  BoundPairExec exec;
  exec.init(y->so.problem, y->so.bounds);
  PolicyEvaluator ev(simModel, &exec, &cfg, c.identical);
  dvector rew;
  double succ = -1;
  ev.getRewardSamples(rew, succ, true);
  R.count("evaluations_run");
  string at = fmt("T=%d S=%d cache=%d identical=%d logs=%d", c.T, c.S, c.cache, c.identical, c.logs);
  auto bad = [&](const char *k, const string &w) { R.fail(k, at + ": " + w); return false; };
  vector<Trial> tv;
  string why;
  if (!parseTrace(tr, tv, why)) return bad("trace", why);
  if (keep) *keep = tv;
  int nb = std::min(c.T, 30);
  if ((int)rew.size() != nb) return bad("batches", fmt("%u rewards", rew.size()));
  if (c.logs >= 0) {
    // only the requested number of traces is logged; the rest is not visible here
    if ((int)tv.size() != std::min(c.logs, c.T)) return bad("trace-count", fmt("%zu trials in the trace", tv.size()));
  } else if ((int)tv.size() != c.T) {
    return bad("trial-count", fmt("%zu trials performed, %d requested", tv.size(), c.T));
  }
  Exact ex(m);
  struct St { vector<int64_t> k; double r; int a, o; };
  vector<vector<St>> path(tv.size());
  vector<double> plain;
  int reached = 0;
  std::map<std::pair<vector<int64_t>, int>, vector<double>> opv;
  for (size_t i = 0; i < tv.size(); i++) {
    Vec b = ex.init(), pb = pl ? Exact(*pl).init() : b;
    double tot = 0, d = 1;
    bool term = false;
    for (size_t j = 0; j < tv[i].steps.size(); j++) {
      int a = tv[i].steps[j].first, o = tv[i].steps[j].second;
      if (term) return bad("steps", "a trial goes on after a terminal state");
      vector<std::pair<double, Vec>> out;
      if (a < 0 || a >= m.nA) return bad("action", "illegal action");
      ex.outcomes(b, a, out);
      if (o < 0 || o >= (int)out.size() || out[o].first < 1e-11) return bad("impossible-outcome", fmt("trial %zu step %zu", i, j));
      // the action is the policy's
      cvector s;
      if (pl) s = toC(pb); else if (m.nO) s = toC(b); else { s.resize(1); for (int q = 0; q < m.nS; q++) if (b[q] > .5) s.push_back(0, q); }
      int adv = y->so.bounds->chooseAction(s);
      if (adv != a) {
        // ties may be broken by rounding of the tracked belief
        ValueInterval va = y->so.bounds->getQValue(s, a), vb = y->so.bounds->getQValue(s, adv);
        if (fabs(va.l - vb.l) > 1e-7 * (pl ? pl->span() : m.span())) return bad("action", fmt("trial %zu step %zu: action %d, policy advises %d", i, j, a, adv));
      }
      double r = ex.reward(b, a);
      tot += d * r;
      d *= m.gamma;
      path[i].push_back({keyOf(b), r, a, o});
      auto &pv = opv[{path[i].back().k, a}];
      pv.clear();
      for (auto &q : out) pv.push_back(q.first);
      b = out[o].second;
      if (pl) { vector<std::pair<double, Vec>> po; Exact(*pl).outcomes(pb, a, po); pb = po[o].second; }
      term = ex.terminal(b);
      R.count("transitions");
    }
    if (c.S && (int)tv[i].steps.size() > c.S) return bad("steps", fmt("trial of %zu steps", tv[i].steps.size()));
    if (term != tv[i].terminated) return bad("terminated", fmt("trial %zu: trace says %d", i, tv[i].terminated));
    if (!term && (int)tv[i].steps.size() != c.S) return bad("steps", fmt("trial %zu stopped after %zu steps", i, tv[i].steps.size()));
    reached += term;
    plain.push_back(tot);
  }
  if (c.logs >= 0) return true;
  double n = tv.size();
  if (!(fabs(succ - reached / n) <= 1e-9)) return bad("success-rate", fmt("%g, %d of %g trials ended", succ, reached, n));
  // batches: as even as possible, the longer ones first
  vector<size_t> at0(nb + 1, 0);
  for (int i = 0; i < nb; i++) at0[i + 1] = at0[i] + c.T / nb + (i < c.T % nb);
  // what each batch is worth.  With caching, the outcomes seen after a (state, action)
  // are given the weight probability/frequency once all of them have been seen; whether
  // "all" is recognised depends on probabilities adding up to exactly 1, which for
  // tracked beliefs is a matter of rounding: either answer is accepted there.
  for (int bt = 0; bt < nb; bt++) {
    size_t i0 = at0[bt], i1 = at0[bt + 1];
    typedef std::pair<vector<int64_t>, int> Key;
    std::map<Key, std::map<int, int>> cnt;
    if (c.cache) for (size_t i = i0; i < i1; i++) for (auto &s : path[i]) cnt[{s.k, s.a}][s.o]++;
    std::map<Key, int> rule;          // -1: not reweighted, -2: reweighted, >=0: either
    int amb = 0;
    for (auto &q : cnt) {
      double sum = 0;
      for (auto &o : q.second) sum += opv[q.first][o.first];
      if (fabs(sum - 1) > 1e-6 || q.second.size() == 1) rule[q.first] = -1;
      else if (m.nO == 0 && sum == 1.0) rule[q.first] = -2;
      else rule[q.first] = amb++;
    }
    if (amb > 12) { R.count("cached_up_to_rounding"); continue; }
    bool found = false;
    double w = 0;
    for (int sub = (1 << amb) - 1; sub >= 0 && !found; sub--) {
      w = 0;
      for (size_t i = i0; i < i1; i++) {
        if (!c.cache) { w += plain[i]; continue; }
        double v = 0;
        for (size_t j = path[i].size(); j-- > 0;) {
          St &s = path[i][j];
          Key k{s.k, s.a};
          int r = rule[k];
          double wt = 1;
          if (r == -2 || (r >= 0 && (sub >> r & 1))) {
            double tot = 0;
            for (auto &o : cnt[k]) tot += o.second;
            wt = opv[k][s.o] / (cnt[k][s.o] / tot);
          }
          v = s.r + wt * m.gamma * v;
        }
        w += v;
      }
      w /= i1 - i0;
      found = fabs(rew(bt) - w) <= 1e-6 * m.span();
    }
    if (!found) return bad(c.cache ? "batch-reward-cached" : "batch-reward", fmt("batch %d: %.10g, its trials give %.10g", bt, rew(bt), w));
    if (amb) R.count("batches_either_weighting");
    R.count("batches");
    R.outcome(mix(hdbl(w), reached));
  }
  // scores: one line per trial, or per batch when trials are reweighted as a batch
  std::ifstream in(sc);
  vector<double> lines;
  double x;
  while (in >> x) lines.push_back(x);
  size_t want = c.cache ? nb : tv.size();
  if (lines.size() != want) return bad("scores", fmt("%zu lines in the scores file, expected %zu", lines.size(), want));
  for (size_t i = 0; i < want; i++) {
    double w = c.cache ? rew(i) : plain[i];
    if (!(fabs(lines[i] - w) <= 1e-5 * (fabs(w) + m.span() * 1e-3))) return bad("scores", fmt("line %zu: %g, expected %g", i, lines[i], w));
  }
  return true;
}

static bool goalModel(const Model &m) { return isGoalModel(m); }

static void checkModel(Run &R, const Model &m, bool deep) {
  string fn = fmt("e%d.%s", R.shard, m.nO ? "pomdp" : "mdp");
  m.write(fn);
  Sys *y = makeSys(fn, Opts{{"searchStrategy", "hsvi"}});
  for (int i = 0; i < 3; i++) y->so.solver->planFixedTime(y->so.problem->getInitialState(), -1, 1e-3);
  MDP *other = NULL;
  Sys *y2 = makeSys(fn, Opts{{"searchStrategy", "hsvi"}});
  other = y2->so.problem;
  R.count("models");
  // exhaustive draws: every resolution of every random draw on a grid
  for (int T : {1, 2, 3}) for (int S : {1, 2, 3}) {
    if (T * S > (deep ? 6 : 4)) continue;
    for (int ident = 0; ident < 2; ident++) {
      Chooser ch;
      gRandGrid = {0x08000000, 0x40000001, 0x7d000000};
      if (T * S > 4) gRandGrid.pop_back();
      bool more = true;
      while (more) {
        vector<Trial> t0, t1;
        Chooser c0 = ch, c1 = ch;
        c0.begin(); gChooser = &c0;
        bool ok = evaluate(R, m, y, ident ? y->so.problem : other, {T, S, false, (bool)ident, -1}, &t0);
        c1.begin(); gChooser = &c1;
        ok = evaluate(R, m, y, ident ? y->so.problem : other, {T, S, true, (bool)ident, -1}, &t1) && ok;
        gChooser = NULL;
        if (!ok) return;
        bool same = t0.size() == t1.size();
        for (size_t i = 0; same && i < t0.size(); i++) same = t0[i].steps == t1[i].steps && t0[i].terminated == t1[i].terminated;
        if (!same) { R.fail("cache-changes-trials", fmt("T=%d S=%d identical=%d draws %s", T, S, ident, c0.str().c_str())); return; }
        R.count("runs");
        ch = c0;
        more = ch.next();
      }
    }
  }
  // long trials: every pattern of two draws, repeated
  for (int d0 : {0x08000000, 0x40000001, 0x7d000000}) for (int d1 : {0x08000000, 0x40000001, 0x7d000000}) for (int cache = 0; cache < (m.nO ? 1 : 2); cache++) {   // nearly equal beliefs of long trials: not cached
    Chooser c;
    c.begin();
    gRandGrid = {d0, d1};
    for (int i = 0; i < 4000; i++) c.prefix.push_back(i % 2);
    gChooser = &c;
    bool ok = evaluate(R, m, y, cache ? y->so.problem : other, {3, 80, (bool)cache, (bool)cache, -1}, NULL);
    gChooser = NULL;
    if (!ok) return;
    R.count("runs"); R.count("long_runs");
  }
  // larger evaluations on a fixed stream
  vector<int> Ss = {1, 2, 9};
  if (goalModel(m)) Ss.push_back(0);
  for (int T : {4, 29, 30, 31, 45, 59, 60, 61, 90, 100}) for (int S : Ss) for (int cache = 0; cache < 2; cache++) {
    if ((T + S + cache) % 2 && !deep) continue;
    evaluate(R, m, y, y->so.problem, {T, S, (bool)cache, true, -1}, NULL);
    {
      for (int lg : {0, 1, 2, T / 2, T, T + 5}) if (!evaluate(R, m, y, y->so.problem, {T, S, (bool)cache, true, lg}, NULL)) return;
    }
    R.count("runs");
    R.failsThisCase = 0;
  }
  R.count("states", y->so.bounds->numStatesTouched);
  delete y->so.bounds->lookup;
  delete y2->so.bounds->lookup;
}
// the policy tracks its own belief with another model than the one simulated
static void checkPair(Run &R, const Model &sim, const Model &pl) {
  string fs = fmt("es%d.pomdp", R.shard), fp = fmt("ep%d.pomdp", R.shard);
  sim.write(fs); pl.write(fp);
  Sys *y = makeSys(fp, Opts{{"searchStrategy", "hsvi"}});
  for (int i = 0; i < 3; i++) y->so.solver->planFixedTime(y->so.problem->getInitialState(), -1, 1e-3);
  Sys *y2 = makeSys(fs, Opts{{"searchStrategy", "hsvi"}});
  R.count("models"); R.count("model_pairs");
  for (int T : {1, 2, 3}) for (int S : {1, 2, 3}) {
    if (T * S > 6) continue;
    Chooser ch;
    gRandGrid = {0x08000000, 0x40000001, 0x7d000000};
    if (T * S > 3) gRandGrid = {0x08000000, 0x7d000000};
    bool more = true;
    while (more) {
      vector<Trial> t0, t1;
      Chooser c0 = ch, c1 = ch;
      c0.begin(); gChooser = &c0;
      bool ok = evaluate(R, sim, y, y2->so.problem, {T, S, false, false, -1}, &t0, &pl);
      c1.begin(); gChooser = &c1;
      ok = evaluate(R, sim, y, y2->so.problem, {T, S, true, false, -1}, &t1, &pl) && ok;
      gChooser = NULL;
      if (!ok) return;
      bool same = t0.size() == t1.size();
      for (size_t i = 0; same && i < t0.size(); i++) same = t0[i].steps == t1[i].steps && t0[i].terminated == t1[i].terminated;
      if (!same) { R.fail("cache-changes-trials", fmt("other planner model: T=%d S=%d draws %s", T, S, c0.str().c_str())); return; }
      R.count("runs");
      ch = c0;
      more = ch.next();
    }
  }
  for (int T : {4, 31, 60}) for (int S : {2, 9}) for (int cache = 0; cache < 2; cache++)
    if (!evaluate(R, sim, y, y2->so.problem, {T, S, (bool)cache, false, -1}, NULL, &pl)) return;
  delete y->so.bounds->lookup;
  delete y2->so.bounds->lookup;
}
// the same through the command line: what is printed against what the trace says was done
static void checkCli(Run &R, const Model &sim, const Model *pl) {
  string d = fmt("cli%d", R.shard);
  mkdir(d.c_str(), 0755);
  wipe(d);
  const Model &pm = pl ? *pl : sim;
  sim.write(d + "/sim.pomdp");
  if (pl) pl->write(d + "/plan.pomdp");
  CliOpt o;
  o.dir = d;
  string z = binary("zmdp");
  Cli r = runCli(z, {"solve", pl ? "plan.pomdp" : "sim.pomdp", "-s", "hsvi", "-o", "p.policy", "--terminateNumBackups", "30", "-t", "2"}, o);
  if (!r.ok()) { R.fail("cli-solve", r.status() + r.err); return; }
  vector<FilePlane> f;
  string why;
  if (!readPolicyFile(d + "/p.policy", f, why)) { R.fail("cli-policy", why); return; }
  // the same planes as plain vectors; where a plane says nothing the worst is assumed
  vector<FilePlane> g = f;
  std::ofstream al(d + "/p.alpha");
  double worst = 0;
  for (auto &p : f) for (auto &e : p.e) worst = std::min(worst, e.second);
  worst -= 100 * sim.span() + 100 * pm.span();
  al.precision(17);
  for (auto &p : g) { al << p.action << "\n"; for (int s = 0; s < pm.nS; s++) { if (!p.e.count(s)) p.e[s] = worst; al << p.e[s] << " "; } al << "\n\n"; }
  al.close();
  for (int alpha = 0; alpha < 2; alpha++) for (int cache = 0; cache < 2; cache++) for (int T : {1, 7, 30, 45, 64}) for (int S : {1, 4}) {
    vector<string> a = {"evaluate", "sim.pomdp", "--policyInputFile", alpha ? "p.alpha" : "p.policy", "-i", fmt("%d", T), "--evaluationMaxStepsPerTrial", fmt("%d", S), "--simulationTracesToLogPerEpoch", "-1",
                        "--simulationTraceOutputFile", "t.plot", "--scoresOutputFile", "s.plot", "--useEvaluationCache", cache ? "1" : "0"};
    if (alpha) { a.push_back("--policyType"); a.push_back("cassandraAlpha"); }
    if (pl) { a.push_back("--plannerModel"); a.push_back("plan.pomdp"); }
    unlink((d + "/t.plot").c_str()); unlink((d + "/s.plot").c_str());
    r = runCli(z, a, o);
    R.count("evaluations_run"); R.count("cli_evaluations");
    string at = joinArgs(a) + ": ";
    if (!r.ok()) { R.fail("cli-evaluate", at + r.status() + " " + r.err); return; }
    vector<Trial> tv;
    if (!parseTrace(d + "/t.plot", tv, why)) { R.fail("cli-trace", at + why); return; }
    if ((int)tv.size() != T) { R.fail("cli-trials", at + fmt("%zu trials", tv.size())); return; }
    Exact ex(sim), px(pm);
    const vector<FilePlane> &pol = alpha ? g : f;
    int nb = std::min(T, 30), n = 0, bt = 0;
    vector<double> br(nb, 0.0), plain;
    for (size_t i = 0; i < tv.size(); i++) {
      Vec b = ex.init(), pb = px.init();
      double tot = 0, dis = 1;
      bool term = false;
      for (auto &st : tv[i].steps) {
        if (term) { R.fail("cli-steps", at + "goes on after the end"); return; }
        // run-time selection: the action with the best value one step ahead under the policy's planes
        double bestA = -1e300, best = -1e300;
        for (int aa = 0; aa < pm.nA; aa++) {
          vector<std::pair<double, Vec>> q;
          px.outcomes(pb, aa, q);
          double v = px.reward(pb, aa);
          for (auto &e : q) if (e.first > 1e-10) v += pm.gamma * e.first * fileVal(pol, e.second);
          best = std::max(best, v);
          if (aa == st.first) bestA = v;
        }
        if (!(bestA >= best - 1e-6 * (fabs(best) + pm.span()))) { R.fail("cli-action", at + fmt("trial %zu takes action %d worth %g where the best is worth %g", i, st.first, bestA, best)); return; }
        vector<std::pair<double, Vec>> out, po;
        ex.outcomes(b, st.first, out); px.outcomes(pb, st.first, po);
        if (out[st.second].first < 1e-11) { R.fail("cli-outcome", at + "impossible outcome"); return; }
        tot += dis * ex.reward(b, st.first); dis *= sim.gamma;
        b = out[st.second].second; pb = po[st.second].second;
        term = ex.terminal(b);
        R.count("transitions");
      }
      if (term != tv[i].terminated || (!term && (int)tv[i].steps.size() != S) || (int)tv[i].steps.size() > S) { R.fail("cli-steps", at + fmt("trial %zu: %zu steps, terminated %d", i, tv[i].steps.size(), tv[i].terminated)); return; }
      plain.push_back(tot);
      int len = T / nb + (bt < T % nb);
      br[bt] += tot / len;
      if (++n == len) { n = 0; bt++; }
    }
    double mean = 0, lo = 1e300, hi = -1e300, pm0, p1, p2;
    if (cache) {                     // the reweighted rewards of the batches are in the scores file
      std::ifstream in(d + "/s.plot");
      br.clear();
      double x;
      while (in >> x) br.push_back(x);
      if ((int)br.size() != nb) { R.fail("cli-scores", at + fmt("%zu scores for %d batches", br.size(), nb)); return; }
    }
    for (double x : br) { mean += x / nb; lo = std::min(lo, x); hi = std::max(hi, x); }
    size_t q = r.out.find("REWARD_MEAN_CONF95MIN_CONF95MAX ");
    if (q == string::npos || sscanf(r.out.c_str() + q, "REWARD_MEAN_CONF95MIN_CONF95MAX %lf %lf %lf", &pm0, &p1, &p2) != 3) { R.fail("cli-result", at + "no result printed"); return; }
    double eps = 6e-4 + (cache ? 2e-5 * (fabs(lo) + fabs(hi)) : 1e-9);
    if (!(fabs(pm0 - mean) <= eps)) { R.fail("cli-mean", at + fmt("prints %.3f, its trials give %.6f", pm0, mean)); return; }
    if (!(p1 >= lo - eps && p2 <= hi + eps && p1 <= pm0 + 1e-3 && p2 >= pm0 - 1e-3)) { R.fail("cli-limits", at + fmt("prints %.3f %.3f %.3f, batches from %g to %g", pm0, p1, p2, lo, hi)); return; }
    if (!cache) {
      std::ifstream in(d + "/s.plot");
      vector<double> sc; double x;
      while (in >> x) sc.push_back(x);
      bool same = sc.size() == plain.size();
      for (size_t i = 0; same && i < sc.size(); i++) same = fabs(sc[i] - plain[i]) <= 1e-5 * (fabs(plain[i]) + sim.span() * 1e-3);
      if (!same) { R.fail("cli-scores", at + "scores file is not the trials' rewards"); return; }
    }
  }
  wipe(d);
  rmdir(d.c_str());
}
// exact distribution of the mean of n draws with replacement from 0/1 values
static double binomCdf(int n, double p, int k) {
  double s = 0;
  for (int i = 0; i <= k; i++) s += exp(lgamma(n + 1) - lgamma(i + 1) - lgamma(n - i + 1) + (i ? i * log(p) : 0) + (n - i ? (n - i) * log(1 - p) : 0));
  return s;
}

void mc_enumerate(Run &R) {
  vector<Model> ms;
  family2(ms, 0);
  family3(ms, 0);
  familyMDP(ms, 0);
  { vector<Model> w; familyWide(w, R.thorough ? 1 : 0); for (auto &m : w) R.run([&] { return m.name + "\n" + m.text(); }, [&] { checkModel(R, m, false); }); }
  for (size_t i = 0; i < ms.size(); i += R.thorough ? 5 : 13)
    R.run([&] { return ms[i].name + "\n" + ms[i].text(); }, [&] {
      checkModel(R, ms[i], R.thorough || i % 39 == 0);
      if (i % 91 == 0) R.sample(ms[i].name + ": every draw sequence of the short evaluations, cached and plain");
    });
  vector<Model> cs;
  familyCorridor(cs, 0);
  for (size_t i = 0; i < cs.size(); i += R.thorough ? 1 : 4) R.run([&] { return cs[i].name; }, [&] { checkModel(R, cs[i], false); });
  for (int T = 1; T <= 100; T++)
    R.run([&] { return fmt("number of trials performed, %d requested", T); }, [&] {
      string fn = fmt("n%d.pomdp", R.shard);
      ms[0].write(fn);
      Sys *y = makeSys(fn, Opts{{"searchStrategy", "hsvi"}});
      for (int cache = 0; cache < 2; cache++) evaluate(R, ms[0], y, y->so.problem, {T, 2, (bool)cache, true, -1}, NULL);
    });
  // other planner models: every observation of the simulated model possible in them
  {
    vector<Model> full;
    for (auto &m : ms) {
      bool ok = m.nO == 2 && m.nA == 2 && !goalModel(m);
      for (int a = 0; ok && a < m.nA; a++) for (int t = 0; t < m.nS; t++) for (int o = 0; o < m.nO; o++) if (m.O[a][t][o] < 1e-3) ok = false;
      for (int s = 0; ok && s < m.nS; s++) if (m.absorbing(s)) ok = false;
      if (ok) full.push_back(m);
    }
    R.count("planner_models", full.size());
    size_t n = full.size();
    if (n > 8)
      for (size_t i = 0; i < (R.thorough ? 400u : 60u); i++) {
        // planners from everywhere in the family, simulated models with zeros as well
        const Model &pl = full[(i * 37) % n];
        const Model *sm = &full[(i * 53 + 11) % n];
        if (i % 3 == 0) for (size_t q = i * 101 % ms.size();; q = (q + 1) % ms.size()) if (ms[q].nO == 2 && ms[q].nA == 2) { sm = &ms[q]; break; }
        if (i < (R.thorough ? 200u : 24u)) R.run([&] { return "command line, simulated " + sm->name + ", policy for " + pl.name + "\n" + sm->text() + pl.text(); }, [&] { checkCli(R, *sm, i % 4 ? &pl : NULL); });
        R.run([&] { return "simulated " + sm->name + ", policy for " + pl.name + "\n" + sm->text() + pl.text(); }, [&] { checkPair(R, *sm, pl); });
      }
  }
  // statistics: mean and confidence limits
  auto boot = [&](const Vec &v, double alpha, double &m, double &a, double &b) {
    dvector d;
    d.data.reserve(v.size() + 1);
    d.resize(v.size());
    for (size_t i = 0; i < v.size(); i++) d(i) = v[i];
    d.data.data()[v.size()] = 1e12;       // just past the end, inside the allocation
    MatrixUtils::calc_bootstrap_mean_quantile(d, alpha, m, a, b);
    R.count("statistics");
  };
  for (int n = 1; n <= 4; n++)
    R.run([&] { return fmt("bootstrap, all vectors of length %d", n); }, [&] {
      Vec al = {0, 1, -3.5, 100};
      for (int c = 0; c < (int)pow(4, n); c++) for (double alpha : {0.05, 0.5}) {
        Vec v(n); double s = 0, lo = 1e300, hi = -1e300;
        for (int i = 0, k = c; i < n; i++, k /= 4) { v[i] = al[k % 4]; s += v[i]; lo = std::min(lo, v[i]); hi = std::max(hi, v[i]); }
        double m, a, b;
        boot(v, alpha, m, a, b);
        if (!(fabs(m - s / n) <= 1e-12 * (1 + fabs(m)))) R.fail("bootstrap-mean", vstr(v) + fmt(": %g", m));
        if (!(a >= lo - 1e-12 && b <= hi + 1e-9 && a <= b)) R.fail("bootstrap-range", vstr(v) + fmt(": [%g,%g]", a, b));
        if (alpha == .05 && !(a <= m + 1e-12 && b >= m - 1e-12)) R.fail("bootstrap-range", vstr(v) + fmt(": mean %g outside [%g,%g]", m, a, b));
        R.outcome(mix(hdbl(a), hdbl(b)));
        // both ends of the draw range
        for (int draw : {0, RAND_MAX}) {
          Chooser ch; gRandGrid = {draw}; gChooser = &ch;
          boot(v, alpha, m, a, b);
          gChooser = NULL;
          double w = draw ? v[n - 1] : v[0];
          if (!(a >= lo - 1e-9 && b <= hi + 1e-9)) R.fail("bootstrap-extreme-draw", vstr(v) + fmt(" with draw %d: [%g,%g], outside the data", draw, a, b));
          else if (!(fabs(a - w) < 1e-9 && fabs(b - w) < 1e-9)) R.fail("bootstrap-extreme-draw", vstr(v) + fmt(" with draw %d: [%g,%g] expected %g", draw, a, b, w));
        }
      }
    });
  for (int n : {10, 30}) for (int ones = 0; ones <= n; ones += n / 10)
    R.run([&] { return fmt("bootstrap quantiles n=%d ones=%d", n, ones); }, [&] {
      Vec v(n, 0.0);
      for (int i = 0; i < ones; i++) v[(i * 7) % n] = 1;
      int k = 0; for (double x : v) k += x;
      double p = (double)k / n, m, a, b;
      boot(v, .05, m, a, b);
      // the reported limits are quantiles of the distribution of the resampled mean,
      // within the accuracy of 2000 resamples
      auto quant = [&](double q) { int j = 0; if (p == 0) return 0.; if (p == 1) return 1.; while (binomCdf(n, p, j) < q) j++; return (double)j / n; };
      double e = 1e-9, d = .015;
      if (!(a >= quant(std::max(1e-9, .025 - d)) - e && a <= quant(.025 + d) + e)) R.fail("bootstrap-quantile", fmt("lower limit %g for %d of %d", a, k, n));
      if (!(b >= quant(.975 - d) - e && b <= quant(std::min(1 - 1e-9, .975 + d)) + e)) R.fail("bootstrap-quantile", fmt("upper limit %g for %d of %d", b, k, n));
    });
}
