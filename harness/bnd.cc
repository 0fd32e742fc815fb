// bnd.cc - bounds under every update order / strategy / representation.
//   MC_PROP selects which invariant is evaluated (P01 validity, P03 monotonicity,
//   P05 policy value, P02 termination)
#include "zm.h"
#include "MaxPlanesLowerBound.h"
#include "SawtoothUpperBound.h"
using namespace mc;

static string PROP;
static bool doValid, doMono, doPolicy, doDone, doOpt;

struct Query { Vec b; cvector c; };
// planner-side form of a belief, or (MDP) of the single state it stands for
static cvector toS(const Model &m, const Vec &b) {
  if (m.nO) return toC(b);
  cvector r;
  r.resize(1);
  for (int s = 0; s < m.nS; s++) if (b[s] > .5) r.push_back(0, s);
  return r;
}
static Vec fromS(const Model &m, const cvector &c) {
  if (m.nO) return toV(c);
  Vec b(m.nS, 0.0);
  b[(int)c(0)] = 1;
  return b;
}

struct Watch {
  Run &R;
  const Model &m;
  Oracle &orc;
  const vector<Query> &qs;
  Sys *y;
  string cfgName;
  double tol;
  bool haveL, haveU, lowerMonoEverywhere, upperMono = true, storedUpperMono = true, policyBound = true;
  vector<double> prevL, prevU;
  std::map<string, std::pair<double, double>> prevNode, prevStored;
  size_t nQ;
  string key(const char *what) { return keyPrefix + what; }
  string keyPrefix;
  string cfgSel = "-";

  Watch(Run &r, const Model &mm, Oracle &o, const vector<Query> &q, Sys *s, const string &cn, bool extra, size_t nReach)
      : R(r), m(mm), orc(o), qs(q), y(s), cfgName(cn) {
    tol = 2e-6 * m.span() + 1e-7;
    haveL = y->so.bounds->maintainLowerBound;
    haveU = y->so.bounds->maintainUpperBound;
    // extra pruning is documented to drop planes that are not best at any visited
    // state, so the bound at states never visited may legitimately recede
    // ... and with masking there may be no plane left that covers an unreachable belief
    lowerMonoEverywhere = !extra;
    nQ = extra ? nReach : qs.size();
    // known findings, demonstrated by the special cases at the end: extra pruning can
    // delete the sub-plans a plane relies on; HDP and LRTDP overwrite a stored point
    // bound with a backup that may be worse
    policyBound = !extra;
    auto sel = s->opts.find("runTimeActionSelection");
    if (sel != s->opts.end()) cfgSel = sel->second;
    if (cfgSel == "upper") policyBound = false;
    upperMono = !(cn.find("/point") != string::npos && (cn.find("hdp") == 0 || cn.find("lrtdp") == 0));
    storedUpperMono = !(cn.find("hdp") == 0 || cn.find("lrtdp") == 0);
  }
  bool bad = false;
  void validity(const string &when) {
    BoundPair &bp = *y->so.bounds;
    // every stored node
    for (auto it = bp.lookup->begin(); it != bp.lookup->end(); ++it) {
      MDPNode &n = *it->second;
      R.count("node_checks");
      double lo, hi;
      Vec b = fromS(m, n.s);
      if (!orc.value(b, lo, hi)) continue;
      if (haveL && n.lbVal > hi + tol) {
        R.fail(key("node-lower-above-V*"), fmt("%s: stored node %s: lower %.9g > V* %.9g (model %s)", when.c_str(), vstr(b).c_str(), n.lbVal, hi, m.name.c_str()));
        bad = true;
      }
      if (haveU && n.ubVal < lo - tol) {
        R.fail(key("node-upper-below-V*"), fmt("%s: stored node %s: upper %.9g < V* %.9g", when.c_str(), vstr(b).c_str(), n.ubVal, lo));
        bad = true;
      }
      for (size_t a = 0; a < n.Q.size(); a++) {
        if (!orc.q(b, a, lo, hi)) continue;
        double u = n.Q[a].ubVal;
        if (haveU && u != BP_QVAL_UNDEFINED && u < lo - tol) {
          R.fail(key("node-Q-upper"), fmt("%s: node %s action %d: upper Q %.9g < Q* %.9g", when.c_str(), vstr(b).c_str(), (int)a, u, lo));
          bad = true;
        }
      }
    }
    for (size_t i = 0; i < nQ; i++) {
      double lo, hi;
      if (!orc.value(qs[i].b, lo, hi)) continue;
      R.count("query_checks");
      if (getenv("MC_SHOW")) { printf("query %s %s\n", when.c_str(), vstr(qs[i].b).c_str()); fflush(stdout); }
      ValueInterval v = bp.getValueAt(qs[i].c);
      R.outcome(mix(hdbl(v.l), hdbl(v.u)));
      if (haveL && v.l > hi + tol) { R.fail(key("lower-above-V*"), fmt("%s: belief %s: lower %.9g > V* %.9g", when.c_str(), vstr(qs[i].b).c_str(), v.l, hi)); bad = true; }
      if (haveU && v.u < lo - tol) { R.fail(key("upper-below-V*"), fmt("%s: belief %s: upper %.9g < V* %.9g", when.c_str(), vstr(qs[i].b).c_str(), v.u, lo)); bad = true; }
      for (int a = 0; a < m.nA; a++) {
        if (!orc.q(qs[i].b, a, lo, hi)) continue;
        ValueInterval q = bp.getQValue(qs[i].c, a);
        if (haveL && q.l > hi + tol) { R.fail(key("Q-lower"), fmt("%s: belief %s action %d: lower Q %.9g > Q* %.9g", when.c_str(), vstr(qs[i].b).c_str(), a, q.l, hi)); bad = true; }
        if (haveU && q.u < lo - tol) { R.fail(key("Q-upper"), fmt("%s: belief %s action %d: upper Q %.9g < Q* %.9g", when.c_str(), vstr(qs[i].b).c_str(), a, q.u, lo)); bad = true; }
      }
      // asking must not change the planner
      int a1 = bp.chooseAction(qs[i].c);
      ValueInterval v2 = bp.getValueAt(qs[i].c);
      if (a1 < 0 || a1 >= m.nA) { R.fail(key("illegal-action"), fmt("%s: belief %s: action %d", when.c_str(), vstr(qs[i].b).c_str(), a1)); bad = true; }
      if (v2.l != v.l || v2.u != v.u) { R.fail(key("query-changes-bounds"), when); bad = true; }
    }
  }
  void mono(const string &when) {
    BoundPair &bp = *y->so.bounds;
    vector<double> L, U;
    for (size_t i = 0; i < nQ; i++) {
      ValueInterval v = bp.getValueAt(qs[i].c);
      L.push_back(v.l);
      U.push_back(v.u);
      R.outcome(mix(hdbl(v.l), hdbl(v.u)));
      R.count("query_checks");
      if (prevL.empty()) continue;
      if (haveL && lowerMonoEverywhere && v.l < prevL[i] - tol) { R.fail(key("lower-regressed"), fmt("%s: belief %s: lower %.9g -> %.9g", when.c_str(), vstr(qs[i].b).c_str(), prevL[i], v.l)); bad = true; }
      if (haveU && upperMono && v.u > prevU[i] + tol) { R.fail(key("upper-regressed"), fmt("%s: belief %s: upper %.9g -> %.9g", when.c_str(), vstr(qs[i].b).c_str(), prevU[i], v.u)); bad = true; }
    }
    prevL = L;
    prevU = U;
    for (auto it = bp.lookup->begin(); it != bp.lookup->end(); ++it) {
      MDPNode &n = *it->second;
      R.count("node_checks");
      auto p = prevNode.find(it->first);
      ValueInterval v = bp.getValueAt(n.s);
      if (p != prevNode.end()) {
        if (haveL && (lowerMonoEverywhere ? v.l : n.lbVal) < p->second.first - tol) { R.fail(key("visited-lower-regressed"), fmt("%s: visited state %s: lower %.9g -> %.9g", when.c_str(), vstr(fromS(m, n.s)).c_str(), p->second.first, lowerMonoEverywhere ? v.l : n.lbVal)); bad = true; }
        if (haveU && upperMono && v.u > p->second.second + tol) { R.fail(key("visited-upper-regressed"), fmt("%s: visited state %s: upper %.9g -> %.9g", when.c_str(), vstr(fromS(m, n.s)).c_str(), p->second.second, v.u)); bad = true; }
      }
      // the value stored with the state is what the planner reports (for the root: bounds.plot)
      auto ps = prevStored.find(it->first);
      if (ps != prevStored.end()) {
        if (haveL && n.lbVal < ps->second.first - tol) { R.fail(key("stored-lower-regressed"), fmt("%s: visited state %s: stored lower %.9g -> %.9g", when.c_str(), vstr(fromS(m, n.s)).c_str(), ps->second.first, n.lbVal)); bad = true; }
        if (haveU && storedUpperMono && n.ubVal > ps->second.second + tol) { R.fail(key("stored-upper-regressed"), fmt("%s: visited state %s: stored upper %.9g -> %.9g", when.c_str(), vstr(fromS(m, n.s)).c_str(), ps->second.second, n.ubVal)); bad = true; }
      }
      prevStored[it->first] = std::make_pair(n.lbVal, n.ubVal);
      // what is stored for a visited state must not be lost by the representation
      if (haveL && v.l < n.lbVal - tol) { R.fail(key("visited-lower-lost"), fmt("%s: state %s: stored lower %.9g but queried %.9g", when.c_str(), vstr(fromS(m, n.s)).c_str(), n.lbVal, v.l)); bad = true; }
      if (haveU && v.u > n.ubVal + tol) { R.fail(key("visited-upper-lost"), fmt("%s: state %s: stored upper %.9g but queried %.9g", when.c_str(), vstr(fromS(m, n.s)).c_str(), n.ubVal, v.u)); bad = true; }
      // (with extra pruning only what is stored for the state is kept for sure)
      prevNode[it->first] = std::make_pair(lowerMonoEverywhere ? v.l : n.lbVal, v.u);
    }
  }
  // the advised action is greedy: on the lower bound, or on the upper one if so configured
  void greedy(const string &when, const Vec &b) {
    BoundPair &bp = *y->so.bounds;
    state_vector sb = toS(m, b);
    vector<double> ql(m.nA), qu(m.nA);
    for (int a = 0; a < m.nA; a++) {
      double rr = 0, el = 0, eu = 0;
      Vec pred(m.nS, 0.0);
      for (int s = 0; s < m.nS; s++) if (b[s] != 0) { rr += b[s] * m.R[a][s]; for (int t = 0; t < m.nS; t++) pred[t] += b[s] * m.T[a][s][t]; }
      int n = m.nO ? m.nO : m.nS;
      for (int o = 0; o < n; o++) {
        Vec nb(m.nS, 0.0);
        double p = 0;
        if (m.nO) for (int t = 0; t < m.nS; t++) { nb[t] = pred[t] * m.O[a][t][o]; p += nb[t]; }
        else { p = pred[o]; nb[o] = p; }
        if (p < 1e-13) continue;
        for (double &x : nb) x /= p;
        ValueInterval v = bp.getValueAt(toS(m, nb));
        el += p * v.l; eu += p * v.u;
      }
      ql[a] = rr + m.gamma * el; qu[a] = rr + m.gamma * eu;
    }
    bool keep = bp.useUpperBoundRunTimeActionSelection;
    for (int mode = 0; mode < 3; mode++) {
      // mode 2: as the options configured it (default: on the lower bound if there is one)
      bool upper = mode == 1 || (mode == 2 && (cfgSel == "upper" || (cfgSel != "lower" && !haveL)));
      if (upper ? !haveU : !haveL) continue;
      if (mode < 2) bp.useUpperBoundRunTimeActionSelection = upper;
      int a = bp.chooseAction(sb);
      bp.useUpperBoundRunTimeActionSelection = keep;
      R.count("greedy_checks");
      if (a < 0 || a >= m.nA) { R.fail(key("illegal-action"), when); bad = true; return; }
      const vector<double> &q = upper ? qu : ql;
      double best = *std::max_element(q.begin(), q.end());
      if (q[a] < best - tol) { R.fail(key(upper ? "not-greedy-upper" : "not-greedy-lower"), fmt("%s: at %s action %d has value %.9g, another %.9g", when.c_str(), vstr(b).c_str(), a, q[a], best)); bad = true; }
    }
  }
  // exact (bracketed) value of the controller that asks the planner at every step
  std::map<vector<int64_t>, std::pair<double, int>> memo;
  void policy(const string &when, const vector<Vec> &from) {
    BoundPair &bp = *y->so.bounds;
    // belief graph under the advised actions
    BeliefGraph g(m);
    vector<int> fi;
    for (auto &b : from) fi.push_back(g.add(b));
    vector<int> act;
    vector<vector<std::pair<double, int>>> suc;
    vector<double> r;
    size_t limit = 1500;
    size_t i = 0;
    int nO = std::max(1, m.nO);
    for (; i < g.nodes.size() && g.nodes.size() < limit; i++) {
      Vec b = g.nodes[i].b;
      int a = bp.chooseAction(toS(m, b));
      R.count("policy_steps");
      if (a < 0 || a >= m.nA) { R.fail(key("illegal-action"), when); bad = true; return; }
      act.push_back(a);
      double rr = 0;
      Vec pred(m.nS, 0.0);
      for (int s = 0; s < m.nS; s++) if (b[s] != 0) {
        rr += b[s] * m.R[a][s];
        for (int t = 0; t < m.nS; t++) pred[t] += b[s] * m.T[a][s][t];
      }
      r.push_back(rr);
      if (i < 200) greedy(when, b);
      vector<std::pair<double, int>> sc;
      if (m.nO) {
        for (int o = 0; o < nO; o++) {
          Vec nb(m.nS, 0.0);
          double p = 0;
          for (int t = 0; t < m.nS; t++) { nb[t] = pred[t] * m.O[a][t][o]; p += nb[t]; }
          if (p < 1e-13) continue;
          for (double &x : nb) x /= p;
          sc.push_back({p, g.add(nb)});
        }
      } else {
        for (int t = 0; t < m.nS; t++) if (pred[t] > 0) {
          Vec nb(m.nS, 0.0);
          nb[t] = 1;
          sc.push_back({pred[t], g.add(nb)});
        }
      }
      suc.push_back(sc);
    }
    // optimistic evaluation: frontier beliefs get V-upper, so a shortfall is real
    size_t n = g.nodes.size();
    vector<double> hi(n);
    for (size_t k = 0; k < n; k++) {
      double lo, h;
      if (k >= act.size()) { if (!orc.value(g.nodes[k].b, lo, h)) h = std::max(0.0, m.rmax()) / (1 - m.gamma); hi[k] = h; }
      else hi[k] = std::max(0.0, m.rmax()) / (1 - m.gamma);
    }
    for (int it = 0; it < 5000; it++) {
      double d = 0;
      for (size_t k = act.size(); k-- > 0;) {
        double v = 0;
        for (auto &e : suc[k]) v += e.first * hi[e.second];
        v = r[k] + m.gamma * v;
        d = std::max(d, fabs(v - hi[k]));
        hi[k] = v;
      }
      if (d * m.gamma / (1 - m.gamma) < 1e-8 * m.span()) break;
    }
    for (size_t k = 0; k < from.size(); k++) {
      ValueInterval v = bp.getValueAt(toS(m, from[k]));
      double pv = hi[fi[k]];
      R.outcome(mix(hdbl(v.l), hdbl(pv)));
      R.count("policy_evaluations");
      if (haveL && policyBound && pv < v.l - tol) {
        R.fail(key("policy-below-lower-bound"), fmt("%s: from %s: policy earns at most %.9g but lower bound says %.9g", when.c_str(), vstr(from[k]).c_str(), pv, v.l));
        bad = true;
      }
    }
  }
  // the exploration is bounded to beliefs without components in (0, 2e-6): below
  // that the storage tolerances of the code (1e-6 corner snapping, 1e-10 sparsity)
  // decide, not the algorithm
  bool tiny() {
    if (!m.nO) return false;
    for (auto it = y->so.bounds->lookup->begin(); it != y->so.bounds->lookup->end(); ++it)
      for (auto &e : it->second->s.data) if (e.value > 0 && e.value < 2e-6) return true;
    return false;
  }
  // done: the planner says it reached the requested precision
  void finished(bool done, const string &cn, double precision, bool finite, bool cut, int trials) {
    if (!done) { R.count("unfinished_within_trial_bound"); 
      // claimed to terminate: finite belief space (or MDP), not RTDP (which has no
      // termination test of its own)
      if (finite && !cut && cn.find("rtdp") != 0) { R.count("unfinished_finite"); if (getenv("MC_STRICT_FINISH") || true) { R.fail(key("does-not-finish"), fmt("%s did not reach precision %g in %d trials, root [%.9g,%.9g]", cn.c_str(), precision, trials, y->so.bounds->getRootNode()->lbVal, y->so.bounds->getRootNode()->ubVal)); bad = true; } }
      return; }
    R.count("finished");
    R.count("states");
    BoundPair &bp = *y->so.bounds;
    MDPNode &r = *bp.getRootNode();
    double lo, hi;
    Vec b = fromS(m, r.s);
    if (!orc.value(b, lo, hi)) return;
    ValueInterval v = bp.getValueAt(r.s);
    R.outcome(mix(hdbl(r.ubVal), hdbl(r.lbVal)));
    bool residualBased = cn.find("hdp") == 0 || cn.find("lrtdp") == 0;
    if (residualBased) {
      double slack = precision / (1 - m.gamma);
      if (haveU && (r.ubVal > hi + slack + tol || v.u < lo - tol)) { R.fail(key("done-but-upper-far"), fmt("%s finished with root upper %.9g, V* in [%.9g,%.9g], precision %g", cn.c_str(), r.ubVal, lo, hi, precision)); bad = true; }
    } else {
      if (r.ubVal - r.lbVal > precision + tol) { R.fail(key("done-but-wide"), fmt("%s finished with root interval [%.9g,%.9g], precision %g", cn.c_str(), r.lbVal, r.ubVal, precision)); bad = true; }
      if (v.u - v.l > precision + tol) { R.fail(key("done-but-queried-wide"), fmt("%s finished with queried interval [%.9g,%.9g], precision %g", cn.c_str(), v.l, v.u, precision)); bad = true; }
    }
    if ((haveL && r.lbVal > hi + tol) || (haveU && r.ubVal < lo - tol)) { R.fail(key("done-but-optimum-outside"), fmt("%s finished with root interval [%.9g,%.9g], V* in [%.9g,%.9g]", cn.c_str(), r.lbVal, r.ubVal, lo, hi)); bad = true; }
  }
  void step(const string &when) {
    R.count("states");
    if (doValid) validity(when);
    if (doMono) mono(when);
  }
};

static bool hasExtra(const Opts &o) {
  // extra pruning is the default when the lower bound is a set of planes
  auto l = o.find("lowerBoundRepresentation");
  if (l == o.end() || l->second == "point") return false;
  auto ml = o.find("maintainLowerBound");
  if (ml != o.end() && ml->second != "1") return false;
  auto i = o.find("useMaxPlanesExtraPruning");
  return i == o.end() || i->second == "1";
}
struct Config { string name; Opts o; bool sampling; };

static vector<Opts> lbOptions() {
  vector<Opts> v;
  for (int ms = 0; ms < 3; ms++)
    for (int ce = 0; ce < 3; ce++)
      v.push_back({{"useMaxPlanesMasking", ms ? "1" : "0"}, {"useMaxPlanesSupportList", ms == 2 ? "1" : "0"},
                   {"useMaxPlanesCache", ce ? "1" : "0"}, {"useMaxPlanesExtraPruning", ce == 2 ? "1" : "0"}});
  return v;
}
static string lbName(const Opts &o) {
  return o.at("useMaxPlanesMasking") + o.at("useMaxPlanesSupportList") + o.at("useMaxPlanesCache") + o.at("useMaxPlanesExtraPruning");
}

static vector<Config> configs(bool pomdp, bool goal, bool finite, int rot, bool full) {
  vector<Config> out;
  vector<Opts> lbs = lbOptions();
  const char *strat[] = {"hsvi", "frtdp", "hdp", "lrtdp", "rtdp"};
  for (int s = 0; s < 5; s++) {
    bool sampling = s >= 3;
    if (sampling && !goal) continue;
    // HDP trials and LRTDP labelling only end when the greedy envelope is finite
    if ((s == 2 || s == 3) && !finite) continue;
    struct Rep { const char *l, *u; };
    vector<Rep> reps;
    if (pomdp) reps = {{"convex", "sawtooth"}, {"point", "point"}, {"convex", "point"}, {"point", "sawtooth"}};
    else reps = {{"point", "point"}};
    for (size_t r = 0; r < reps.size(); r++) {
      vector<Opts> lo;
      if (!pomdp || string(reps[r].l) == "point") lo = {Opts()};
      else if (full) lo = lbs;
      else lo = {lbs[8], lbs[(rot + s + 3 * r) % 8]};
      if (!full && r && (rot + s + r) % 3) continue;
      for (auto &l : lo) {
        for (int sl = 0; sl < 2; sl++) {
          bool saw = pomdp && string(reps[r].u) == "sawtooth";
          if (!saw && sl) continue;
          if (saw && !full && sl != ((rot / 2 + s) & 1)) continue;
          Config c;
          c.o = l;
          c.o["searchStrategy"] = strat[s];
          c.o["lowerBoundRepresentation"] = reps[r].l;
          c.o["upperBoundRepresentation"] = reps[r].u;
          c.o["maintainLowerBound"] = "1";
          // which bound the advice is based on (all that a user can ask for, in turn)
          { const char *sels[] = {"-", "lower", "upper", "-"}; c.o["runTimeActionSelection"] = sels[out.size() % 4]; }
          if (saw) c.o["useSawtoothSupportList"] = sl ? "1" : "0";
          c.sampling = sampling;
          c.name = fmt("%s/%s%s/%s%s", strat[s], reps[r].l, l.empty() ? "" : ("-" + lbName(l)).c_str(), reps[r].u, saw ? (sl ? "-1" : "-0") : "");
          out.push_back(c);
          // the strategies that need no lower bound, without one (their default)
          if (s >= 2 && (full || (rot + s + r) % 4 == 0)) {
            c.o["maintainLowerBound"] = (rot & 1) ? "-" : "0";
            c.o["runTimeActionSelection"] = (rot & 2) ? "-" : "upper";
            c.name += "/upper-only";
            out.push_back(c);
          }
        }
      }
    }
  }
  return out;
}

static void gatherBeliefs(const Model &m, vector<Vec> &qb, int depth) {
  // reachable beliefs to a depth
  BeliefGraph g(m);
  g.add(m.b0);
  if (m.nO) {
    size_t lo = 0;
    for (int d = 0; d < depth; d++) {
      size_t hi = g.nodes.size();
      for (size_t i = lo; i < hi; i++) {
        Vec b = g.nodes[i].b;
        for (int a = 0; a < m.nA; a++) {
          Vec pred(m.nS, 0.0);
          for (int s = 0; s < m.nS; s++) for (int t = 0; t < m.nS; t++) pred[t] += b[s] * m.T[a][s][t];
          for (int o = 0; o < m.nO; o++) {
            Vec nb(m.nS, 0.0);
            double p = 0;
            for (int t = 0; t < m.nS; t++) { nb[t] = pred[t] * m.O[a][t][o]; p += nb[t]; }
            if (p < 1e-9) continue;
            for (double &x : nb) x /= p;
            g.add(nb);
          }
        }
      }
      lo = hi;
    }
  } else {
    for (int s = 0; s < m.nS; s++) { Vec b(m.nS, 0.0); b[s] = 1; g.add(b); }
  }
  for (auto &n : g.nodes) qb.push_back(n.b);
}

static void exploreModel(Run &R, const Model &m, int mi) {
  bool pomdp = m.nO > 0;
  vector<Vec> qb;
  gatherBeliefs(m, qb, m.nS <= 3 ? 2 : 1);
  size_t nReach = qb.size();
  if (pomdp && m.nS == 2) for (auto &b : gridBeliefs(2, 8)) qb.push_back(b);
  if (pomdp && m.nS == 3) for (auto &b : gridBeliefs(3, 4)) qb.push_back(b);
  if (pomdp && m.nS > 3) {
    Vec u(m.nS, 1.0 / m.nS);
    qb.push_back(u);
    for (int s = 0; s < m.nS; s += 3) { Vec b(m.nS, 0.0); b[s] = 1; qb.push_back(b); }
  }
  Oracle orc(m, qb, m.nS <= 3 ? 2500 : 4000);
  vector<Query> qs;
  for (auto &b : qb) qs.push_back({b, toS(m, b)});
  string fn = fmt("m%d.%s", R.shard, pomdp ? "pomdp" : "mdp");
  m.write(fn);
  R.count("models");
  if (orc.exact()) R.count("models_with_exact_oracle");
  bool goal = isGoalModel(m);
  bool finite = true;
  if (pomdp) {
    BeliefGraph g(m);
    g.add(m.b0);
    g.solve(300, 1e30);
    finite = g.closed;
  }
  vector<Config> cs = configs(pomdp, goal, finite, mi, R.thorough ? mi % 3 == 0 : mi % 8 == 0);
  int maxTrials = m.nS <= 3 ? 12 : 8;
  if (doDone) maxTrials = m.nO ? 400 : 1500;
  double precision = 1e-3;
  for (auto &c : cs) {
    Chooser ch;
    ch.maxDev = c.sampling ? (R.thorough ? 2 : 1) : 0;
    ch.maxPoints = c.sampling ? (R.thorough ? 12 : 6) : 0;
    int execs = 0;
    do {
      ch.begin();
      gChooser = NULL;
      R.describe(fmt("model %s options %s choices [%s]\n%s", m.name.c_str(), optStr(c.o).c_str(), ch.str().c_str(), m.text().c_str()));
      Opts oo = c.o;
      if (doDone) { precision = (((mi + execs) % 2) ? 1e-3 : 0.05) * m.unit; oo["terminateRegretBound"] = fmt("%g", precision); }
      Sys *y = makeSys(fn, oo);
      Watch w(R, m, orc, qs, y, c.name, hasExtra(c.o), nReach);
      gChooser = c.sampling ? &ch : NULL;
      gLcg = 12345;
      if (!doDone) w.step("initial bounds");
      int t;
      bool done = false, cut = false;
      for (t = 0; t < maxTrials && !done && !w.bad; t++) {
        // the planner's own logging writes to stdout, which goes to /dev/null
        done = y->so.solver->planFixedTime(y->so.problem->getInitialState(), -1, y->p.terminateRegretBound);
        R.count("transitions");
        if (doDone && y->so.bounds->lookup->size() > 4000) { cut = true; break; }
        if (doDone ? (t % 8 == 7 && w.tiny()) : w.tiny()) { R.count("executions_cut_at_tiny_belief"); cut = true; break; }
        if (doValid || doMono) w.step(fmt("after trial %d", t + 1));
        if (doPolicy && (t < 2 || t % 4 == 3 || done)) { vector<Vec> from; from.push_back(m.b0); if (t % 2 == 0) for (size_t k = 0; k < w.nQ; k += 3) from.push_back(qs[k].b); w.policy(fmt("after trial %d", t + 1), from); R.count("states"); }
      }
      if (doDone && !w.bad) w.finished(done, c.name, precision, finite, cut, t);
      execs++;
      R.count("executions");
      gChooser = NULL;
      if (execs == 1 && mi % 97 == 0) R.sample(fmt("model %s, %s: %d trials%s", m.name.c_str(), c.name.c_str(), t, done ? " (converged)" : ""));
      // free the large parts
      delete y->so.bounds->lookup;
      if (w.bad) break;
    } while (c.sampling && ch.next());
    if (c.sampling) R.count("sampling_schedules", execs);
  }
  // ---- all update sequences over a small set of states
  if (doValid || doMono) {
    vector<Opts> lbs = lbOptions();
    struct Rep { const char *l, *u; };
    vector<Rep> reps;
    // "": that bound is not kept at all
    if (pomdp) reps = {{"convex", "sawtooth"}, {"point", "point"}, {"convex", ""}, {"", "sawtooth"}, {"point", ""}, {"", "point"}};
    else reps = {{"point", "point"}, {"point", ""}, {"", "point"}};
    int nAlpha = std::min<size_t>(nReach, 4);
    int depth = R.thorough ? 4 : 3;
    if (mi % (R.thorough ? 1 : 3) == 0)
      for (size_t r = 0; r < reps.size(); r++)
        for (int pre = 0; pre < 2; pre++) {
          Opts o;
          bool convex = string(reps[r].l) == "convex", one = !*reps[r].l || !*reps[r].u;
          if (one && pre != (mi / 3 + (int)r) % 2) continue;
          if (convex) o = lbs[(mi / 3 + pre + r) % 9];
          // 'script' is the strategy that requires neither bound
          o["searchStrategy"] = one ? "script" : "hsvi";
          o["maintainLowerBound"] = *reps[r].l ? "1" : "0";
          o["maintainUpperBound"] = *reps[r].u ? "1" : "0";
          if (*reps[r].l) o["lowerBoundRepresentation"] = reps[r].l;
          if (*reps[r].u) o["upperBoundRepresentation"] = reps[r].u;
          if (string(reps[r].u) == "sawtooth" && (mi / 3) % 2) o["useSawtoothSupportList"] = "0";
          string cn = fmt("seq/%s%s/%s", reps[r].l, convex ? ("-" + lbName(o)).c_str() : "", reps[r].u);
          int total = 1;
          for (int d = 0; d < depth; d++) total *= nAlpha;
          for (int code = one ? mi / 3 % 3 : 0; code < total; code += one ? 3 : 1) {
            R.describe(fmt("model %s options %s preroll %d update sequence code %d (base %d, depth %d)\n%s", m.name.c_str(), optStr(o).c_str(), pre, code, nAlpha, depth, m.text().c_str()));
            Sys *y = makeSys(fn, o, !one);
            BoundPair &bp = *y->so.bounds;
            if (one) bp.initialize(y->so.problem, y->cfg);
            bp.getRootNode();
            Watch w(R, m, orc, qs, y, cn, hasExtra(o), nReach);
            if (pre) for (int k = 0; k < 24; k++) bp.update(*bp.getNode(qs[k % nAlpha].c), NULL);
            w.step("start");
            int c = code;
            for (int d = 0; d < depth && !w.bad; d++) {
              int ua;
              bp.update(*bp.getNode(qs[c % nAlpha].c), &ua);
              c /= nAlpha;
              R.count("transitions");
              if (w.tiny()) break;
              if (d == depth - 1 || code < nAlpha * nAlpha) w.step(fmt("after update %d", d + 1));
            }
            R.count("sequences");
            delete bp.lookup;
            if (w.bad) return;
          }
        }
  }
}

// ---- P04: all option combinations in lockstep over the same update sequence
static void exploreOptions(Run &R, const Model &m, int mi) {
  if (!m.nO) return;
  vector<Vec> qb;
  gatherBeliefs(m, qb, 2);
  size_t nReach = qb.size();
  if (m.nS == 2) for (auto &b : gridBeliefs(2, 8)) qb.push_back(b);
  if (m.nS == 3) for (auto &b : gridBeliefs(3, 4)) qb.push_back(b);
  Oracle orc(m, qb, 1500);
  vector<Query> qs;
  for (auto &b : qb) qs.push_back({b, toS(m, b)});
  string fn = fmt("m%d.pomdp", R.shard);
  m.write(fn);
  R.count("models");
  double tol = 2e-6 * m.span() + 1e-7;
  vector<Opts> cs;
  vector<string> names;
  for (auto &l : lbOptions()) for (int sl = 0; sl < 2; sl++) {
    Opts o = l;
    o["searchStrategy"] = "hsvi";
    o["lowerBoundRepresentation"] = "convex";
    o["upperBoundRepresentation"] = "sawtooth";
    o["useSawtoothSupportList"] = sl ? "1" : "0";
    cs.push_back(o);
    names.push_back(lbName(o) + (sl ? "-1" : "-0"));
  }
  int nAlpha = std::min<size_t>(nReach, 4), depth = R.thorough ? 4 : 3;
  int total = 1;
  for (int d = 0; d < depth; d++) total *= nAlpha;
  for (int pre = 0; pre < 2; pre++)
    for (int code = 0; code < total; code++) {
      if (!R.thorough && code % 3 != mi % 3) continue;
      R.describe(fmt("model %s, all option combinations, preroll %d update sequence code %d (base %d, depth %d)\n%s", m.name.c_str(), pre, code, nAlpha, depth, m.text().c_str()));
      vector<Sys *> ys;
      for (auto &o : cs) { ys.push_back(makeSys(fn, o)); ys.back()->so.bounds->getRootNode(); }
      int len = pre ? 24 + depth : depth;
      bool bad = false, cut = false;
      for (int d = 0; d < len && !bad && !cut; d++) {
        int which;
        if (d < len - depth) which = (d * 7 + d / nAlpha) % nAlpha;
        else { int c = code; for (int k = len - depth; k < d; k++) c /= nAlpha; which = c % nAlpha; }
        for (auto y : ys) { y->so.bounds->update(*y->so.bounds->getNode(qs[which].c), NULL); R.count("transitions"); }
        for (auto it = ys[0]->so.bounds->lookup->begin(); it != ys[0]->so.bounds->lookup->end(); ++it)
          for (auto &e : it->second->s.data) if (e.value > 0 && e.value < 2e-6) cut = true;
        if (cut) break;
        if (d < len - depth && d % 6) continue;
        for (size_t q = 0; q < qs.size() && !bad; q++) {
          std::map<string, ValueInterval> v;
          for (size_t i = 0; i < ys.size(); i++) {
            bool extra = names[i][3] == '1';
            if (extra && q >= nReach) continue;
            v[names[i]] = ys[i]->so.bounds->getValueAt(qs[q].c);
            R.count("query_checks");
          }
          double lo = -1e300, hi = 1e300;
          orc.value(qs[q].b, lo, hi);
          for (auto &p : v) {
            R.outcome(mix(hdbl(p.second.l), hdbl(p.second.u)));
            if (p.second.l > hi + tol || p.second.u < lo - tol) {
              R.fail("option-invalid-bound", fmt("options %s: belief %s: [%.9g,%.9g] but V* in [%.9g,%.9g]", p.first.c_str(), vstr(qs[q].b).c_str(), p.second.l, p.second.u, lo, hi)); bad = true; }
            // the support list of the planes is a pure speed-up
            string n2 = p.first;
            if (n2[1] == '1' && n2[3] == '0') {
              n2[1] = '0';
              if (v.count(n2) && fabs(v[n2].l - p.second.l) > tol) {
                R.fail("support-list-changes-lower", fmt("belief %s: lower %.9g with the support list (%s), %.9g without", vstr(qs[q].b).c_str(), p.second.l, p.first.c_str(), v[n2].l)); bad = true; }
            }
            // the sawtooth support list may only skip points
            n2 = p.first;
            if (n2[5] == '1') {
              n2[5] = '0';
              if (v.count(n2) && p.second.u < v[n2].u - tol) {
                R.fail("sawtooth-list-lowers-bound", fmt("belief %s: upper %.9g with the support list, %.9g without (%s)", vstr(qs[q].b).c_str(), p.second.u, v[n2].u, p.first.c_str())); bad = true; }
            }
            // options of one bound do not influence the other
            n2 = "0000" + p.first.substr(4);
            if (fabs(v[n2].u - p.second.u) > tol) { R.fail("lower-options-change-upper", fmt("belief %s: upper %.9g (%s), %.9g (%s)", vstr(qs[q].b).c_str(), p.second.u, p.first.c_str(), v[n2].u, n2.c_str())); bad = true; }
            n2 = p.first.substr(0, 5) + "0";
            if (v.count(n2) && fabs(v[n2].l - p.second.l) > tol) { R.fail("upper-options-change-lower", fmt("belief %s: lower %.9g (%s), %.9g (%s)", vstr(qs[q].b).c_str(), p.second.l, p.first.c_str(), v[n2].l, n2.c_str())); bad = true; }
          }
          // masking only narrows where a plane may be used: at the updated belief itself
          // every variant gets at least the value of the backup it just made
        }
        R.count("states");
      }
      for (auto y : ys) delete y->so.bounds->lookup;
      R.count("sequences");
      if (bad) return;
    }
}

// ---- specific histories that show a known finding; keys start with case:<name>:
static void specialCase(Run &R, const string &name, const string &modelName, Opts o, int trials) {
  Model m;
  {
    vector<Model> ms;
    family2(ms, 0); family3(ms, 0); familyCorridor(ms, 0); familyMDP(ms, 0);
    bool ok = false;
    for (auto &x : ms) if (x.name == modelName) { m = x; ok = true; }
    if (!ok) abort();
  }
  R.run([&] { return "special case " + name + ": model " + m.name + " options " + optStr(o) + "\n" + m.text(); }, [&] {
    vector<Vec> qb;
    gatherBeliefs(m, qb, m.nS <= 3 ? 2 : 1);
    Oracle orc(m, qb, 4000);
    vector<Query> qs;
    for (auto &b : qb) qs.push_back({b, toS(m, b)});
    string fn = fmt("m%d.pomdp", R.shard);
    m.write(fn);
    Sys *y = makeSys(fn, o);
    gChooser = NULL;
    gLcg = 12345;
    Watch w(R, m, orc, qs, y, name, hasExtra(o), qs.size());
    w.upperMono = w.storedUpperMono = w.policyBound = true;
    w.keyPrefix = "case:" + name + ":";
    w.step("initial bounds");
    for (int t = 0; t < trials && !w.bad; t++) {
      y->so.solver->planFixedTime(y->so.problem->getInitialState(), -1, y->p.terminateRegretBound);
      R.count("transitions");
      w.step(fmt("after trial %d", t + 1));
      if (doPolicy) { vector<Vec> from = {m.b0}; for (auto &b : qb) from.push_back(b); w.policy(fmt("after trial %d", t + 1), from); }
    }
    R.count("executions");
  });
}

void mc_enumerate(Run &R) {
  PROP = getenv("MC_PROP");
  doValid = PROP == "P01";
  doMono = PROP == "P03";
  doPolicy = PROP == "P05";
  doDone = PROP == "P02";
  doOpt = PROP == "P04";
  vector<Model> ms;
  family2(ms, R.thorough ? 1 : 0);
  family3(ms, R.thorough ? 1 : 0);
  familyCorridor(ms, R.thorough ? 1 : 0);
  familyMDP(ms, R.thorough ? 1 : 0);
  { size_t n = ms.size(); familyWide(ms, R.thorough ? 1 : 0); familyGoal(ms, R.thorough ? 1 : 0); std::rotate(ms.begin(), ms.begin() + n, ms.end()); }
  addVariants(ms, R.thorough ? 3 : 7);
  int stride = atoi(getenv("MC_STRIDE") ? getenv("MC_STRIDE") : "1");
  for (size_t i = 0; i < ms.size(); i++) {
    if (i % stride) continue;
    R.run([&] { return "model " + ms[i].name + "\n" + ms[i].text(); }, [&] { if (doOpt) exploreOptions(R, ms[i], i / stride); else exploreModel(R, ms[i], i / stride); });
  }
  Opts def = {{"searchStrategy", "hsvi"}, {"lowerBoundRepresentation", "convex"}, {"upperBoundRepresentation", "sawtooth"}, {"maintainLowerBound", "1"}};
  Opts hdp = def;
  hdp["searchStrategy"] = "hdp";
  Opts hdpPoint = hdp;
  hdpPoint["upperBoundRepresentation"] = "point";
  if (doValid) specialCase(R, "tiny-support", "corr:16/0.2/2/1/0.7", hdp, 8);
  if (doMono) specialCase(R, "hdp-overwrite", "f2:21/33/0.5", hdpPoint, 4);
  if (doPolicy) specialCase(R, "extra-pruning", "f2:8/12/0.9", def, 4);
}
