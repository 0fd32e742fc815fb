// cache.cc - P18: the memoised model view, the planner's state table and the state keys.
#include "zm.h"
#include "CacheMDP.h"
#include "Pomdp.h"
using namespace mc;

static cvector mdpState(int s) { cvector r; r.resize(1); r.push_back(0, s); return r; }
static bool nearC(const cvector &a, const cvector &b, double tol) {
  if (a.size() != b.size()) return false;
  Vec x = toV(a), y = toV(b);
  for (size_t i = 0; i < x.size(); i++) if (!(fabs(x[i] - y[i]) <= tol)) return false;
  return true;
}

// ---- memoised view: every sequence of queries
struct Q { int node, a, what; };
static void checkView(Run &R, const Model &m, int depth) {
  string fn = fmt("c%d.%s", R.shard, m.nO ? "pomdp" : "mdp");
  m.write(fn);
  Sys *y = makeSys(fn, Opts{{"searchStrategy", "hsvi"}});
  MDP *p = y->so.problem;
  double rs = std::max(1.0, std::max(fabs(m.rmin()), fabs(m.rmax())));
  // one exploration = one sequence over (known state, action, kind of query); the
  // known states grow as successors are discovered
  vector<Q> seq;
  std::function<void()> replay;
  std::function<bool(string &)> runSeq = [&](string &why) -> bool {
    CacheMDP c(p);
    if (c.getNumActions() != p->getNumActions() || c.getDiscount() != p->getDiscount() || c.getNumStateDimensions() != p->getNumStateDimensions()) { why = "parameters differ"; return false; }
    vector<cvector> tok = {c.getInitialState()};       // cached handle
    vector<cvector> tru = {p->getInitialState()};      // what it stands for, from the model
    for (size_t i = 0; i < seq.size(); i++) {
      Q &q = seq[i];
      if (q.node >= (int)tok.size()) { q.node = -1; return true; }
      const cvector t = tok[q.node], s = tru[q.node];
      state_vector tr;
      if (!nearC(c.translateState(tr, t), s, 3e-9 * (i + 1))) { why = "translated state differs: " + vstr(toV(tr)) + " for " + vstr(toV(s)); return false; }
      R.count("transitions");
      if (q.what == 0) { if (c.getIsTerminalState(t) != p->getIsTerminalState(s)) { why = "terminal flag"; return false; } }
      else if (q.what == 1) { double g = c.getReward(t, q.a), w = p->getReward(s, q.a); if (!(fabs(g - w) <= 1e-7 * rs)) { why = fmt("reward %g, model %g", g, w); return false; } }
      else {
        outcome_prob_vector g, w;
        c.getOutcomeProbVector(g, t, q.a);
        p->getOutcomeProbVector(w, s, q.a);
        bool ok = g.size() == w.size();
        for (size_t o = 0; ok && o < g.size(); o++) ok = fabs(g(o) - w(o)) <= 1e-7;
        if (!ok) { why = "outcome probabilities differ"; return false; }
        for (size_t o = 0; o < w.size(); o++) if (w(o) > 1e-6) {
          state_vector n, sp;
          c.getNextState(n, t, q.a, o);
          p->getNextState(sp, s, q.a, o);
          // same handle exactly for the same state
          bool seen = false;
          for (size_t k = 0; k < tok.size(); k++) {
            bool sameTok = (int)tok[k](0) == (int)n(0);
            bool same = nearC(tru[k], sp, 1e-12), differ = !nearC(tru[k], sp, 2e-8);
            if (same && !sameTok) { why = "one state has two handles: " + vstr(toV(sp)); return false; }
            if (differ && sameTok) { why = "two states share a handle: " + vstr(toV(sp)) + " / " + vstr(toV(tru[k])); return false; }
            seen |= sameTok;
          }
          if (!seen) { tok.push_back(n); tru.push_back(sp); }
          R.outcome(mix(hdbl(w(o)), (int)n(0)));
        }
      }
    }
    // at the end, everything known so far once more, oldest last
    for (size_t k = tok.size(); k-- > 0;) {
      state_vector tr;
      if (!nearC(c.translateState(tr, tok[k]), tru[k], 2e-8)) { why = "state changed: " + vstr(toV(tr)); return false; }
      if (c.getIsTerminalState(tok[k]) != p->getIsTerminalState(tru[k])) { why = "terminal flag at the end"; return false; }
      for (int a = 0; a < m.nA; a++) if (!(fabs(c.getReward(tok[k], a) - p->getReward(tru[k], a)) <= 1e-7 * rs)) { why = "reward at the end"; return false; }
    }
    return true;
  };
  std::function<bool(int)> rec = [&](int d) -> bool {
    for (int node = 0; node < 5; node++) for (int a = 0; a < m.nA; a++) for (int w = 0; w < 3; w++) {
      if (w == 0 && a) continue;
      seq.push_back({node, a, w});
      string why;
      if (!runSeq(why)) {
        string s;
        for (auto &q : seq) s += fmt("(state %d, action %d, %s) ", q.node, q.a, q.what == 0 ? "terminal" : q.what == 1 ? "reward" : "outcomes");
        R.fail("memoised-view", why + " after " + s);
        return false;
      }
      R.count("sequences");
      bool none = seq.back().node < 0;
      if (!none && d > 1 && !rec(d - 1)) return false;
      seq.pop_back();
      if (none) return true;     // no further known states either
    }
    return true;
  };
  rec(depth);
  R.count("models");
  delete y->so.bounds->lookup;
}

// ---- state table of the planner: identification and isolation
static void checkTable(Run &R, const Model &m, const vector<cvector> &states, const string &rep) {
  string fn = fmt("t%d.%s", R.shard, m.nO ? "pomdp" : "mdp");
  m.write(fn);
  Opts o = {{"searchStrategy", "hsvi"}};
  if (rep == "point") { o["lowerBoundRepresentation"] = "point"; o["upperBoundRepresentation"] = "point"; }
  for (int order = 0; order < 2; order++) {
    Sys *y = makeSys(fn, o);
    BoundPair &bp = *y->so.bounds;
    size_t n = states.size();
    vector<MDPNode *> nd(n);
    auto at = [&](size_t i) { return order ? n - 1 - i : i; };
    for (size_t i = 0; i < n; i++) {
      bool dup = false;
      for (size_t j = 0; j < i; j++) dup |= nearC(states[at(i)], states[at(j)], 0);
      MDPNode *before = bp.getNodeOrNull(states[at(i)]);
      int touched = bp.numStatesTouched;
      nd[at(i)] = bp.getNode(states[at(i)]);
      if (dup && !before) R.fail("not-found", vstr(toV(states[at(i)])));
      if (before && nd[at(i)] != before) R.fail("lookup-differs", vstr(toV(states[at(i)])));
      if (bp.getNodeOrNull(states[at(i)]) != nd[at(i)]) R.fail("not-found", vstr(toV(states[at(i)])) + " right after it was stored");
      if (bp.numStatesTouched != touched + (before ? 0 : 1)) R.fail("touched-counter", fmt("%d -> %d", touched, bp.numStatesTouched));
      if (!nearC(nd[at(i)]->s, states[at(i)], 1.1e-9)) R.fail("wrong-state", vstr(toV(nd[at(i)]->s)) + " for " + vstr(toV(states[at(i)])));
    }
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) {
      R.count("transitions");
      bool same = nearC(states[i], states[j], 0), differ = !nearC(states[i], states[j], 2e-9);
      R.outcome(mix(nd[i] == nd[j], same * 2 + differ));
      if (same && nd[i] != nd[j]) R.fail("split-state", vstr(toV(states[i])));
      if (differ && nd[i] == nd[j]) R.fail("merged-states", vstr(toV(states[i])) + " and " + vstr(toV(states[j])));
    }
    // storing values or expanding one does not touch the others
    vector<double> lb(n), ub(n);
    vector<char> fr(n);
    for (size_t i = 0; i < n; i++) { lb[i] = nd[i]->lbVal; ub[i] = nd[i]->ubVal; }
    size_t k = std::min<size_t>(n, 40);
    for (size_t i = 0; i < k; i++) {
      for (size_t j = 0; j < n; j++) fr[j] = nd[j]->isFringe();
      double L = nd[i]->lbVal;
      nd[i]->lbVal = L - 77;
      bp.getNode(states[i]);
      if (i % 4 == 0 && nd[i]->isFringe()) bp.expand(*nd[i]);
      for (size_t j = 0; j < n; j++) if (nd[j] != nd[i]) {
        if (nd[j]->lbVal != lb[j] || nd[j]->ubVal != ub[j]) R.fail("value-leaked", vstr(toV(states[i])) + " -> " + vstr(toV(states[j])));
        if (nd[j]->isFringe() != fr[j]) R.fail("expansion-leaked", vstr(toV(states[i])) + " -> " + vstr(toV(states[j])));
      }
      if (bp.getNode(states[i])->lbVal != L - 77) R.fail("value-lost", vstr(toV(states[i])));
      nd[i]->lbVal = L;
      if (!nd[i]->isFringe()) {
        // successors recorded are those of the model
        if ((int)nd[i]->Q.size() != m.nA) R.fail("expanded", "number of actions");
        for (int a = 0; a < m.nA; a++) {
          outcome_prob_vector opv;
          y->so.problem->getOutcomeProbVector(opv, states[i], a);
          MDPQEntry &Qa = nd[i]->Q[a];
          if (Qa.getNumOutcomes() != opv.size() || !(fabs(Qa.immediateReward - y->so.problem->getReward(states[i], a)) <= 1e-6)) { R.fail("expanded", "reward or number of outcomes of " + vstr(toV(states[i]))); continue; }
          for (size_t z = 0; z < opv.size(); z++) {
            MDPEdge *e = Qa.outcomes[z];
            if ((opv(z) > 1e-8 && !e) || (e && !(fabs(e->obsProb - opv(z)) <= 1e-7))) { R.fail("expanded", "outcome probability"); continue; }
            if (!e) continue;
            state_vector sp;
            if (opv(z) > 1e-3) { y->so.problem->getNextState(sp, states[i], a, z); if (!nearC(e->nextState->s, sp, 1e-6)) R.fail("expanded", "successor " + vstr(toV(e->nextState->s)) + " expected " + vstr(toV(sp))); }
          }
        }
      }
    }
    R.count("states", n);
    delete bp.lookup;
  }
  R.count("tables");
}

void mc_enumerate(Run &R) {
  vector<Model> ms;
  family2(ms, 0);
  family3(ms, 0);
  familyMDP(ms, 0);
  { vector<Model> w; familyWide(w, R.thorough ? 1 : 0); for (auto &m : w) R.run([&] { return m.name + "\n" + m.text(); }, [&] { checkView(R, m, R.thorough ? 3 : 2); }); }
  for (size_t i = 0; i < ms.size(); i += R.thorough ? 4 : 11)
    R.run([&] { return ms[i].name + "\n" + ms[i].text(); }, [&] {
      checkView(R, ms[i], R.thorough ? 4 : 3);
      if (i % 77 == 0) R.sample(ms[i].name + ": all query sequences agree with the model");
    });
  // beliefs: grids plus all single-component perturbations of several sizes, beliefs
  // sharing supports, prefixes and values at different positions
  for (int n : {2, 3, 4}) for (const char *rep : {"", "point"}) for (int g = 1; g <= (R.thorough ? 6 : 4); g++)
    R.run([&] { return fmt("belief table n=%d grid=%d %s", n, g, rep); }, [&] {
      Model m;
      m.nS = n; m.nA = 2; m.nO = 2; m.gamma = .5;
      Mat t(n, Vec(n, 0.0)), id(n, Vec(n, 0.0)), ob(n, Vec{.5, .5});
      for (int s = 0; s < n; s++) { t[s][(s + 1) % n] = .75; t[s][s] = .25; id[s][s] = 1; if (s == 0) ob[s] = {1, 0}; }
      m.T = {t, id}; m.O = {ob, ob};
      m.R.assign(2, Vec(n, 0.0)); m.R[0][0] = 1; m.R[1][n - 1] = 2;
      m.b0.assign(n, 1.0 / n);
      vector<cvector> st;
      for (auto &b : gridBeliefs(n, g)) {
        st.push_back(toC(b));
        for (double e : {1e-3, 1e-7, 5e-9, 3e-10}) for (int i = 0; i < n; i++) {
          int j = (i + 1) % n;
          if (b[i] < e) continue;
          Vec c = b; c[i] -= e; c[j] += e;
          st.push_back(toC(c));
        }
      }
      st.push_back(st[0]);
      checkTable(R, m, st, rep);
    });
  // many indices: corner beliefs and index states of larger models
  for (int n : {12, 101, R.thorough ? 1100 : 205})
    for (int kind = 0; kind < 2; kind++)
      R.run([&] { return fmt("index table n=%d kind=%d", n, kind); }, [&] {
        Model m;
        m.nS = n; m.nA = 2; m.gamma = .5;
        Mat t(n, Vec(n, 0.0)), u(n, Vec(n, 0.0));
        for (int s = 0; s < n; s++) { t[s][(s + 1) % n] = 1; u[s][s] = .5; u[s][(s + 10) % n] += .5; }
        m.T = {t, u};
        m.R.assign(2, Vec(n, 0.0)); m.R[0][0] = 1; m.R[1][1] = -1;
        if (kind) { m.nO = 1; m.O = {Mat(n, Vec{1}), Mat(n, Vec{1})}; }
        m.b0.assign(n, 0.0); m.b0[0] = 1;
        vector<cvector> st;
        for (int s = 0; s < n; s++) { if (kind) { Vec b(n, 0.0); b[s] = 1; st.push_back(toC(b)); } else st.push_back(mdpState(s)); }
        if (kind) for (int s = 0; s + 1 < n; s += 3) { Vec b(n, 0.0); b[s] = .5; b[s + 1] = .5; st.push_back(toC(b)); b[s] = .25; b[s + 1] = .75; st.push_back(toC(b)); b[s] = .75; b[s + 1] = .25; st.push_back(toC(b)); }
        checkTable(R, m, st, kind ? "point" : "");
      });
  // ---- keys: distinct vectors have distinct keys, whatever was keyed before
  for (int len = 1; len <= 3; len++)
    R.run([&] { return fmt("keys len=%d", len); }, [&] {
      // components: beliefs, negative and larger numbers, as other models use them
      Vec al = {0, 1, .5, 1e-8, 1 - 1e-8, -1, 12, 99999, -7.25, .333333333, -12345, 1e6, 1234567, -123456.5, -123456.25};
      vector<Vec> vs;
      for (int L = 1; L <= len; L++) {
        int tot = (int)pow(al.size(), L);
        for (int c = 0; c < tot; c++) { Vec v(L); for (int i = 0, k = c; i < L; i++, k /= al.size()) v[i] = al[k % al.size()]; vs.push_back(v); }
      }
      std::map<string, size_t> kd, kc;
      for (int pass = 0; pass < 2; pass++)
        for (size_t i = 0; i < vs.size(); i++) {
          dvector d; d.resize(vs[i].size());
          for (size_t j = 0; j < vs[i].size(); j++) d(j) = vs[i][j];
          string hd = MatrixUtils::hashable(d), hc = MatrixUtils::hashable(toC(vs[i]));
          auto a = kd.insert({hd, i});
          if (a.first->second != i) R.fail("key-collision", "dense " + vstr(vs[i]) + " and " + vstr(vs[a.first->second]) + ": '" + hd + "'");
          if (pass && a.second) R.fail("key-unstable", "dense " + vstr(vs[i]));
          // compressed: trailing absent entries are not part of the state
          bool trail = vs[i].back() == 0;
          if (trail) continue;
          auto b = kc.insert({hc, i});
          if (b.first->second != i) R.fail("key-collision", "compressed " + vstr(vs[i]) + " and " + vstr(vs[b.first->second]) + ": '" + hc + "'");
          if (pass && b.second) R.fail("key-unstable", "compressed " + vstr(vs[i]));
          R.count("keys");
        }
    });
  // sparse vectors of many states: the numbers of the states are part of the key
  R.run([&] { return string("keys of large indices"); }, [&] {
    vector<int> ix = {0, 5, 9, 10, 99, 1000, 99999, 100000, 999999, 1000000, 1000001, 1000002, 9999999, 12345678, 123456789, 123456790};
    vector<double> val = {.5, .25, 1, 1e6, -12345};
    std::map<string, string> seen;
    for (int pass = 0; pass < 2; pass++) {
      auto one = [&](const vector<std::pair<int, double>> &e) {
        cvector c; c.resize(200000000);
        string name;
        for (auto &x : e) { c.push_back(x.first, x.second); name += fmt("%d:%.17g ", x.first, x.second); }
        string k = MatrixUtils::hashable(c);
        auto a = seen.insert({k, name});
        if (a.first->second != name) R.fail("key-collision", name + " and " + a.first->second + ": '" + k + "'");
        if (pass && a.second) R.fail("key-unstable", name);
        R.count("keys");
      };
      for (size_t i = 0; i < ix.size(); i++) for (double u : val) {
        one({{ix[i], u}});
        for (size_t j = i + 1; j < ix.size(); j++) for (double w : val) {
          one({{ix[i], u}, {ix[j], w}});
          for (size_t k = j + 1; k < ix.size(); k++) one({{ix[i], u}, {ix[j], w}, {ix[k], .125}});
        }
      }
    }
  });
}
