// prune.cc - P07: what adding and pruning elements does to the bound they represent.
// The real MaxPlanesLowerBound / SawtoothUpperBound are driven with every sequence of
// elements over an alphabet; the reference keeps every element ever added.
#include "zm.h"
#include "MaxPlanesLowerBound.h"
#include "SawtoothUpperBound.h"
#include "Pomdp.h"
using namespace mc;

struct RefPlane { Vec v; unsigned mask; };          // value per state, defined states
struct RefPoint { Vec b; double v; };
static unsigned support(const Vec &b) { unsigned m = 0; for (size_t i = 0; i < b.size(); i++) if (b[i] != 0) m |= 1u << i; return m; }
static double dot(const Vec &a, const Vec &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }

static LBPlane *mkPlane(const RefPlane &p, int action, int born) {
  int n = p.v.size();
  cvector al;
  mvector mk;
  al.resize(n);
  mk.resize(n);
  for (int i = 0; i < n; i++) if (p.mask >> i & 1) { if (p.v[i] != 0) al.push_back(i, p.v[i]); mk.push_back(i, 1.0); }
  LBPlane *l = new LBPlane(al, action, mk);
  l->numBackupsAtCreation = born;
  return l;
}
static Model plainModel(int n) {
  Model m;
  m.name = fmt("plain%d", n);
  m.nS = n; m.nA = 2; m.nO = 1; m.gamma = .9;
  m.T.assign(2, constRows(n, Vec(n, 0)));
  for (int a = 0; a < 2; a++) for (int s = 0; s < n; s++) m.T[a][s][s] = 1;
  m.O.assign(2, Mat(n, Vec(1, 1.0)));
  m.R.assign(2, Vec(n, 0.0));
  m.R[0][0] = 1;
  m.b0 = Vec(n, 1.0 / n);
  return m;
}
static Sys *theSys(Run &R, int n) {
  static std::map<int, Sys *> c;
  if (!c.count(n)) { string fn = fmt("pl%d_%d.pomdp", n, R.shard); plainModel(n).write(fn); c[n] = makeSys(fn, Opts{{"searchStrategy", "hsvi"}}); c[n]->so.bounds->getRootNode(); }
  return c[n];
}

static const double TOL = 1.5e-9;
// refs: every plane added so far.  born: value of the backup counter when added
struct PlaneRun {
  Run &R;
  Sys *y;
  ZMDPConfig *cfg;
  MaxPlanesLowerBound *lb;
  vector<RefPlane> ref;
  const vector<Vec> &grid;
  bool masking;
  int n;
  PlaneRun(Run &_R, Sys *_y, ZMDPConfig *c, bool mk, int _n, const vector<Vec> &g) : R(_R), y(_y), cfg(c), grid(g), masking(mk), n(_n) {
    lb = new MaxPlanesLowerBound(y->so.problem, cfg);
    lb->core = y->so.bounds;
    y->so.bounds->numBackups = 0;
    add({Vec(n, -10.0), (1u << n) - 1}, 0);
  }
  ~PlaneRun() { delete lb; }
  LBPlane *add(RefPlane p, int born) {
    if (!masking) { for (int i = 0; i < n; i++) if (!(p.mask >> i & 1)) p.v[i] = 0; }
    ref.push_back(p);
    LBPlane *l = mkPlane(p, 0, born);
    lb->addLBPlane(l);
    return l;
  }
  double model(const Vec &b) {
    double m = -1e300;
    unsigned s = support(b);
    for (auto &p : ref) if (!masking || !(s & ~p.mask)) m = std::max(m, dot(p.v, b));
    return m;
  }
  bool check(string &why) {
    for (auto &b : grid) {
      double g = lb->getValue(toC(b), NULL), w = model(b);
      R.count("transitions");
      if (!(fabs(g - w) <= TOL)) { why = fmt("at %s the bound is %.12g, the planes added give %.12g", vstr(b).c_str(), g, w); return false; }
    }
    return true;
  }
};
static string pstr(const RefPlane &p) {
  string s = "[";
  for (size_t i = 0; i < p.v.size(); i++) s += (i ? " " : "") + (p.mask >> i & 1 ? fmt("%.10g", p.v[i]) : string("-"));
  return s + "]";
}
static vector<RefPlane> planeAlphabet(int n, const Vec &vals, bool masks) {
  vector<RefPlane> out;
  int k = vals.size();
  for (unsigned mk = 1; mk < (1u << n); mk++) {
    if (!masks && mk != (1u << n) - 1) continue;
    int c = __builtin_popcount(mk), tot = 1;
    for (int i = 0; i < c; i++) tot *= k;
    for (int code = 0; code < tot; code++) {
      RefPlane p; p.v.assign(n, 0); p.mask = mk;
      int x = code;
      for (int i = 0; i < n; i++) if (mk >> i & 1) { p.v[i] = vals[x % k]; x /= k; }
      out.push_back(p);
    }
  }
  return out;
}
static ZMDPConfig *planeCfg(bool mk, bool sl, bool cache, bool extra) {
  return makeConfig(Opts{{"useMaxPlanesMasking", mk ? "1" : "0"}, {"useMaxPlanesSupportList", sl ? "1" : "0"},
                         {"useMaxPlanesCache", cache ? "1" : "0"}, {"useMaxPlanesExtraPruning", extra ? "1" : "0"}});
}
// every sequence of `len` planes starting with plane `first`, pruning or not after each
static void planeSequences(Run &R, int n, const vector<RefPlane> &al, int first, int len, bool mk, bool sl) {
  Sys *y = theSys(R, n);
  ZMDPConfig *cfg = planeCfg(mk, sl, false, false);
  vector<Vec> grid = gridBeliefs(n, n == 2 ? 6 : 3);
  int A = al.size(), tot = 1;
  for (int i = 1; i < len; i++) tot *= A;
  for (int code = 0; code < tot; code++) {
    vector<int> seq = {first};
    for (int i = 1, x = code; i < len; i++) { seq.push_back(x % A); x /= A; }
    for (int pr = 0; pr < (1 << (len - 1)); pr++) {
      PlaneRun r(R, y, cfg, mk, n, grid);
      string why;
      bool ok = true;
      for (int i = 0; i < len && ok; i++) {
        y->so.bounds->numBackups = i + 1;
        r.add(al[seq[i]], i + 1);
        bool prune = i == len - 1 || (pr >> i & 1);
        if (prune) { if (pr == 0) ok = r.check(why); r.lb->prunePlanes(i + 1); ok = ok && r.check(why); R.count("prunes"); }
      }
      R.count("sequences");
      R.outcome(mix(r.lb->planes.size(), mix(hdbl(r.lb->getValue(toC(grid[grid.size() / 2]), NULL)), r.lb->planes.front()->mask.filled())));
      if (!ok) {
        string d;
        for (int i = 0; i < len; i++) d += pstr(al[seq[i]]) + (i == len - 1 || (pr >> i & 1) ? " prune " : " ");
        R.fail("planes", fmt("masking=%d supportList=%d: %s: %s", mk, sl, d.c_str(), why.c_str()));
        return;
      }
    }
  }
}
// the cache and extra pruning: planes belong to states.  Every sequence of updates of
// `k` states with planes from the alphabet, pruning after any of them.
static void nodeSequences(Run &R, int n, const vector<Vec> &states, const vector<RefPlane> &al, int first, int len, bool mk, bool extra) {
  Sys *y = theSys(R, n);
  ZMDPConfig *cfg = planeCfg(mk, mk, true, extra);
  vector<Vec> grid = gridBeliefs(n, n == 2 ? 6 : 3);
  int A = al.size() * states.size(), tot = 1;
  for (int i = 1; i < len; i++) tot *= A;
  for (int code = 0; code < tot; code++) {
    vector<int> seq = {first};
    for (int i = 1, x = code; i < len; i++) { seq.push_back(x % A); x /= A; }
    for (int pr = 0; pr < (1 << (len - 1)); pr++) {
      PlaneRun r(R, y, cfg, mk, n, grid);
      vector<MDPNode> nodes(states.size());
      Vec best(states.size());
      for (size_t k = 0; k < states.size(); k++) { nodes[k].s = toC(states[k]); nodes[k].isTerminal = false; r.lb->initNodeBound(nodes[k]); best[k] = nodes[k].lbVal; }
      string why;
      bool ok = true;
      auto checkNodes = [&]() {
        for (size_t k = 0; k < nodes.size() && ok; k++) {
          double v = r.lb->getValue(nodes[k].s, NULL);
          double c = dot(toV(r.lb->getPlaneForNode(nodes[k]).alpha), states[k]);
          double top = r.model(states[k]);
          R.count("transitions");
          if (nodes[k].lbVal < best[k] - TOL) { ok = false; why = fmt("stored bound of %s fell from %.12g to %.12g", vstr(states[k]).c_str(), best[k], nodes[k].lbVal); }
          best[k] = nodes[k].lbVal;
          if (v < best[k] - TOL) { ok = false; why = fmt("stored bound of %s is %.12g but the planes only give %.12g", vstr(states[k]).c_str(), best[k], v); }
          else if (c < best[k] - TOL) { ok = false; why = fmt("stored bound of %s is %.12g but its own plane only gives %.12g", vstr(states[k]).c_str(), best[k], c); }
          else if (v > top + TOL || c > top + TOL) { ok = false; why = fmt("at %s the bound is %.12g/%.12g, no plane ever gave more than %.12g", vstr(states[k]).c_str(), v, c, top); }
        }
        if (!extra && ok) ok = r.check(why);
        else if (ok) for (auto &b : grid) {
          // extra pruning may lose planes no state relies on; what is left must be planes
          if (mk && support(b) != (1u << n) - 1) { bool any = false; for (auto &s : states) any |= support(s) == support(b); if (!any) continue; }
          double g = r.lb->getValue(toC(b), NULL);
          if (!(g <= r.model(b) + TOL)) { ok = false; why = fmt("at %s the bound is %.12g, no plane ever gave more than %.12g", vstr(b).c_str(), g, r.model(b)); }
        }
      };
      for (int i = 0; i < len && ok; i++) {
        y->so.bounds->numBackups = i + 1;
        int k = seq[i] % states.size();
        RefPlane p = al[seq[i] / states.size()];
        p.mask = mk ? support(states[k]) : (1u << n) - 1;
        // as update() does
        for (int q = 0; q < n; q++) if (!(p.mask >> q & 1)) p.v[q] = 0;
        LBPlane *l = mkPlane(p, 0, i + 1);
        if (!mk) l->mask = mvector();
        r.lb->setPlaneForNode(nodes[k], l);
        r.ref.push_back(p);
        r.lb->addLBPlane(l);
        if (i == len - 1 || (pr >> i & 1)) { r.lb->prunePlanes(i + 1); R.count("prunes"); }
        checkNodes();
      }
      for (auto &nd : nodes) nd.boundsData = NULL;
      R.count("sequences");
      R.outcome(mix(r.lb->planes.size(), hdbl(best[0])));
      if (!ok) {
        string d;
        for (int i = 0; i < len; i++) d += fmt("state %d ", (int)(seq[i] % states.size())) + pstr(al[seq[i] / states.size()]) + (i == len - 1 || (pr >> i & 1) ? " prune " : " ");
        R.fail(extra ? "planes-extra" : "planes-cache", fmt("masking=%d: %s: %s", mk, d.c_str(), why.c_str()));
        return;
      }
    }
  }
}
// many planes through the automatic threshold
static void planeThreshold(Run &R, int n, int total, int stepMul, bool mk, bool sl) {
  Sys *y = theSys(R, n);
  ZMDPConfig *cfg = planeCfg(mk, sl, false, false);
  vector<Vec> grid = gridBeliefs(n, n == 2 ? 12 : 4);
  vector<RefPlane> pool;
  for (auto &c : grid) {
    // tangent of a convex function at c, on c's support, and a slightly lower copy
    RefPlane p; p.v.assign(n, 0); p.mask = support(c);
    for (int i = 0; i < n; i++) p.v[i] = 2 * c[i] - dot(c, c);
    pool.push_back(p);
    for (double d : {0., 5e-11, 1e-3}) { RefPlane q = p; q.mask = (1u << n) - 1; for (double &x : q.v) x -= d; pool.push_back(q); }
  }
  PlaneRun r(R, y, cfg, mk, n, grid);
  string why;
  size_t prev = 0;
  for (int i = 0; i < total; i++) {
    y->so.bounds->numBackups = i + 1;
    r.add(pool[(i * stepMul) % pool.size()], i + 1);
    r.lb->maybePrune(i + 1);
    if (r.lb->planes.size() < prev) R.count("prunes");
    prev = r.lb->planes.size();
    if (!r.check(why)) { R.fail("planes-threshold", fmt("masking=%d supportList=%d: step %d (multiplier %d): %s", mk, sl, i, stepMul, why.c_str())); return; }
  }
  R.count("sequences");
  R.outcome(mix(prev, total));
}

// ---------------------------------------------------------------- sawtooth
struct PointRun {
  Run &R;
  SawtoothUpperBound *ub;
  vector<RefPoint> ref;
  Vec corner;
  const vector<Vec> &grid;
  bool list;
  PointRun(Run &_R, Sys *y, ZMDPConfig *cfg, bool l, int n, const vector<Vec> &g) : R(_R), grid(g), list(l) {
    ub = new SawtoothUpperBound(y->so.problem, cfg);
    ub->core = y->so.bounds;
    corner.assign(n, 1.0);
    ub->cornerPts.resize(n);
    for (int i = 0; i < n; i++) ub->cornerPts(i) = 1.0;
  }
  ~PointRun() { delete ub; }
  void add(const RefPoint &p, int born) {
    BVPair *bv = new BVPair(toC(p.b), p.v);
    bv->numBackupsAtCreation = born;
    ub->addPoint(bv);
    unsigned s = support(p.b);
    if (!(s & (s - 1))) { int i = __builtin_ctz(s); corner[i] = std::min(corner[i], p.v); }
    else ref.push_back(p);
  }
  double model(const Vec &b, bool useList) {
    double c = dot(corner, b), m = c;
    unsigned s = support(b), f = s & -s;
    for (auto &p : ref) {
      unsigned t = support(p.b);
      if (t & ~s) continue;
      if (useList && !(t & f)) continue;
      double cc = dot(corner, p.b);
      if (cc <= p.v) continue;
      double r = 1e300;
      for (size_t i = 0; i < b.size(); i++) if (p.b[i] != 0) r = std::min(r, b[i] / p.b[i]);
      m = std::min(m, c + r * (p.v - cc));
    }
    return m;
  }
  bool check(string &why) {
    for (auto &b : grid) {
      R.count("transitions");
      double g = ub->getValue(toC(b), NULL), lo = model(b, false), hi = model(b, list);
      // the list of points by state is a filter: between the two
      if (!(g >= lo - TOL && g <= hi + TOL)) { why = fmt("at %s the bound is %.12g, the points added give [%.12g,%.12g]", vstr(b).c_str(), g, lo, hi); return false; }
    }
    return true;
  }
};
static void pointSequences(Run &R, int n, const vector<RefPoint> &al, int first, int len, bool list) {
  Sys *y = theSys(R, n);
  ZMDPConfig *cfg = makeConfig(Opts{{"useSawtoothSupportList", list ? "1" : "0"}});
  vector<Vec> grid = gridBeliefs(n, n == 2 ? 8 : 4);
  int A = al.size(), tot = 1;
  for (int i = 1; i < len; i++) tot *= A;
  for (int code = 0; code < tot; code++) {
    vector<int> seq = {first};
    for (int i = 1, x = code; i < len; i++) { seq.push_back(x % A); x /= A; }
    for (int pr = 0; pr < (1 << (len - 1)); pr++) {
      PointRun r(R, y, cfg, list, n, grid);
      string why;
      bool ok = true;
      for (int i = 0; i < len && ok; i++) {
        y->so.bounds->numBackups = i + 1;
        r.add(al[seq[i]], i + 1);
        if (i == len - 1 || (pr >> i & 1)) { if (pr == 0) ok = r.check(why); r.ub->prune(i + 1); ok = ok && r.check(why); R.count("prunes"); }
      }
      R.count("sequences");
      R.outcome(mix(r.ub->pts.size(), hdbl(r.ub->getValue(toC(grid[grid.size() / 2]), NULL))));
      if (!ok) {
        string d;
        for (int i = 0; i < len; i++) d += vstr(al[seq[i]].b) + fmt("=>%.10g", al[seq[i]].v) + (i == len - 1 || (pr >> i & 1) ? " prune " : " ");
        R.fail("points", fmt("list=%d: %s: %s", list, d.c_str(), why.c_str()));
        return;
      }
    }
  }
}
static void pointThreshold(Run &R, int n, int total, int stepMul, bool list) {
  Sys *y = theSys(R, n);
  ZMDPConfig *cfg = makeConfig(Opts{{"useSawtoothSupportList", list ? "1" : "0"}});
  vector<Vec> grid = gridBeliefs(n, n == 2 ? 12 : 4);
  PointRun r(R, y, cfg, list, n, grid);
  string why;
  size_t prev = 0;
  for (int i = 0; i < total; i++) {
    const Vec &b = grid[(i * stepMul) % grid.size()];
    // sinks slowly towards a convex function
    double v = dot(b, b) + 1.0 / (2 + i / 5);
    y->so.bounds->numBackups = i + 1;
    r.add({b, v}, i + 1);
    r.ub->maybePrune(i + 1);
    if (r.ub->pts.size() < prev) R.count("prunes");
    prev = r.ub->pts.size();
    if (!r.check(why)) { R.fail("points-threshold", fmt("list=%d: step %d (multiplier %d): %s", list, i, stepMul, why.c_str())); return; }
  }
  R.count("sequences");
}

// ---------------------------------------- pruning inside the planner, at any time
static void plannerPruning(Run &R, const Model &m, const Opts &o, bool extra) {
  string fn = fmt("pp%d.pomdp", R.shard);
  m.write(fn);
  Sys *y = makeSys(fn, o);
  BoundPair &bp = *y->so.bounds;
  bp.getRootNode();
  MaxPlanesLowerBound *lb = (MaxPlanesLowerBound *)bp.lowerBound;
  SawtoothUpperBound *ub = (SawtoothUpperBound *)bp.upperBound;
  vector<Vec> grid = gridBeliefs(m.nS, m.nS == 2 ? 12 : m.nS == 3 ? 6 : 2);
  double tol = 3e-9 * std::max(1.0, m.span());
  bool sameState = false;
  for (int t = 0; t < 12; t++) {
    bool done = y->so.solver->planFixedTime(y->so.problem->getInitialState(), -1, 1e-6);
    for (auto it = bp.lookup->begin(); it != bp.lookup->end(); ++it) for (auto &e : it->second->s.data) if (e.value > 0 && e.value < 2e-6) return;
    vector<double> l, u, nl, nu;
    vector<cvector> q;
    for (auto &b : grid) q.push_back(toC(b));
    vector<MDPNode *> nodes;
    for (auto it = bp.lookup->begin(); it != bp.lookup->end(); ++it) nodes.push_back(it->second);
    for (auto &c : q) { l.push_back(lb->getValue(c, NULL)); u.push_back(ub->getValue(c, NULL)); }
    for (auto n : nodes) { nl.push_back(lb->getValue(n->s, NULL)); nu.push_back(ub->getValue(n->s, NULL)); }
    size_t np = lb->planes.size(), nq = ub->pts.size();
    lb->lastPruneNumBackups = -1;     // compare everything with everything
    ub->lastPruneNumBackups = -1;
    lb->prunePlanes(bp.numBackups);
    ub->prune(bp.numBackups);
    R.count("prunes", 2);
    R.count("removed", np - lb->planes.size() + nq - ub->pts.size());
    for (size_t i = 0; i < q.size(); i++) {
      R.count("transitions", 2);
      double g = ub->getValue(q[i], NULL);
      if (fabs(g - u[i]) > tol) { R.fail("planner-points", fmt("%s trial %d: upper bound at %s %.12g before pruning, %.12g after", optStr(o).c_str(), t, vstr(grid[i]).c_str(), u[i], g)); return; }
      if (extra) continue;
      g = lb->getValue(q[i], NULL);
      if (fabs(g - l[i]) > tol) { R.fail("planner-planes", fmt("%s trial %d: lower bound at %s %.12g before pruning, %.12g after", optStr(o).c_str(), t, vstr(grid[i]).c_str(), l[i], g)); return; }
    }
    for (size_t i = 0; i < nodes.size(); i++) {
      R.count("transitions", 2);
      double g = lb->getValue(nodes[i]->s, NULL);
      // a state the planner knows keeps at least its stored bound
      double keep = extra ? nodes[i]->lbVal : nl[i];
      if (g < keep - tol || g > nl[i] + tol) { R.fail(extra ? "planner-planes-extra" : "planner-planes", fmt("%s trial %d: lower bound at known state %s: %.12g before, %.12g after, stored %.12g", optStr(o).c_str(), t, vstr(toV(nodes[i]->s)).c_str(), nl[i], g, nodes[i]->lbVal)); return; }
      g = ub->getValue(nodes[i]->s, NULL);
      if (fabs(g - nu[i]) > tol) { R.fail("planner-points", fmt("%s trial %d: upper bound at known state %.12g before, %.12g after", optStr(o).c_str(), t, nu[i], g)); return; }
    }
    R.count("states");
    R.outcome(mix(np, mix(lb->planes.size(), ub->pts.size())));
    if (done) break;
  }
  (void)sameState;
  delete bp.lookup;
}

void mc_enumerate(Run &R) {
  bool th = R.thorough;
  // planes, two states
  {
    Vec v2 = th ? Vec{0, 1, 1 + 5e-11, 1 + 3e-9, 1.01, -1} : Vec{0, 1, 1 + 5e-11, 1 + 3e-9};
    Vec v3 = th ? Vec{0, 1, 1 + 3e-9} : Vec{0, 1};
    for (int n = 2; n <= 3; n++) for (int mode = 0; mode < 3; mode++) {
      bool mk = mode > 0, sl = mode == 2;
      vector<RefPlane> al = planeAlphabet(n, n == 2 ? v2 : v3, mk);
      for (int f = 0; f < (int)al.size(); f++)
        R.run([&] { return fmt("all sequences of 3 planes starting with %s, %d states, masking=%d supportList=%d", pstr(al[f]).c_str(), n, mk, sl); },
              [&] { planeSequences(R, n, al, f, 3, mk, sl); if (f == 5) R.sample(fmt("all sequences of 3 planes starting with %s, masking=%d", pstr(al[f]).c_str(), mk)); });
    }
    vector<RefPlane> small = planeAlphabet(2, Vec{0, 1}, true);
    for (int f = 0; f < (int)small.size(); f++) for (int sl = 0; sl < 2; sl++)
      R.run([&] { return fmt("all sequences of %d planes starting with %s", th ? 5 : 4, pstr(small[f]).c_str()); }, [&] { planeSequences(R, 2, small, f, th ? 5 : 4, true, sl); });
  }
  // states with their planes
  {
    vector<Vec> st = {{.5, .5}, {.25, .75}, {1, 0}};
    vector<RefPlane> al = planeAlphabet(2, Vec{0, 1, 1 + 5e-11, .5}, false);
    for (int mk = 0; mk < 2; mk++) for (int ex = 0; ex < 2; ex++) for (int f = 0; f < (int)(al.size() * st.size()); f++) {
      if (!th && f % 2) continue;
      R.run([&] { return fmt("all sequences of 3 updates of 3 states, first %d, masking=%d extra=%d", f, mk, ex); }, [&] { nodeSequences(R, 2, st, al, f, 3, mk, ex); });
    }
    vector<Vec> st3 = {{.25, .25, .5}, {.5, .5, 0}, {0, 0, 1}};
    vector<RefPlane> al3 = planeAlphabet(3, Vec{0, 1}, false);
    for (int mk = 0; mk < 2; mk++) for (int ex = 0; ex < 2; ex++) for (int f = 0; f < (int)(al3.size() * st3.size()); f++)
      R.run([&] { return fmt("all sequences of %d updates of 3 three-state beliefs, first %d, masking=%d extra=%d", th ? 4 : 3, f, mk, ex); }, [&] { nodeSequences(R, 3, st3, al3, f, th ? 4 : 3, mk, ex); });
    if (th) {
      vector<RefPlane> as = planeAlphabet(2, Vec{0, 1}, false);
      for (int mk = 0; mk < 2; mk++) for (int ex = 0; ex < 2; ex++) for (int f = 0; f < (int)(as.size() * st.size()); f++)
        R.run([&] { return fmt("all sequences of 5 updates, first %d, masking=%d extra=%d", f, mk, ex); }, [&] { nodeSequences(R, 2, st, as, f, 5, mk, ex); });
    }
  }
  for (int n = 2; n <= 3; n++) for (int mul : {1, 3, 5, 7, 11, 13}) for (int total : {25, 60, 150}) for (int mode = 0; mode < 3; mode++)
    R.run([&] { return fmt("%d planes in order x%d, pruned when the threshold is crossed, %d states, mode %d", total, mul, n, mode); }, [&] { planeThreshold(R, n, total, mul, mode > 0, mode == 2); });
  // points
  {
    vector<RefPoint> a2, a3;
    for (double p : {.25, .5, .75}) for (double v : (th ? Vec{0, .5, .5 + 5e-11, .5 + 3e-9, 1.5} : Vec{0, .5, .5 + 3e-9, 1.5})) a2.push_back({{p, 1 - p}, v});
    for (int i = 0; i < 2; i++) for (double v : {0., .75, 2.}) { Vec b(2, 0.0); b[i] = 1; a2.push_back({b, v}); }
    a2.push_back({{.125, .875}, .5}); a2.push_back({{.375, .625}, .25});
    vector<Vec> b3 = {{.25, .25, .5}, {.5, .25, .25}, {.5, .5, 0}, {.25, .75, 0}, {0, .5, .5}, {.5, 0, .5}, {1, 0, 0}, {0, 0, 1}};
    for (auto &b : b3) for (double v : {0.25, .6}) a3.push_back({b, v});
    if (th) for (auto &b : b3) a3.push_back({b, 0.6 + 3e-9});
    for (int l = 0; l < 2; l++) {
      for (int f = 0; f < (int)a2.size(); f++) R.run([&] { return fmt("all sequences of %d points starting with %s=>%g, list=%d", th ? 4 : 3, vstr(a2[f].b).c_str(), a2[f].v, l); }, [&] { pointSequences(R, 2, a2, f, th ? 4 : 3, l); });
      for (int f = 0; f < (int)a3.size(); f++) R.run([&] { return fmt("all sequences of %d points starting with %s=>%g, list=%d", th ? 4 : 3, vstr(a3[f].b).c_str(), a3[f].v, l); }, [&] { pointSequences(R, 3, a3, f, th ? 4 : 3, l); if (f == 3) R.sample(fmt("all sequences of points starting with %s", vstr(a3[f].b).c_str())); });
    }
  }
  for (int n = 2; n <= 3; n++) for (int mul : {1, 2, 3, 5, 7}) for (int total : {25, 60, 150}) for (int l = 0; l < 2; l++)
    R.run([&] { return fmt("%d points in order x%d, %d states, list=%d", total, mul, n, l); }, [&] { pointThreshold(R, n, total, mul, l); });
  // inside the planner
  vector<Model> ms;
  family2(ms, 0);
  family3(ms, 0);
  familyCorridor(ms, 0);
  { vector<Model> w; familyWide(w, th ? 1 : 0); for (auto &m : w) if (m.nO) ms.push_back(m); }
  vector<Opts> lbs;
  for (int k = 0; k < 9; k++) lbs.push_back({{"useMaxPlanesMasking", k / 3 ? "1" : "0"}, {"useMaxPlanesSupportList", k / 3 == 2 ? "1" : "0"}, {"useMaxPlanesCache", k % 3 ? "1" : "0"}, {"useMaxPlanesExtraPruning", k % 3 == 2 ? "1" : "0"}});
  for (size_t i = 0; i < ms.size(); i += th ? 1 : 3)
    R.run([&] { return ms[i].name + "\n" + ms[i].text(); }, [&] {
      for (int k = 0; k < 9; k++) {
        if (!th && (k + i) % 3) continue;
        Opts o = lbs[k];
        o["searchStrategy"] = k & 1 ? "frtdp" : "hsvi";
        o["lowerBoundRepresentation"] = "convex";
        o["upperBoundRepresentation"] = "sawtooth";
        o["useSawtoothSupportList"] = (i + k) & 2 ? "1" : "0";
        plannerPruning(R, ms[i], o, k % 3 == 2);
      }
      R.count("models");
    });
}
