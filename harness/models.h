// models.h - small reference models: enumeration, text form, and an independent
// oracle for optimal values.
#ifndef MODELS_H_
#define MODELS_H_
#include <algorithm>
#include <fstream>
#include "mc.h"

namespace mc {

typedef vector<double> Vec;
typedef vector<Vec> Mat;

struct Model {
  string name;
  int nS = 0, nA = 0, nO = 0;   // nO == 0: MDP
  double unit = 1;   // scale of the rewards
  double gamma = 0.9;
  vector<Mat> T;   // T[a][s][s2]
  vector<Mat> O;   // O[a][s2][o]
  Mat R;           // R[a][s]
  Vec b0;
  int start = 0;   // MDP start state
  int maxHorizon = -1;

  string text(bool explicitRewardForms = false) const {
    std::ostringstream o;
    o.precision(17);
    o << "discount: " << gamma << "\nvalues: reward\nstates: " << nS << "\nactions: " << nA << "\n";
    if (nO) o << "observations: " << nO << "\n";
    if (nO) {
      o << "start:";
      for (double x : b0) o << " " << x;
      o << "\n";
    } else {
      o << "start: " << start << "\n";
    }
    for (int a = 0; a < nA; a++)
      for (int s = 0; s < nS; s++)
        for (int t = 0; t < nS; t++)
          if (T[a][s][t] != 0) o << "T: " << a << " : " << s << " : " << t << " " << T[a][s][t] << "\n";
    if (nO)
      for (int a = 0; a < nA; a++)
        for (int s = 0; s < nS; s++)
          for (int z = 0; z < nO; z++)
            if (O[a][s][z] != 0) o << "O: " << a << " : " << s << " : " << z << " " << O[a][s][z] << "\n";
    for (int a = 0; a < nA; a++)
      for (int s = 0; s < nS; s++)
        if (nO) o << "R: " << a << " : " << s << " : * : * " << R[a][s] << "\n";
        else o << "R: " << a << " : " << s << " : * " << R[a][s] << "\n";
    return o.str();
  }
  void write(const string &fn) const {
    FILE *f = fopen(fn.c_str(), "w");
    if (!f) abort();
    string t = text();
    fwrite(t.data(), 1, t.size(), f);
    fclose(f);
  }
  bool absorbing(int s) const {
    for (int a = 0; a < nA; a++)
      if (fabs(T[a][s][s] - 1) > 1e-10 || R[a][s] != 0) return false;
    return true;
  }
  double rmin() const { double m = 1e300; for (auto &r : R) for (double x : r) m = std::min(m, x); return m; }
  double rmax() const { double m = -1e300; for (auto &r : R) for (double x : r) m = std::max(m, x); return m; }
  double span() const {
    double k = gamma < 1 ? 1 / (1 - gamma) : maxHorizon + 1;
    return std::max(1.0, std::max(fabs(rmin()), fabs(rmax()))) * k;
  }
};

// ------------------------------------------------------------------ MDP oracle
// optimal values by value iteration to a fixed point
struct MDPOracle {
  Vec V;
  Mat Q;  // Q[a][s]
  explicit MDPOracle(const Model &m) {
    V.assign(m.nS, 0);
    double scale = std::max(1.0, std::max(fabs(m.rmin()), fabs(m.rmax())));
    for (int it = 0; it < 400000; it++) {
      double d = 0;
      Vec W(m.nS);
      Q.assign(m.nA, Vec(m.nS));
      for (int s = 0; s < m.nS; s++) {
        double best = -1e300;
        for (int a = 0; a < m.nA; a++) {
          double q = 0;
          for (int t = 0; t < m.nS; t++) q += m.T[a][s][t] * V[t];
          q = m.R[a][s] + m.gamma * q;
          Q[a][s] = q;
          best = std::max(best, q);
        }
        W[s] = best;
        d = std::max(d, fabs(W[s] - V[s]));
      }
      V = W;
      double k = m.gamma < 1 ? m.gamma / (1 - m.gamma) : 1;
      if (d * k < 1e-10 * scale) break;
      if (m.gamma >= 1 && d < 1e-12 * scale) break;
    }
  }
};

// --------------------------------------------------- exact oracle, two states
// Optimal value function of a two-state POMDP as an upper envelope of lines
// over p = b(1); exact value iteration with a convergence bound.
struct PWLC2 {
  struct L { double a0, a1; };     // value at corner 0 and corner 1
  vector<L> V;
  vector<vector<L>> Qa;            // per-action envelopes of the last backup
  double err = 0;
  static vector<L> envelope(vector<L> v) {
    std::sort(v.begin(), v.end(), [](const L &x, const L &y) {
      double sx = x.a1 - x.a0, sy = y.a1 - y.a0;
      return sx < sy || (sx == sy && x.a0 < y.a0);
    });
    vector<L> h;
    for (const L &l : v) {
      double sl = l.a1 - l.a0;
      while (!h.empty()) {
        L &t = h.back();
        double st = t.a1 - t.a0;
        if (sl - st < 1e-14) {
          if (l.a0 >= t.a0) { h.pop_back(); continue; }
          goto skip;
        }
        if (h.size() >= 2) {
          L &u = h[h.size() - 2];
          double su = u.a1 - u.a0;
          // intersection of u,t versus u,l
          double p1 = (u.a0 - t.a0) / (st - su), p2 = (u.a0 - l.a0) / (sl - su);
          if (p2 <= p1) { h.pop_back(); continue; }
        }
        break;
      }
      h.push_back(l);
    skip:;
    }
    // clip to [0,1]
    vector<L> r;
    for (size_t i = 0; i < h.size(); i++) {
      double lo = -1e300, hi = 1e300;
      if (i) lo = (h[i - 1].a0 - h[i].a0) / ((h[i].a1 - h[i].a0) - (h[i - 1].a1 - h[i - 1].a0));
      if (i + 1 < h.size()) hi = (h[i].a0 - h[i + 1].a0) / ((h[i + 1].a1 - h[i + 1].a0) - (h[i].a1 - h[i].a0));
      if (hi < 0 || lo > 1) continue;
      r.push_back(h[i]);
    }
    if (r.empty()) abort();
    return r;
  }
  static vector<L> sum(const vector<L> &x, const vector<L> &y) {
    // envelope of all pairwise sums of two envelopes: merge by breakpoints
    vector<L> r;
    size_t i = 0, j = 0;
    while (1) {
      r.push_back({x[i].a0 + y[j].a0, x[i].a1 + y[j].a1});
      double pi = 2, pj = 2;
      if (i + 1 < x.size()) pi = (x[i].a0 - x[i + 1].a0) / ((x[i + 1].a1 - x[i + 1].a0) - (x[i].a1 - x[i].a0));
      if (j + 1 < y.size()) pj = (y[j].a0 - y[j + 1].a0) / ((y[j + 1].a1 - y[j + 1].a0) - (y[j].a1 - y[j].a0));
      if (pi >= 2 && pj >= 2 && i + 1 >= x.size() && j + 1 >= y.size()) break;
      if (j + 1 >= y.size() || (i + 1 < x.size() && pi <= pj)) i++;
      else j++;
    }
    return r;
  }
  static double eval(const vector<L> &v, double p) {
    double m = -1e300;
    for (const L &l : v) m = std::max(m, l.a0 + p * (l.a1 - l.a0));
    return m;
  }
  explicit PWLC2(const Model &m, double tol = 1e-7) {
    double scale = std::max(1.0, std::max(fabs(m.rmin()), fabs(m.rmax())));
    V = {{0, 0}};
    for (int it = 0; it < 100000; it++) {
      Qa.assign(m.nA, vector<L>());
      vector<L> all;
      for (int a = 0; a < m.nA; a++) {
        vector<L> acc = {{m.R[a][0], m.R[a][1]}};
        for (int o = 0; o < m.nO; o++) {
          vector<L> g;
          for (const L &l : V) {
            double w0 = m.O[a][0][o] * l.a0, w1 = m.O[a][1][o] * l.a1;
            g.push_back({m.gamma * (m.T[a][0][0] * w0 + m.T[a][0][1] * w1),
                         m.gamma * (m.T[a][1][0] * w0 + m.T[a][1][1] * w1)});
          }
          acc = sum(acc, envelope(g));
        }
        Qa[a] = acc;
        all.insert(all.end(), acc.begin(), acc.end());
      }
      vector<L> W = envelope(all);
      // sup-norm difference, evaluated at all breakpoints of both
      double d = 0;
      auto diffAt = [&](double p) { d = std::max(d, fabs(eval(W, p) - eval(V, p))); };
      diffAt(0); diffAt(1);
      for (auto *e : {&W, &V})
        for (size_t i = 0; i + 1 < e->size(); i++) {
          double p = ((*e)[i].a0 - (*e)[i + 1].a0) /
                     (((*e)[i + 1].a1 - (*e)[i + 1].a0) - ((*e)[i].a1 - (*e)[i].a0));
          if (p > 0 && p < 1) diffAt(p);
        }
      V = W;
      double k = m.gamma / (1 - m.gamma);
      err = d * k;
      if (err < tol * scale) break;
      if (V.size() > 600) break;   // keep err as the honest tolerance
    }
  }
  double value(double p) const { return eval(V, p); }
  double q(int a, double p) const { return eval(Qa[a], p); }
};

// --------------------------------------------- interval oracle, belief graphs
// Expands the belief graph below the query beliefs up to a node limit and runs
// interval value iteration; frontier beliefs get the trivial value range.
// Closed graphs give V* to 1e-9; otherwise [lo,hi] is a sound bracket.
struct BeliefGraph {
  const Model &m;
  struct Node {
    Vec b;
    vector<vector<std::pair<double, int>>> suc;  // [a] -> (prob, node) ; empty if frontier
    Vec r;
    double lo, hi;
    bool expanded = false;
  };
  vector<Node> nodes;
  std::map<vector<int64_t>, int> index;
  bool closed = false;
  double vmin, vmax;
  explicit BeliefGraph(const Model &_m) : m(_m) {}
  int add(const Vec &b) {
    vector<int64_t> k(b.size());
    for (size_t i = 0; i < b.size(); i++) k[i] = llround(b[i] * 1e10);
    auto it = index.find(k);
    if (it != index.end()) return it->second;
    int i = nodes.size();
    index[k] = i;
    Node n;
    n.b = b;
    nodes.push_back(n);
    return i;
  }
  void solve(size_t maxNodes, double tol = 1e-9) {
    size_t i = 0;
    int nO = std::max(1, m.nO);
    for (; i < nodes.size(); i++) {
      if (nodes.size() > maxNodes) break;
      vector<vector<std::pair<double, int>>> suc(m.nA);
      Vec rr(m.nA);
      for (int a = 0; a < m.nA; a++) {
        Vec b = nodes[i].b;
        double r = 0;
        Vec pred(m.nS, 0.0);
        for (int s = 0; s < m.nS; s++) if (b[s] != 0) {
          r += b[s] * m.R[a][s];
          for (int t = 0; t < m.nS; t++) pred[t] += b[s] * m.T[a][s][t];
        }
        rr[a] = r;
        for (int o = 0; o < nO; o++) {
          Vec nb(m.nS, 0.0);
          double p = 0;
          for (int t = 0; t < m.nS; t++) { nb[t] = pred[t] * (m.nO ? m.O[a][t][o] : 1.0); p += nb[t]; }
          if (p < 1e-13) continue;
          for (double &x : nb) x /= p;
          int j = add(nb);
          suc[a].push_back({p, j});
        }
      }
      nodes[i].suc = suc;
      nodes[i].r = rr;
      nodes[i].expanded = true;
    }
    closed = i == nodes.size();
    vmin = m.rmin() / (1 - m.gamma);
    vmax = m.rmax() / (1 - m.gamma);
    // tighter frontier from the fully observable MDP
    MDPOracle mo(m);
    for (auto &n : nodes) {
      n.lo = vmin;
      n.hi = 0;
      for (int s = 0; s < m.nS; s++) n.hi += n.b[s] * mo.V[s];
      n.hi = std::min(n.hi + 1e-9, vmax);
      bool term = true;
      for (int s = 0; s < m.nS; s++) if (n.b[s] > 1e-12 && !m.absorbing(s)) term = false;
      if (term) { n.lo = n.hi = 0; }
    }
    double scale = std::max(1.0, std::max(fabs(m.rmin()), fabs(m.rmax())));
    for (int it = 0; it < 20000; it++) {
      double d = 0;
      for (size_t k = nodes.size(); k-- > 0;) {
        Node &n = nodes[k];
        if (!n.expanded) continue;
        double bl = -1e300, bh = -1e300;
        for (int a = 0; a < m.nA; a++) {
          double l = 0, h = 0;
          for (auto &e : n.suc[a]) { l += e.first * nodes[e.second].lo; h += e.first * nodes[e.second].hi; }
          bl = std::max(bl, n.r[a] + m.gamma * l);
          bh = std::max(bh, n.r[a] + m.gamma * h);
        }
        // both iterations are monotone from the trivial bounds
        bl = std::max(bl, n.lo);
        bh = std::min(bh, n.hi);
        d = std::max(d, std::max(fabs(bl - n.lo), fabs(bh - n.hi)));
        n.lo = bl;
        n.hi = bh;
      }
      if (d < tol * scale * (1 - m.gamma)) break;
    }
  }
  void q(int i, int a, double &lo, double &hi) const {
    const Node &n = nodes[i];
    lo = hi = 0;
    for (auto &e : n.suc[a]) { lo += e.first * nodes[e.second].lo; hi += e.first * nodes[e.second].hi; }
    lo = n.r[a] + m.gamma * lo;
    hi = n.r[a] + m.gamma * hi;
  }
};

// one oracle interface: bracket of V*(b) and Q*(b,a)
struct Oracle {
  const Model &m;
  PWLC2 *pw = NULL;
  BeliefGraph *bg = NULL;
  MDPOracle *mdp = NULL;
  explicit Oracle(const Model &_m, const vector<Vec> &queries, size_t maxNodes) : m(_m) {
    if (!m.nO) { mdp = new MDPOracle(m); return; }
    if (m.nS == 2) { pw = new PWLC2(m); return; }
    bg = new BeliefGraph(m);
    for (auto &b : queries) bg->add(b);
    bg->solve(maxNodes);
  }
  ~Oracle() { delete pw; delete bg; delete mdp; }
  bool exact() const { return mdp || pw || bg->closed; }
  // false if nothing is known about b beyond the trivial range
  bool value(const Vec &b, double &lo, double &hi) {
    if (mdp) {
      int k = -1;
      for (int s = 0; s < m.nS; s++) if (b[s] > 0.5) k = s;
      lo = hi = mdp->V[k];
      return true;
    }
    if (pw) { double v = pw->value(b[1]); lo = v - pw->err; hi = v + pw->err; return true; }
    vector<int64_t> k(b.size());
    for (size_t i = 0; i < b.size(); i++) k[i] = llround(b[i] * 1e10);
    auto it = bg->index.find(k);
    if (it == bg->index.end()) return false;
    lo = bg->nodes[it->second].lo;
    hi = bg->nodes[it->second].hi;
    return true;
  }
  bool q(const Vec &b, int a, double &lo, double &hi) {
    if (mdp) {
      int k = -1;
      for (int s = 0; s < m.nS; s++) if (b[s] > 0.5) k = s;
      lo = hi = mdp->Q[a][k];
      return true;
    }
    if (pw) { double v = pw->q(a, b[1]); lo = v - pw->err; hi = v + pw->err; return true; }
    vector<int64_t> k(b.size());
    for (size_t i = 0; i < b.size(); i++) k[i] = llround(b[i] * 1e10);
    auto it = bg->index.find(k);
    if (it == bg->index.end() || !bg->nodes[it->second].expanded) return false;
    bg->q(it->second, a, lo, hi);
    return true;
  }
};

// ------------------------------------------------------------- model families
inline Mat detMap(int n, const vector<int> &f) {
  Mat m(n, Vec(n, 0.0));
  for (int i = 0; i < n; i++) m[i][f[i]] = 1;
  return m;
}
inline Mat constRows(int n, const Vec &r) { return Mat(n, r); }
inline Mat mixMat(const Mat &a, const Mat &b, double w) {
  Mat m = a;
  for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[i].size(); j++) m[i][j] = (1 - w) * a[i][j] + w * b[i][j];
  return m;
}

// two-state, two-action, two-observation POMDPs from per-action alphabets
inline void family2(vector<Model> &out, int level) {
  vector<Mat> Ts = {{{1, 0}, {0, 1}}, {{.75, .25}, {.25, .75}}, {{1, 0}, {1, 0}}, {{0, 1}, {1, 0}}, {{.5, .5}, {.5, .5}}, {{.75, .25}, {0, 1}}};
  vector<Mat> Os = {{{1, 0}, {1, 0}}, {{.75, .25}, {.25, .75}}, {{1, 0}, {.5, .5}}, {{1, 0}, {0, 1}}};
  vector<Vec> Rs = {{0, 0}, {1, -2}, {-1, -1}, {0, 3}, {2, 1}};
  vector<double> Gs = {0.5, 0.9};
  vector<Vec> B0 = {{.5, .5}, {.3, .7}};
  int nT = level == 0 ? 4 : level == 1 ? 5 : 6, nO = level == 0 ? 3 : level == 1 ? 3 : 4, nR = level == 0 ? 3 : level == 1 ? 4 : 5;
  int per = nT * nO * nR;
  for (int g = 0; g < 2; g++)
    for (int x = 0; x < per; x++)
      for (int y = x; y < per; y++) {
        if (level == 0 && ((x + y) % 2)) continue;   // half of the square, alternating
        Model m;
        m.nS = m.nA = m.nO = 2;
        m.gamma = Gs[g];
        for (int c : {x, y}) {
          m.T.push_back(Ts[c % nT]);
          m.O.push_back(Os[(c / nT) % nO]);
          m.R.push_back(Rs[(c / nT / nO) % nR]);
        }
        if (m.rmin() == m.rmax()) continue;
        m.b0 = B0[(x + g) % 2];
        m.name = fmt("f2:%d/%d/%g", x, y, Gs[g]);
        out.push_back(m);
      }
}
// three-state POMDPs: deterministic or noisy maps, partition observations, a
// possible absorbing state; many have a finite belief graph
inline void family3(vector<Model> &out, int level) {
  vector<Mat> Ts = {detMap(3, {1, 2, 2}), detMap(3, {1, 2, 0}), detMap(3, {0, 0, 2}),
                    mixMat(detMap(3, {1, 2, 2}), detMap(3, {0, 1, 2}), .25), detMap(3, {0, 1, 2}), detMap(3, {2, 2, 2}), constRows(3, {.5, .5, 0})};
  vector<Mat> Os = {{{1, 0}, {1, 0}, {0, 1}}, {{1, 0}, {0, 1}, {0, 1}}, {{1, 0}, {1, 0}, {1, 0}}, {{.8, .2}, {.2, .8}, {.5, .5}}};
  vector<Vec> Rs = {{-1, -1, 0}, {0, 4, 0}, {1, -3, 0}, {0, 0, 2}};
  vector<double> Gs = {0.6, 0.95};
  vector<Vec> B0 = {{.5, .5, 0}, {1. / 3, 1. / 3, 1. / 3}, {1, 0, 0}};
  int nT = level == 0 ? 5 : 7, nO = level == 0 ? 2 : 4, nR = level == 0 ? 3 : 4;
  int per = nT * nO * nR;
  int g = 0;
  for (int x = 0; x < per; x++)
    for (int y = x + 1; y < per; y++) {
      if (level == 0 && (x * 7 + y) % 3) continue;
      if (level == 1 && (x * 7 + y) % 5) continue;
      Model m;
      m.nS = 3; m.nA = 2; m.nO = 2;
      g++;
      m.gamma = Gs[(g / 3) % 2];
      for (int c : {x, y}) {
        m.T.push_back(Ts[c % nT]);
        m.O.push_back(Os[(c / nT) % nO]);
        m.R.push_back(Rs[(c / nT / nO) % nR]);
      }
      if (m.rmin() == m.rmax()) continue;
      m.b0 = B0[g % 3];
      m.name = fmt("f3:%d/%d", x, y);
      out.push_back(m);
    }
}
// corridors of n cells (n >= 12 crosses the sparse-product density threshold):
// move left/right with slip, sense ends, goal absorbing, optional pit
inline void familyCorridor(vector<Model> &out, int level) {
  vector<int> ns = level == 0 ? vector<int>{12, 16} : vector<int>{11, 12, 14, 16, 20};
  for (int n : ns)
    for (double slip : {0.0, 0.2})
      for (int obsKind = 0; obsKind < 3; obsKind++)
        for (int pit = 0; pit < 2; pit++)
          for (double g : {0.7, 0.95}) {
            if (level == 0 && g > 0.9 && slip > 0) continue;
            Model m;
            m.nS = n; m.nA = 3; m.nO = 3; m.gamma = g;
            int goal = n - 1;
            for (int a = 0; a < 3; a++) {
              Mat t(n, Vec(n, 0.0)), o(n, Vec(3, 0.0));
              for (int s = 0; s < n; s++) {
                if (s == goal || (pit && s == 0)) { t[s][s] = 1; }
                else if (a == 2) t[s][s] = 1;
                else {
                  int d = a == 0 ? std::max(0, s - 1) : std::min(n - 1, s + 1);
                  t[s][d] += 1 - slip;
                  t[s][s] += slip;
                }
                int z = s == goal ? 2 : obsKind == 0 ? 0 : obsKind == 1 ? (s % 2) : (s < n / 2 ? 0 : 1);
                if (obsKind == 2 && z < 2) { o[s][z] = .8; o[s][1 - z] = .2; }
                else o[s][z] = 1;
              }
              m.T.push_back(t);
              m.O.push_back(o);
              Vec r(n, a == 2 ? -0.5 : -1.0);
              r[goal] = 0;
              if (pit) { r[0] = 0; if (a == 0) r[1] = -5; }
              if (a == 1) r[n - 2] = 10;
              m.R.push_back(r);
            }
            m.b0.assign(n, 0.0);
            // three or four possible start cells
            m.b0[n / 2] = .5; m.b0[n / 2 + 1] = .25; m.b0[2] = .25;
            m.name = fmt("corr:%d/%g/%d/%d/%g", n, slip, obsKind, pit, g);
            out.push_back(m);
          }
}
// MDPs (fully observable): 3 states, 2 actions
inline void familyMDP(vector<Model> &out, int level) {
  vector<Vec> rows = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {.5, .5, 0}, {0, .25, .75}, {.2, .3, .5}};
  vector<Vec> Rs = {{-1, -1, 0}, {0, 5, 0}, {2, -3, 0}, {1, 1, 1}, {-1, 0, 4}};
  int nr = level == 0 ? 5 : 6;
  vector<double> Gs = {0.5, 0.95};
  int k = 0;
  for (int p = 0; p < nr; p++) for (int q = 0; q < nr; q++) for (int r = 0; r < nr; r++) for (int s = 0; s < nr; s++)
    for (int z = 0; z < 2; z++)
      for (size_t i = 0; i < Rs.size(); i++) for (size_t j = 0; j < Rs.size(); j++) {
        k++;
        if (level == 0 && k % 29) continue;
        if (level == 1 && k % 7) continue;
        Model m;
        m.nS = 3; m.nA = 2; m.nO = 0; m.gamma = Gs[(k / 3) % 2];
        Vec last = z ? Vec{0, 0, 1} : Vec{1, 0, 0};
        m.T = {{rows[p], rows[q], last}, {rows[r], rows[s], z ? Vec{0, 0, 1} : Vec{0, 1, 0}}};
        m.R = {Rs[i], Rs[j]};
        m.start = 0;
        m.b0 = {1, 0, 0};
        if (m.rmin() == m.rmax()) continue;
        m.name = fmt("mdp:%d", k);
        out.push_back(m);
      }
}
// more actions and observations than the families above: four or five actions, four or
// five observations (or none), four or five states; beliefs stay finitely many
inline void familyWide(vector<Model> &out, int level) {
  int n0 = level == 0 ? 24 : 96;
  for (int k = 0; k < n0; k++) {
    Model m;
    m.nS = 4 + k % 2; m.nA = 4 + (k / 2) % 2; m.nO = (k % 3 == 2) ? 0 : 4 + (k / 4) % 2;
    m.gamma = (k / 3) % 2 ? 0.9 : 0.6;
    int n = m.nS;
    bool goal = k % 4 == 1;
    for (int a = 0; a < m.nA; a++) {
      vector<int> f(n), g(n);
      for (int s = 0; s < n; s++) {
        switch ((a * 3 + k) % 7) {
          case 0: f[s] = (s + 1) % n; break;
          case 1: f[s] = s; break;
          case 2: f[s] = n - 1 - s; break;
          case 3: f[s] = s / 2; break;
          case 4: f[s] = std::min(n - 1, s + 1); break;
          case 5: f[s] = k % n; break;
          default: f[s] = (s + 2) % n;
        }
        g[s] = n - 1;
        if (goal && s == n - 1) f[s] = s;
      }
      Mat t = detMap(n, f);
      if (!m.nO || goal) t = mixMat(t, detMap(n, g), goal ? 0.25 : a % 2 ? 0.5 : 0.0);
      if (goal) { t[n - 1].assign(n, 0.0); t[n - 1][n - 1] = 1; }
      m.T.push_back(t);
      if (m.nO) {
        Mat o(n, Vec(m.nO, 0.0));
        for (int s = 0; s < n; s++) switch ((a + k / 2) % 4) {
          case 0: o[s][(s + a) % m.nO] = 1; break;                          // all told apart, or nearly
          case 1: o[s][m.nO - 1] = 1; break;                                // nothing learnt
          case 2: o[s][s / 2] = .75; o[s][m.nO - 1] += .25; break;          // a partition, or nothing
          default: o[s][s == n - 1 ? m.nO - 1 : m.nO - 2] = 1;
        }
        if (goal) { for (int s = 0; s < n; s++) o[s].assign(m.nO, 0.0); for (int s = 0; s < n; s++) o[s][s == n - 1 ? m.nO - 1 : (s + a) % (m.nO - 1)] = 1; }
        m.O.push_back(o);
      }
      Vec r(n);
      for (int s = 0; s < n; s++) r[s] = goal ? (s == n - 1 ? 0 : -1 - (s + a + k) % 3) : (s * 5 + a * 7 + k * 3) % 9 - 4;
      m.R.push_back(r);
    }
    m.start = k % (n - 1);
    m.b0.assign(n, 0.0);
    if (!m.nO) m.b0[m.start] = 1;
    else if (k % 2) m.b0.assign(n, 1.0 / n);
    else { m.b0[0] = .5; m.b0[2] = .5; }
    m.name = fmt("wide:%d", k);
    out.push_back(m);
  }
}
// goal MDPs with more states and up to five successors each: the search has something to label
inline void familyGoal(vector<Model> &out, int level) {
  for (int k = 0; k < (level ? 36 : 12); k++) {
    Model m;
    int n = m.nS = 7 + k % 5;
    m.nA = 2 + k % 2; m.nO = 0;
    m.gamma = (k / 2) % 3 == 0 ? 0.95 : (k / 2) % 3 == 1 ? 0.8 : 0.5;
    for (int a = 0; a < m.nA; a++) {
      Mat t(n, Vec(n, 0.0));
      Vec r(n, 0.0);
      for (int s = 0; s + 1 < n; s++) {
        int to[5];
        switch ((a + k) % 4) {
          case 0: to[0] = s + 1; to[1] = s + 2; to[2] = s + 3; to[3] = s - 1; to[4] = s; break;
          case 1: to[0] = (s * 3 + 1) % n; to[1] = (s * 5 + k) % n; to[2] = s + 1; to[3] = n - 1; to[4] = 0; break;
          case 2: to[0] = to[1] = to[2] = s + 1; to[3] = s; to[4] = s - 2; break;
          default: to[0] = s + 2; to[1] = s + 1; to[2] = (s + 4) % n; to[3] = s - 3; to[4] = s + 2;
        }
        static const double w[5] = {.375, .25, .125, .125, .125};
        for (int i = 0; i < 5; i++) t[s][std::max(0, std::min(n - 1, to[i]))] += w[i];
        r[s] = -1 - ((s * (a + 2) + k) % 4) - a * .5;
      }
      t[n - 1][n - 1] = 1;
      m.T.push_back(t);
      m.R.push_back(r);
    }
    m.start = k % 3;
    m.b0.assign(n, 0.0);
    m.b0[m.start] = 1;
    m.name = fmt("goal:%d", k);
    out.push_back(m);
  }
}
// the same models in another unit, with all rewards moved, or with rewards turned into costs
inline void addVariants(vector<Model> &ms, int step) {
  size_t n = ms.size();
  for (size_t i = 0, k = 0; i < n; i += step, k++) {
    Model m = ms[i];
    const char *suf[] = {"*1024", "/1024", "+7", "*-1"};
    m.name += suf[k % 4];
    for (auto &r : m.R) for (double &x : r) {
      if (k % 4 == 0) x *= 1024;
      if (k % 4 == 1) x /= 1024;
      if (k % 4 == 2) x += 7;
      if (k % 4 == 3) x = x ? -x : 0;
    }
    if (k % 4 == 0) m.unit = 1024;
    if (k % 4 == 1) m.unit = 1. / 1024;
    ms.push_back(m);
  }
}
inline bool isGoalModel(const Model &m) {
  // from every state reachable from the start every policy... used for RTDP: there
  // must be a terminal state reachable with positive probability under every action
  // choice: check by least fixed point over "all actions keep a chance to progress"
  vector<int> ok(m.nS, 0);
  for (int s = 0; s < m.nS; s++) ok[s] = m.absorbing(s);
  bool ch = true;
  while (ch) {
    ch = false;
    for (int s = 0; s < m.nS; s++) if (!ok[s]) {
      bool all = true;
      for (int a = 0; a < m.nA; a++) {
        bool any = false;
        for (int t = 0; t < m.nS; t++) if (m.T[a][s][t] > 0 && ok[t]) any = true;
        all = all && any;
      }
      if (all) { ok[s] = 1; ch = true; }
    }
  }
  vector<int> reach(m.nS, 0);
  for (int s = 0; s < m.nS; s++) if (m.nO ? m.b0[s] > 0 : s == m.start) reach[s] = 1;
  ch = true;
  while (ch) {
    ch = false;
    for (int s = 0; s < m.nS; s++) if (reach[s]) for (int a = 0; a < m.nA; a++) for (int t = 0; t < m.nS; t++)
      if (m.T[a][s][t] > 0 && !reach[t]) { reach[t] = 1; ch = true; }
  }
  for (int s = 0; s < m.nS; s++) if (reach[s] && !ok[s]) return false;
  return true;
}
inline vector<Vec> gridBeliefs(int n, int step) {
  vector<Vec> r;
  vector<int> c(n, 0);
  std::function<void(int, int)> rec = [&](int i, int left) {
    if (i == n - 1) {
      c[i] = left;
      Vec b(n);
      for (int k = 0; k < n; k++) b[k] = c[k] / (double)step;
      r.push_back(b);
      return;
    }
    for (int k = 0; k <= left; k++) { c[i] = k; rec(i + 1, left - k); }
  };
  rec(0, step);
  return r;
}

}  // namespace mc
#endif
