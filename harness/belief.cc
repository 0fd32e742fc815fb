// belief.cc - P11: the belief process of the real model object against exact Bayes
// filtering on the model's dense matrices, over all models of small probability
// alphabets, all grid beliefs, and all action/observation sequences to a depth.
#include "zm.h"
#include "Pomdp.h"
using namespace mc;

struct Full : Model {
  // rewards R4[a][s][s2][o]; Model::R holds the expectation
  vector<vector<Mat>> R4;
  string text4() const {
    std::ostringstream o;
    o.precision(17);
    o << "discount: " << gamma << "\nvalues: reward\nstates: " << nS << "\nactions: " << nA << "\nobservations: " << nO << "\nstart:";
    for (double x : b0) o << " " << x;
    o << "\n";
    for (int a = 0; a < nA; a++) {
      for (int s = 0; s < nS; s++) for (int t = 0; t < nS; t++) if (T[a][s][t] != 0) o << "T: " << a << " : " << s << " : " << t << " " << T[a][s][t] << "\n";
      for (int s = 0; s < nS; s++) for (int z = 0; z < nO; z++) if (O[a][s][z] != 0) o << "O: " << a << " : " << s << " : " << z << " " << O[a][s][z] << "\n";
      for (int s = 0; s < nS; s++) {
        if (R4.empty()) o << "R: " << a << " : " << s << " : * : * " << R[a][s] << "\n";
        else for (int t = 0; t < nS; t++) for (int z = 0; z < nO; z++) o << "R: " << a << " : " << s << " : " << t << " : " << z << " " << R4[a][s][t][z] << "\n";
      }
    }
    return o.str();
  }
  void expect() {
    R.assign(nA, Vec(nS, 0.0));
    for (int a = 0; a < nA; a++) for (int s = 0; s < nS; s++) for (int t = 0; t < nS; t++) for (int z = 0; z < nO; z++)
      R[a][s] += T[a][s][t] * O[a][t][z] * R4[a][s][t][z];
  }
};

static void checkModel(Run &R, const Full &m, const vector<Vec> &beliefs, int depth) {
  string fn = fmt("b%d.pomdp", R.shard);
  { std::ofstream f(fn); f << m.text4(); }
  static ZMDPConfig *cfg = makeConfig(Opts());
  Pomdp p(fn, cfg);
  R.count("models");
  if (p.getBeliefSize() != m.nS || p.getNumActions() != m.nA || p.getNumObservations() != m.nO || p.getDiscount() != m.gamma) R.fail("shape", "sizes or discount differ");
  {
    Vec i = toV(p.getInitialBelief());
    for (int s = 0; s < m.nS; s++) if (fabs(i[s] - m.b0[s]) > 1e-10) R.fail("initial-belief", vstr(i));
  }
  vector<char> term(m.nS);
  for (int s = 0; s < m.nS; s++) { term[s] = m.absorbing(s); if (p.isTerminalState[s] != (bool)term[s]) R.fail("terminal-state", fmt("state %d: %d, expected %d", s, (int)p.isTerminalState[s], term[s])); }
  double rs = std::max(1.0, std::max(fabs(m.rmin()), fabs(m.rmax())));
  std::function<void(const Vec &, const cvector &, int)> visit = [&](const Vec &b, const cvector &cb, int d) {
    R.count("states");
    double nt = 0;
    for (int s = 0; s < m.nS; s++) if (!term[s]) nt += b[s];
    if (nt < 1e-11 || nt > 1e-9) if (p.getIsTerminalState(cb) != (nt < 1e-10)) R.fail("terminal-belief", fmt("%s: non-terminal mass %g", vstr(b).c_str(), nt));
    for (int a = 0; a < m.nA; a++) {
      double r = 0;
      Vec pred(m.nS, 0.0);
      for (int s = 0; s < m.nS; s++) if (b[s] != 0) { r += b[s] * m.R[a][s]; for (int t = 0; t < m.nS; t++) pred[t] += b[s] * m.T[a][s][t]; }
      double got = p.getReward(cb, a);
      if (!(fabs(got - r) <= 1e-9 * rs)) R.fail("reward", fmt("%s action %d: %.12g, expected %.12g", vstr(b).c_str(), a, got, r));
      obs_prob_vector opv;
      opv.resize(1);
      p.getObsProbVector(opv, cb, a);
      if ((int)opv.size() != m.nO) { R.fail("obs-prob", "size"); return; }
      outcome_prob_vector opv2;
      p.getOutcomeProbVector(opv2, cb, a);
      double tot = 0;
      for (int o = 0; o < m.nO; o++) {
        double q = 0;
        Vec nb(m.nS);
        for (int t = 0; t < m.nS; t++) { nb[t] = pred[t] * m.O[a][t][o]; q += nb[t]; }
        tot += opv(o);
        if (!(fabs(opv(o) - q) <= 1e-10 * (m.nS + 1)) || opv(o) != opv2(o)) R.fail("obs-prob", fmt("%s action %d obs %d: %.12g, expected %.12g", vstr(b).c_str(), a, o, opv(o), q));
        if (q == 0 && opv(o) != 0) R.fail("impossible-observation", fmt("%s action %d obs %d: %.12g", vstr(b).c_str(), a, o, opv(o)));
        R.outcome(mix(hdbl(q), a));
        if (q < 1e-7) continue;
        cvector nc;
        nc.resize(1); nc.push_back(0, 3);
        p.getNextBelief(nc, cb, a, o);
        R.count("transitions");
        double tol = 1e-10 * (m.nS + 2) / q + 1e-12;
        if ((int)nc.size() != m.nS) { R.fail("next-belief", "size"); return; }
        long last = -1;
        double sm = 0;
        for (auto &e : nc.data) {
          if ((long)e.index <= last || (int)e.index >= m.nS) { R.fail("next-belief", "not canonical"); return; }
          last = e.index;
          sm += e.value;
          if (!(e.value >= 0 && e.value <= 1 + 1e-9)) R.fail("next-belief", fmt("entry %g", e.value));
        }
        if (!(fabs(sm - 1) <= 1e-9)) R.fail("not-normalised", fmt("%s action %d obs %d: sum %.12g", vstr(b).c_str(), a, o, sm));
        Vec v = toV(nc);
        for (int t = 0; t < m.nS; t++) {
          nb[t] /= q;
          if (!(fabs(v[t] - nb[t]) <= tol)) { R.fail("next-belief", fmt("%s action %d obs %d: ", vstr(b).c_str(), a, o) + vstr(v) + " expected " + vstr(nb)); break; }
        }
        if (d > 1) {
          // follow the real object's belief; the exact filter restarts from it so that
          // only one step of rounding is compared at a time, while the whole history is
          // compared where neither the path probability nor an entry is small enough
          // for the dropping of entries below 1e-10 to show
          bool big = q > 1e-3;
          for (double x : nb) if (x != 0 && x < 1e-5) big = false;
          visit(big ? nb : v, nc, d - 1);
        }
      }
      if (!(fabs(tot - 1) <= 1e-9 * m.nS)) R.fail("obs-prob", fmt("%s action %d: probabilities sum to %.12g", vstr(b).c_str(), a, tot));
    }
  };
  for (auto &b : beliefs) visit(b, toC(b), depth);
}

void mc_enumerate(Run &R) {
  bool th = R.thorough;
  // ---- two states
  vector<Vec> r2 = {{1, 0}, {0, 1}, {.5, .5}, {.75, .25}, {.999, .001}};
  if (th) { r2.push_back({.2, .8}); r2.push_back({1 - 1e-9, 1e-9}); }
  vector<Vec> o3 = {{1, 0, 0}, {0, 1, 0}, {.5, 0, .5}, {.2, .3, .5}, {0, 0, 1}, {.001, .999, 0}};
  vector<Vec> b2 = gridBeliefs(2, th ? 8 : 4);
  for (double e : {1e-3, 1e-6, 1e-9}) { b2.push_back({e, 1 - e}); b2.push_back({1 - e, e}); }
  for (size_t t0 = 0; t0 < r2.size(); t0++) for (size_t t1 = 0; t1 < r2.size(); t1++)
    for (size_t z0 = 0; z0 < o3.size(); z0++) for (size_t z1 = 0; z1 < o3.size(); z1++)
      for (int w = 0; w < 4; w++) {
        Full m;
        m.nS = 2; m.nA = 2; m.nO = 3; m.gamma = w % 2 ? .95 : .5;
        m.T = {{r2[t0], r2[t1]}, {r2[(t1 + 1) % r2.size()], r2[w >= 2 ? 1 : t0]}};
        m.O = {{o3[z0], o3[z1]}, {o3[(z1 + 2) % o3.size()], o3[z0]}};
        if (w == 2) { m.R = {{0, 0}, {0, 0}}; }
        else if (w == 3) { m.R = {{1, 0}, {-4, 0}}; }
        else {
          m.R4.assign(2, vector<Mat>(2, Mat(2, Vec(3))));
          for (int a = 0; a < 2; a++) for (int s = 0; s < 2; s++) for (int t = 0; t < 2; t++) for (int o = 0; o < 3; o++) m.R4[a][s][t][o] = w ? (a + 1) * (s - t) + o : -1.5 * ((a ^ s) + t * o) + .25;
          m.expect();
        }
        m.b0 = w == 0 ? Vec{.5, .5} : w == 1 ? Vec{0, 1} : w == 2 ? Vec{.999999, .000001} : Vec{1, 0};
        m.name = fmt("b2:%zu%zu/%zu%zu/%d", t0, t1, z0, z1, w);
        R.run([&] { return m.name + "\n" + m.text4(); }, [&] { checkModel(R, m, b2, w == 1 ? 3 : 2); if (t0 == 3 && z0 == 3 && t1 == 3) R.sample(m.name + " all beliefs x histories match"); });
      }
  // ---- three states
  vector<Vec> r3 = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {.5, .5, 0}, {0, .25, .75}, {.2, .3, .5}};
  vector<Vec> o2 = {{1, 0}, {0, 1}, {.5, .5}, {.9, .1}};
  vector<Vec> b3 = gridBeliefs(3, th ? 4 : 2);
  b3.push_back({1. / 3, 1. / 3, 1. / 3});
  b3.push_back({1e-7, .5, .5 - 1e-7});
  int k = 0;
  for (int p = 0; p < 6; p++) for (int q = 0; q < 6; q++) for (int r = 0; r < 6; r++)
    for (int x = 0; x < 4; x++) for (int y = 0; y < 4; y++) for (int z = 0; z < 4; z++) {
      k++;
      if (!th && k % 2) continue;
      Full m;
      m.nS = 3; m.nA = 2; m.nO = 2; m.gamma = .9;
      m.T = {{r3[p], r3[q], r3[r]}, {r3[r], r3[p], r3[2]}};
      m.O = {{o2[x], o2[y], o2[z]}, {o2[z], o2[z], o2[x]}};
      m.R = {{1, -1, 0}, {2, 0, k % 5 ? 0. : 3.}};
      m.b0 = {.2, .3, .5};
      m.name = fmt("b3:%d", k);
      R.run([&] { return m.name + "\n" + m.text4(); }, [&] { checkModel(R, m, b3, th ? 3 : 2); });
    }
  // ---- larger, sparse to dense, crossing the product's density switch
  for (int n : th ? vector<int>{5, 8, 11, 12, 13, 16, 20, 24, 32, 40} : vector<int>{8, 12, 16, 24})
    for (int pat = 0; pat < 6; pat++) for (int ob = 0; ob < 4; ob++) {
      Full m;
      m.nS = n; m.nA = 3; m.nO = ob == 3 ? n : 3; m.gamma = .95;
      for (int a = 0; a < 3; a++) {
        Mat t(n, Vec(n, 0.0)), o(n, Vec(m.nO, 0.0));
        for (int s = 0; s < n; s++) {
          switch ((pat + a) % 6) {
            case 0: t[s][(s + 1) % n] = 1; break;
            case 1: t[s][s] += .75; t[s][s ? s - 1 : 0] += .25; break;
            case 2: t[s][n - 1 - s] += .5; t[s][(s * 3) % n] += .5; break;
            case 3: for (int u = 0; u < n; u++) t[s][u] = 1.0 / n; break;
            case 4: t[s][n / 2] = 1; break;
            case 5: t[s][s] = 1; break;
          }
          if (s == n - 1 && pat == 5) { t[s].assign(n, 0.0); t[s][s] = 1; }
          switch (ob) {
            case 0: o[s][(s + a) % 3] = 1; break;
            case 1: o[s][0] = .5; o[s][1 + s % 2] += .5; break;
            case 2: o[s][s < n / 2 ? 0 : 2] = .9; o[s][1] = .1; break;
            case 3: o[s][s] = .625; o[s][(s + 1) % n] = .375; break;
          }
        }
        m.T.push_back(t); m.O.push_back(o);
        Vec r(n);
        for (int s = 0; s < n; s++) r[s] = (s * 7 + a * 3) % 5 - 2;
        if (pat == 5) r[n - 1] = 0;
        m.R.push_back(r);
      }
      m.b0.assign(n, 0.0); m.b0[0] = .5; m.b0[n - 1] = .5;
      m.name = fmt("big:%d/%d/%d", n, pat, ob);
      vector<Vec> bs;
      for (int s = 0; s < n; s += th ? 1 : 3) { Vec b(n, 0.0); b[s] = 1; bs.push_back(b); }
      bs.push_back(Vec(n, 1.0 / n));
      { Vec b(n, 0.0); for (int s = 0; s < n; s += 2) b[s] = 1; double q = (n + 1) / 2; for (double &x : b) x /= q; bs.push_back(b); }
      { Vec b(n, 0.0); b[n - 1] = .25; b[n - 2] = .75; bs.push_back(b); }
      { Vec b(n, 0.0); b[n - 1] = 1 - 1e-6; b[1] = 1e-6; bs.push_back(b); }
      R.run([&] { return m.name + "\n" + m.text4().substr(0, 20000); }, [&] { checkModel(R, m, bs, 2); });
    }
}
