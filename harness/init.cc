// init.cc - P23: the bounds a planner starts from are valid.
#include "zm.h"
using namespace mc;

static cvector mdpState(int s) { cvector r; r.resize(1); r.push_back(0, s); return r; }

static void checkModel(Run &R, const Model &m, const Opts &extra, const string &kind) {
  // kind: "mdp", "fullobs" (POMDP observing its state), "pomdp2", "graph"
  MDPOracle mo(m);
  PWLC2 *pw = kind == "pomdp2" ? new PWLC2(m, 1e-8) : NULL;
  BeliefGraph *bg = NULL;
  vector<Vec> qb;
  if (kind == "mdp") for (int s = 0; s < m.nS; s++) { Vec b(m.nS, 0.0); b[s] = 1; qb.push_back(b); }
  else if (kind == "graph") {
    bg = new BeliefGraph(m);
    bg->add(m.b0);
    bg->solve(400, 1e-10);
    if (!bg->closed) { delete bg; return; }
    for (auto &n : bg->nodes) qb.push_back(n.b);
  } else qb = gridBeliefs(m.nS, m.nS == 2 ? 8 : 4);
  string fn = fmt("i%d.%s", R.shard, m.nO ? "pomdp" : "mdp");
  m.write(fn);
  R.count("models");
  vector<std::pair<const char *, const char *>> reps;
  if (m.nO) reps = {{"convex", "sawtooth"}, {"point", "point"}};
  else reps = {{"point", "point"}};
  for (auto &rp : reps)
    for (const char *prec : {"1e-3", "1"})
      for (int mask = 0; mask < 2; mask++) {
        if (string(rp.first) == "point" && mask) continue;
        Opts o = extra;
        o["searchStrategy"] = "hsvi";
        o["lowerBoundRepresentation"] = rp.first;
        o["upperBoundRepresentation"] = rp.second;
        o["terminateRegretBound"] = prec;
        if (mask) { o["useMaxPlanesMasking"] = "0"; o["useMaxPlanesSupportList"] = "0"; o["useSawtoothSupportList"] = "0"; }
        R.describe("model " + m.name + " options " + optStr(o) + "\n" + m.text());
        Sys *y = makeSys(fn, o);
        R.count("configurations");
        BoundPair &bp = *y->so.bounds;
        bp.getRootNode();
        double tol = 1e-8 * m.span() + 1e-8;
        for (int pass = 0; pass < 2; pass++)
          for (size_t i = 0; i < qb.size(); i++) {
            double v;
            const Vec &b = qb[i];
            if (kind == "mdp") v = mo.V[i];
            else if (pw) v = pw->value(b[1]);
            else if (bg) v = bg->nodes[i].lo;
            else {
              v = -1e300;
              for (int a = 0; a < m.nA; a++) {
                double q = 0;
                for (int s = 0; s < m.nS; s++) if (b[s] > 0) {
                  q += b[s] * m.R[a][s];
                  for (int t = 0; t < m.nS; t++) q += m.gamma * b[s] * m.T[a][s][t] * mo.V[t];
                }
                v = std::max(v, q);
              }
              if (isinf(v)) abort();
            }
            double slack = tol + (pw ? pw->err : 0) + (bg ? bg->nodes[i].hi - bg->nodes[i].lo : 0);
            cvector c = m.nO ? toC(b) : mdpState(i);
            ValueInterval vi(0, 0);
            if (pass == 0) vi = bp.getValueAt(c);                       // asked without storing
            else { MDPNode &n = *bp.getNode(c); vi = ValueInterval(n.lbVal, n.ubVal); }   // stored
            R.count("states");
            R.outcome(mix(hdbl(vi.l), hdbl(vi.u)));
            if (!(vi.l <= v + slack)) R.fail("initial-lower-above-V*", fmt("%s %s: %s: initial lower %.10g > V* %.10g", rp.first, pass ? "stored" : "asked", vstr(b).c_str(), vi.l, v));
            if (!(vi.u >= v - slack)) R.fail("initial-upper-below-V*", fmt("%s %s: %s: initial upper %.10g < V* %.10g", rp.second, pass ? "stored" : "asked", vstr(b).c_str(), vi.u, v));
            // and not vacuous: finite and ordered
            if (!(vi.u - vi.l < 1e6 * m.span()) || !(vi.l <= vi.u + slack)) R.fail("initial-interval-malformed", fmt("%s/%s: %s: [%.10g,%.10g]", rp.first, rp.second, vstr(b).c_str(), vi.l, vi.u));
          }
        delete bp.lookup;
      }
  if (m.gamma < 1 && m.nA == 2 && R.idx % 997 == 0) R.sample("model " + m.name + ": V*[0]=" + fmt("%g", mo.V[0]));
  delete pw;
  delete bg;
}

void mc_enumerate(Run &R) {
  vector<double> gammas = {0.1, 0.5, 0.9, 0.95, 0.99};
  if (R.thorough) gammas = {0.1, 0.3, 0.5, 0.75, 0.9, 0.95, 0.98, 0.99, 0.995};
  vector<double> slow = R.thorough ? vector<double>{0.998, 0.999} : vector<double>{0.999};
  vector<double> scales = R.thorough ? vector<double>{1e-3, 1, 100, 1e4} : vector<double>{1e-2, 1, 1000};
  // reward sign patterns over (action,state)
  vector<Mat> Rw = {{{-1, -2, 0}, {-3, -1, 0}}, {{1, 2, 0}, {3, 1, 0}}, {{1, 2, 1}, {3, 1, 2}}, {{-1, -2, -1}, {-3, -1, -2}},
                    {{-1, 5, 0}, {2, -3, 0}}, {{0, 0, 0}, {0, 1, 0}}, {{0, 0, 0}, {0, -1, 0}}, {{4, 4, 4}, {4, 4, 3}}, {{-4, -4, -4}, {-4, -4, -5}}};
  vector<Vec> rows = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {.5, .5, 0}, {0, .25, .75}, {.2, .3, .5}};
  int k = 0;
  for (int p = 0; p < 6; p++) for (int q = 0; q < 6; q++) for (int r = 0; r < 6; r++) for (int s = 0; s < 6; s++)
    for (size_t w = 0; w < Rw.size(); w++) {
      k++;
      if (k % (R.thorough ? 7 : 23)) continue;
      for (int kind = 0; kind < 3; kind++) {
        for (double g : gammas) {
          double sc = scales[(k / 23 + kind) % scales.size()];
          Model m;
          m.nS = 3; m.nA = 2; m.gamma = g;
          m.T = {{rows[p], rows[q], {0, 0, 1}}, {rows[r], rows[s], w % 2 ? Vec{0, 0, 1} : Vec{1, 0, 0}}};
          m.R = Rw[w];
          for (auto &x : m.R) for (double &y : x) y *= sc;
          m.b0 = {.5, .25, .25};
          m.name = fmt("init%d:%d/%g/%g", kind, k, g, sc);
          string kd = "mdp";
          if (kind == 0) { m.nO = 0; m.b0 = {1, 0, 0}; }
          else if (kind == 1) { m.nO = 3; Mat id = detMap(3, {0, 1, 2}); m.O = {id, id}; kd = "fullobs"; }
          else { m.nO = 1; m.O = {Mat(3, Vec(1, 1.0)), Mat(3, Vec(1, 1.0))}; m.b0 = {1, 0, 0}; kd = "graph"; }
          R.run([&] { return m.name + "\n" + m.text(); }, [&] { checkModel(R, m, Opts(), kd); });
        }
      }
    }
  // very long effective horizons
  for (size_t w = 0; w < Rw.size(); w++) for (double g : slow) for (int kind = 0; kind < 2; kind++) for (int z = 0; z < 3; z++) {
    Model m;
    m.nS = 3; m.nA = 2; m.gamma = g;
    m.T = {{rows[3 + z % 3], rows[4], {0, 0, 1}}, {rows[1], rows[z], z ? Vec{0, 0, 1} : Vec{1, 0, 0}}};
    m.R = Rw[w];
    m.b0 = {.5, .25, .25};
    m.name = fmt("slow%d:%d/%d/%g", kind, (int)w, z, g);
    if (kind == 0) { m.nO = 0; m.b0 = {1, 0, 0}; }
    else { m.nO = 3; Mat id = detMap(3, {0, 1, 2}); m.O = {id, id}; }
    R.run([&] { return m.name + "\n" + m.text(); }, [&] { checkModel(R, m, Opts(), kind ? "fullobs" : "mdp"); });
  }
  // more actions and observations
  { vector<Model> w; familyWide(w, 1); for (auto &m : w) R.run([&] { return m.name + "\n" + m.text(); }, [&] { checkModel(R, m, Opts(), m.nO ? "graph" : "mdp"); }); }
  // general two-state POMDPs
  vector<Model> f2;
  family2(f2, R.thorough ? 1 : 0);
  for (size_t i = 0; i < f2.size(); i++) {
    if (i % (R.thorough ? 2 : 3)) continue;
    R.run([&] { return f2[i].name + "\n" + f2[i].text(); }, [&] { checkModel(R, f2[i], Opts(), "pomdp2"); });
  }
  // bounded horizon: forward-only chains that always end within H actions, also
  // undiscounted
  for (int n = 2; n <= 4; n++)
    for (double g : {0.9, 1.0})
      for (int dh = 0; dh < 3; dh++)
        for (size_t w = 0; w < Rw.size(); w++)
          for (int br = 0; br < 3; br++)
            for (int kind = 0; kind < 2; kind++) {
              int H = n - 1 + dh;   // from state 0 at most n-1 actions are needed
              Model m;
              m.nS = n; m.nA = 2; m.gamma = g; m.maxHorizon = H;
              for (int a = 0; a < 2; a++) {
                Mat t(n, Vec(n, 0.0));
                for (int s = 0; s < n; s++) {
                  if (s == n - 1) t[s][s] = 1;
                  else if (br == 0 || a == 0) t[s][s + 1] = 1;
                  else if (br == 1) t[s][n - 1] = 1;
                  else { t[s][s + 1] += .5; t[s][n - 1] += .5; }
                }
                m.T.push_back(t);
                Vec r(n);
                for (int s = 0; s < n - 1; s++) r[s] = Rw[w][a][s % 2] + (s == 2);
                r[n - 1] = 0;
                m.R.push_back(r);
              }
              m.b0.assign(n, 0.0);
              m.b0[0] = 1;
              string kd = "mdp";
              if (kind) { m.nO = n; Mat id(n, Vec(n, 0.0)); for (int s = 0; s < n; s++) id[s][s] = 1; m.O = {id, id}; kd = "fullobs"; }
              m.name = fmt("hor%d:%d/%g/%d/%d/%d", kind, n, g, H, (int)w, br);
              R.run([&] { return m.name + "\n" + m.text(); }, [&] {
                Opts o = {{"maxHorizon", fmt("%d", H)}};
                checkModel(R, m, o, kd);
              });
            }
}
