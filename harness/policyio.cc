// policyio.cc - P06: what is written as a policy and what the readers make of it.
#include "zm.h"
#include "policyfile.h"
#include "BoundPairExec.h"
#include "MaxPlanesLowerBound.h"
#include "Pomdp.h"
using namespace mc;

static bool tinyBelief(Sys *y) {
  for (auto it = y->so.bounds->lookup->begin(); it != y->so.bounds->lookup->end(); ++it)
    for (auto &e : it->second->s.data) if (e.value > 0 && e.value < 2e-6) return true;
  return false;
}
static BoundPairExec *readBack(Sys *y, const string &model, const string &pol, const Opts &o) {
  Opts oo = o;
  ZMDPConfig *cfg = makeConfig(oo);
  cfg->setString("policyInputFile", pol);
  BoundPairExec *e = new BoundPairExec();
  e->initReadFiles(model, pol, *cfg);
  delete cfg;
  return e;
}
// what acting on one-step lookahead over the written planes earns from b0, at most:
// exact evaluation on the belief graph, frontier and unfinished iteration optimistic
struct PolicyEval {
  const Model &m;
  BoundPairExec *e;
  Run &R;
  bool bad = false;
  PolicyEval(const Model &_m, BoundPairExec *_e, Run &_R) : m(_m), e(_e), R(_R) {}
  vector<double> upper(const vector<Vec> &from, Oracle &orc) {
    BeliefGraph g(m);
    vector<int> fi;
    for (auto &b : from) fi.push_back(g.add(b));
    vector<double> r;
    vector<vector<std::pair<double, int>>> suc;
    for (size_t i = 0; i < g.nodes.size() && g.nodes.size() < 600; i++) {
      Vec b = g.nodes[i].b;
      e->setBelief(toC(b));
      int a = e->chooseAction();
      R.count("policy_steps");
      if (a < 0 || a >= m.nA) { bad = true; return {}; }
      double rr = 0;
      Vec pred(m.nS, 0.0);
      for (int s = 0; s < m.nS; s++) if (b[s] != 0) { rr += b[s] * m.R[a][s]; for (int t = 0; t < m.nS; t++) pred[t] += b[s] * m.T[a][s][t]; }
      r.push_back(rr);
      vector<std::pair<double, int>> sc;
      for (int o = 0; o < m.nO; o++) {
        Vec nb(m.nS, 0.0); double p = 0;
        for (int t = 0; t < m.nS; t++) { nb[t] = pred[t] * m.O[a][t][o]; p += nb[t]; }
        if (p < 1e-13) continue;
        for (double &x : nb) x /= p;
        sc.push_back({p, g.add(nb)});
      }
      suc.push_back(sc);
    }
    size_t n = g.nodes.size();
    double top = std::max(0.0, m.rmax()) / (1 - m.gamma);
    vector<double> hi(n, top);
    for (size_t k = suc.size(); k < n; k++) { double lo, h; if (orc.value(g.nodes[k].b, lo, h)) hi[k] = h; }
    for (int it = 0; it < 3000; it++) {
      double d = 0;
      for (size_t k = suc.size(); k-- > 0;) {
        double v = 0;
        for (auto &x : suc[k]) v += x.first * hi[x.second];
        v = r[k] + m.gamma * v;
        d = std::max(d, fabs(v - hi[k]));
        hi[k] = v;
      }
      if (d * m.gamma / (1 - m.gamma) < 1e-8 * m.span()) break;
    }
    vector<double> out;
    for (int i : fi) out.push_back(hi[i]);
    return out;
  }
};

static void reach(BeliefGraph &g, size_t limit) {
  const Model &m = g.m;
  for (size_t i = 0; i < g.nodes.size() && g.nodes.size() < limit; i++) {
    Vec b = g.nodes[i].b;
    for (int a = 0; a < m.nA; a++) {
      Vec pred(m.nS, 0.0);
      for (int s = 0; s < m.nS; s++) for (int t = 0; t < m.nS; t++) pred[t] += b[s] * m.T[a][s][t];
      for (int o = 0; o < m.nO; o++) {
        Vec nb(m.nS, 0.0); double p = 0;
        for (int t = 0; t < m.nS; t++) { nb[t] = pred[t] * m.O[a][t][o]; p += nb[t]; }
        if (p < 1e-9) continue;
        bool tiny = false;
        for (double &x : nb) { x /= p; tiny |= x > 0 && x < 2e-6; }
        if (!tiny) g.add(nb);
      }
    }
  }
}
static void checkModel(Run &R, const Model &m, int mi) {
  vector<Vec> allGrid = gridBeliefs(m.nS, m.nS == 2 ? 8 : m.nS == 3 ? 4 : 2);
  if (m.nS > 6) { allGrid.resize(std::min<size_t>(allGrid.size(), 40)); }
  allGrid.push_back(m.b0);
  string fn = fmt("io%d.pomdp", R.shard);
  m.write(fn);
  Oracle orc(m, {m.b0}, 800);
  R.count("models");
  static const char *strat[] = {"hsvi", "frtdp", "hsvi"};
  for (int k = 0; k < 9; k++) {
    if (!R.thorough && (k + mi) % 3) continue;
    bool mk = k / 3 > 0, sl = k / 3 == 2, cache = k % 3 > 0, extra = k % 3 == 2;
    Opts o = {{"searchStrategy", strat[k % 3]}, {"lowerBoundRepresentation", "convex"}, {"upperBoundRepresentation", "sawtooth"},
              {"useMaxPlanesMasking", mk ? "1" : "0"}, {"useMaxPlanesSupportList", sl ? "1" : "0"}, {"useMaxPlanesCache", cache ? "1" : "0"}, {"useMaxPlanesExtraPruning", extra ? "1" : "0"}};
    Sys *y = makeSys(fn, o);
    BoundPair &bp = *y->so.bounds;
    bp.getRootNode();
    MaxPlanesLowerBound *lb = (MaxPlanesLowerBound *)bp.lowerBound;
    // extra pruning keeps what the states met need: query reachable beliefs only
    vector<Vec> grid = allGrid;
    if (extra) { BeliefGraph g(m); g.add(m.b0); grid.clear(); reach(g, 25); for (auto &nd : g.nodes) if (grid.size() < 25) grid.push_back(nd.b); }
    for (int t = 0; t < 4; t++) {
      bool done = t > 0 && y->so.solver->planFixedTime(y->so.problem->getInitialState(), -1, 1e-6);
      if (tinyBelief(y)) break;
      for (int mod = 0; mod < 2; mod++) {
        if (!mod && t % 2 && !R.thorough) continue;
        string pol = fmt("io%d.policy", R.shard);
        unlink(pol.c_str());
        bp.writePolicy(pol, mod);
        R.count("written");
        string at = fmt("%s trial %d prune %d", optStr(o).c_str(), t, mod);
        vector<FilePlane> f;
        string why;
        if (!readPolicyFile(pol, f, why)) { R.fail("layout", at + ": " + why); goto next; }
        double big = 0;
        for (auto &p : f) for (auto &q : p.e) big = std::max(big, fabs(q.second));
        double prec = 1.1e-5 * std::max(1.0, big) / 2;
        // the file is the planner's bound
        for (auto &b : grid) {
          double a = lb->getValue(toC(b), NULL), w = fileVal(f, b);
          R.count("transitions");
          if (!(fabs(a - w) <= prec)) { R.fail("file-value", fmt("%s: at %s the planner has %.9g, the file says %.9g", at.c_str(), vstr(b).c_str(), a, w)); goto next; }
        }
        // every reader setting gives the file's bound
        for (int rd = 0; rd < 4; rd++) {
          bool rmk = rd > 0, rsl = rd == 2;
          if (rd == 3 && mi % 4) continue;
          Opts ro = {{"useMaxPlanesMasking", rmk ? "1" : "0"}, {"useMaxPlanesSupportList", rsl ? "1" : "0"}, {"useMaxPlanesCache", rd == 3 ? "0" : "1"}, {"useMaxPlanesExtraPruning", rd == 3 ? "0" : "1"}, {"policyType", "maxPlanes"}};
          BoundPairExec *e = readBack(y, fn, pol, ro);
          R.count("read_back");
          for (auto &b : grid) {
            ValueInterval v = e->bounds->getValueAt(toC(b));
            double w = fileVal(f, b);
            R.count("transitions");
            R.outcome(mix(hdbl(w), rd));
            if (!(fabs(v.l - w) <= 1e-9 * (1 + fabs(w)))) { R.fail(rmk || !mk ? "read-value" : "masked-file-read-unmasked", fmt("%s, read with masking=%d list=%d: at %s the file says %.9g, the reader %.9g", at.c_str(), rmk, rsl, vstr(b).c_str(), w, v.l)); if (rmk || !mk) goto next; break; }
            // an action as good as the planner's, seen from the planner's bound
            e->setBelief(toC(b));
            int a = e->chooseAction(), pa = bp.chooseAction(toC(b));
            if (a < 0 || a >= m.nA) { R.fail("read-action", at); goto next; }
            if (a != pa) {
              double qa = bp.getQValue(toC(b), a).l, qp = bp.getQValue(toC(b), pa).l;
              if (qa < qp - 2 * prec) { R.fail(rmk || !mk ? "read-action" : "masked-file-read-unmasked", fmt("%s, read with masking=%d list=%d: at %s action %d (%.9g) instead of %d (%.9g)", at.c_str(), rmk, rsl, vstr(b).c_str(), a, qa, pa, qp)); if (rmk || !mk) goto next; break; }
            }
          }
          // never promises more than acting on it earns
          if (rd == 2 && !extra && (t == 1 || t == 3)) {
            vector<Vec> from = {m.b0, grid[0], grid[grid.size() / 2]};
            PolicyEval pe(m, e, R);
            vector<double> hi = pe.upper(from, orc);
            for (size_t i = 0; i < from.size() && !pe.bad; i++) {
              double w = fileVal(f, from[i]);
              if (w > hi[i] + prec / (1 - m.gamma) + 2e-6 * m.span()) { R.fail("promises-too-much", fmt("%s: from %s the file promises %.9g, acting on it earns at most %.9g", at.c_str(), vstr(from[i]).c_str(), w, hi[i])); goto next; }
            }
          }
          delete e;
        }
        // writing what was read gives the same file
        {
          Opts ro = o; ro["policyType"] = "maxPlanes";
          BoundPairExec *e = readBack(y, fn, pol, ro);
          string p2 = pol + "2";
          e->bounds->writePolicy(p2, false);
          vector<FilePlane> g;
          if (!readPolicyFile(p2, g, why)) { R.fail("layout", at + " written again: " + why); goto next; }
          bool same = f.size() == g.size();
          std::multiset<std::pair<int, std::map<int, double>>> x, z;
          for (auto &p : f) x.insert({p.action, p.e});
          for (auto &p : g) z.insert({p.action, p.e});
          if (!same || x != z) { R.fail("rewrite", at + ": reading and writing again changes the planes"); goto next; }
          delete e;
        }
      }
      R.count("states");
      if (done) break;
    }
  next:
    delete bp.lookup;
  }
}
// alpha-vector files: every layout variant of every small set of vectors
static void alphaFiles(Run &R, const Model &m, int deep) {
  string fn = fmt("al%d.pomdp", R.shard), an = fmt("al%d.alpha", R.shard);
  m.write(fn);
  vector<Vec> grid = gridBeliefs(m.nS, m.nS == 2 ? 8 : 4);
  vector<Vec> vecs;
  Vec vals = {-1, 0, 2.5};
  int tot = 1;
  for (int i = 0; i < m.nS; i++) tot *= 3;
  for (int c = 0; c < tot; c++) { Vec v(m.nS); for (int i = 0, x = c; i < m.nS; i++, x /= 3) v[i] = vals[x % 3]; vecs.push_back(v); }
  Sys *y = makeSys(fn, Opts{{"searchStrategy", "hsvi"}});
  for (int np = 1; np <= (deep ? 3 : 2); np++) {
    int cnt = 1;
    for (int i = 0; i < np; i++) cnt *= vecs.size();
    int stride = np == 3 ? 7 : m.nS == 3 && np == 2 ? 5 : 1;
    for (int code = 0; code < cnt; code += stride) {
      vector<std::pair<int, Vec>> P;
      for (int i = 0, x = code; i < np; i++, x /= vecs.size()) P.push_back({(x + i) % m.nA, vecs[x % vecs.size()]});
      for (int lay = 0; lay < 6; lay++) {
        std::ostringstream s;
        for (size_t i = 0; i < P.size(); i++) {
          const char *sep = lay == 3 ? "\t" : lay == 4 ? "\n" : lay == 5 ? "  " : " ";
          s << P[i].first << (lay == 5 ? " " : "\n");
          for (size_t j = 0; j < P[i].second.size(); j++) s << (j ? sep : "") << (lay == 5 ? fmt("%.4e", P[i].second[j]) : fmt("%.20f", P[i].second[j]));
          bool last = i + 1 == P.size();
          if (!last) s << (lay == 5 ? " " : "\n") << (lay == 1 ? "\n" : "");
          else s << (lay == 2 ? "" : lay == 5 ? " " : lay == 1 ? "\n\n" : "\n");
        }
        FILE *f = fopen(an.c_str(), "w"); fputs(s.str().c_str(), f); fclose(f);
        Opts ro = {{"policyType", "cassandraAlpha"}, {"useMaxPlanesMasking", code & 1 ? "0" : "1"}, {"useMaxPlanesSupportList", code & 1 ? "0" : "1"}};
        BoundPairExec *e = readBack(y, fn, an, ro);
        R.count("alpha_files");
        for (auto &b : grid) {
          double w = -1e300;
          for (auto &p : P) { double d = 0; for (int i = 0; i < m.nS; i++) d += p.second[i] * b[i]; w = std::max(w, d); }
          double v = e->bounds->getValueAt(toC(b)).l;
          R.count("transitions");
          R.outcome(mix(hdbl(w), lay));
          if (!(fabs(v - w) <= 1e-9)) { R.fail(lay == 2 ? "alpha-value" : "alpha-value-trailing-space", fmt("layout %d: at %s the vectors give %.9g, the reader %.9g; file:\n%s", lay, vstr(b).c_str(), w, v, s.str().c_str())); delete e; return; }
        }
        delete e;
      }
    }
  }
}
// files that do not fit the model must be refused
static void badFiles(Run &R, const Model &m) {
  string fn = fmt("bf%d.pomdp", R.shard), pn = fmt("bf%d.policy", R.shard);
  m.write(fn);
  Sys *y = makeSys(fn, Opts{{"searchStrategy", "hsvi"}});
  auto policy = [&](const string &entries, const string &act = "0", const string &type = "\"MaxPlanesLowerBound\"") {
    string e = "{\n  policyType => " + type + ",\n  numPlanes => 1,\n  planes => [\n    {\n      action => " + act + ",\n      numEntries => 2,\n      entries => [\n" + entries + "      ]\n    }\n  ]\n}\n";
    return e;
  };
  struct Case { const char *key; string text; bool alpha; bool ok; };
  int n = m.nS;
  vector<Case> cs;
  string full;
  for (int i = 0; i < n; i++) full += fmt("        %d, %d%s\n", i, i + 1, i + 1 < n ? "," : "");
  cs.push_back({"good", policy(full), false, true});
  cs.push_back({"entry-index", policy(full + fmt("        %d, 7\n", n)), false, false});
  cs.push_back({"entry-index", policy(full + fmt("        %d, 7\n", n + 1000)), false, false});
  cs.push_back({"entry-index", policy("        -1, 7\n" + full), false, false});
  cs.push_back({"entry-garbage", policy("        zero, 7\n"), false, false});
  cs.push_back({"action-range", policy(full, fmt("%d", m.nA)), false, false});
  cs.push_back({"action-garbage", policy(full, "x"), false, false});
  cs.push_back({"policy-type", policy(full, "0", "\"Other\""), false, false});
  cs.push_back({"empty", "", false, false});
  cs.push_back({"truncated", policy(full).substr(0, policy(full).find("entries")), false, false});
  string va = "0\n", vb;
  for (int i = 0; i < n; i++) va += "1.5 ";
  cs.push_back({"good", va + "\n", true, true});
  for (int i = 0; i + 1 < n; i++) vb += "1.5 ";
  cs.push_back({"alpha-short", "0\n" + vb + "\n", true, false});
  cs.push_back({"alpha-long", va + "1.5\n", true, false});
  cs.push_back({"alpha-garbage", "0\nx" + va + "\n", true, false});
  cs.push_back({"alpha-action", fmt("%d", m.nA) + va.substr(1) + "\n", true, false});
  cs.push_back({"alpha-empty", "", true, false});
  cs.push_back({"alpha-second-short", va + "\n\n" + "1\n" + vb + "\n", true, false});
  for (size_t i = 0; i < cs.size(); i++) {
    FILE *f = fopen(pn.c_str(), "w"); fputs(cs[i].text.c_str(), f); fclose(f);
    R.count("bad_files");
    Forked r = forked([&]() -> string {
      Opts ro = {{"policyType", cs[i].alpha ? "cassandraAlpha" : "maxPlanes"}};
      BoundPairExec *e = readBack(y, fn, pn, ro);
      e->setToInitialState();
      return fmt("read: action %d", e->chooseAction());
    }, 20);
    bool accepted = r.exited && r.code == 0, refused = r.exited && r.code != 0 && r.err.size() > 0;
    R.outcome(mix(hstr(cs[i].key), accepted * 2 + refused));
    if (cs[i].ok && !accepted) R.fail(string("refused:") + cs[i].key, r.status() + r.err);
    if (!cs[i].ok && !refused) R.fail(string("bad-file:") + cs[i].key, fmt("%s, not refused: ", r.status().c_str()) + r.data + " " + r.err.substr(0, 200) + "\n" + cs[i].text);
    R.failsThisCase = 0;
  }
}

void mc_enumerate(Run &R) {
  vector<Model> ms;
  family2(ms, 0);
  family3(ms, 0);
  familyCorridor(ms, 0);
  { vector<Model> w; familyWide(w, R.thorough ? 1 : 0); for (size_t i = 0; i < w.size(); i++) if (w[i].nO) R.run([&] { return w[i].name + "\n" + w[i].text(); }, [&] { checkModel(R, w[i], i); }); }
  for (size_t i = 0; i < ms.size(); i += R.thorough ? 2 : 7) {
    if (!ms[i].nO) continue;
    R.run([&] { return ms[i].name + "\n" + ms[i].text(); }, [&] { checkModel(R, ms[i], i); if (i % 70 == 0) R.sample(ms[i].name + ": policy written after every trial, read by every reader setting"); });
  }
  vector<Model> two, three;
  family2(two, 0); family3(three, 0);
  for (int k = 0; k < (R.thorough ? 12 : 4); k++) {
    R.run([&] { return "alpha files, two states"; }, [&] { alphaFiles(R, two[k * 31 % two.size()], R.thorough); });
    R.run([&] { return "alpha files, three states"; }, [&] { alphaFiles(R, three[k * 17 % three.size()], R.thorough); });
  }
  for (int k = 0; k < 4; k++) R.run([&] { return "policy files that do not fit the model"; }, [&] { badFiles(R, k & 1 ? three[k] : two[k]); });
}
