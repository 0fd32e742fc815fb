// logs.cc - P16: the logs of a run against the run itself (observed through a proxy
// between the search and the bounds), and scripted runs against the logs they are fed.
#include <sys/stat.h>
#include "zm.h"
#include "BoundPair.h"
#include "RTDPCore.h"
#include "Pomdp.h"
using namespace mc;

// sits between the search strategy and the bounds and records every backup
struct Spy : public BoundPairCore {
  BoundPair *b;
  vector<Vec> seq;
  explicit Spy(BoundPair *_b) : b(_b) { root = NULL; lookup = NULL; numStatesTouched = numStatesExpanded = numBackups = 0; }
  void out() { b->getNodeHandlers = getNodeHandlers; }
  void in() { numStatesTouched = b->numStatesTouched; numStatesExpanded = b->numStatesExpanded; numBackups = b->numBackups; root = b->root; lookup = b->lookup; }
  void initialize(MDP *p, const ZMDPConfig *c) { out(); b->initialize(p, c); in(); }
  MDPNode *getRootNode(void) { out(); MDPNode *r = b->getRootNode(); in(); return r; }
  MDPNode *getNode(const state_vector &s) { out(); MDPNode *r = b->getNode(s); in(); return r; }
  void expand(MDPNode &cn) { out(); b->expand(cn); in(); }
  void update(MDPNode &cn, int *a) { out(); seq.push_back(toV(cn.s)); b->update(cn, a); in(); }
  int chooseAction(const state_vector &s) const { return b->chooseAction(s); }
  ValueInterval getValueAt(const state_vector &s) const { return b->getValueAt(s); }
  ValueInterval getQValue(const state_vector &s, int a) const { return b->getQValue(s, a); }
};
static cvector toSt(const Vec &v) { if (v.size() > 1) return toC(v); cvector r; r.resize(1); r.push_back(0, v[0]); return r; }
struct Run1 { Sys *y; Spy *spy; };
static Run1 makeRun(const string &fn, Opts o) {
  Run1 r;
  r.y = makeSys(fn, o, false);
  r.spy = new Spy((BoundPair *)r.y->so.bounds);
  ((RTDPCore *)r.y->so.solver)->setBounds(r.spy);
  r.y->so.solver->planInit(r.y->so.problem, r.y->cfg);
  return r;
}
static bool lines(const string &fn, vector<string> &out) {
  out.clear();
  std::ifstream in(fn);
  if (!in) return false;
  string l;
  while (std::getline(in, l)) if (!l.empty() && l[0] != '#') out.push_back(l);
  return true;
}
static bool readIndex(const string &fn, int dim, vector<Vec> &out, string &why) {
  vector<string> L;
  if (!lines(fn, L)) { why = "no state index"; return false; }
  out.clear();
  for (auto &l : L) {
    int id, n = 0; double v; char rest;
    if (sscanf(l.c_str(), "state %d%n %c", &id, &n, &rest) == 1) {
      if (id != (int)out.size()) { why = "ids out of order: " + l; return false; }
      out.push_back(Vec(dim, 0.0));
    } else {
      char *e; long i = strtol(l.c_str(), &e, 10); v = strtod(e, &e);
      if (*e || out.empty() || i < 0 || i >= dim) { why = "bad line " + l; return false; }
      out.back()[i] = v;
    }
  }
  return true;
}
// (a script run reads these names from its input directory and writes them to the current one)
static string nIdx, nBak, nVal;
static Opts dirOpts(const string &d) {
  return {{"stateIndexOutputFile", d + "/" + nIdx}, {"backupsOutputFile", d + "/" + nBak}, {"boundValuesOutputFile", d + "/" + nVal}};
}
static string workdir(Run &R, const char *n) { string d = fmt("%s%d", n, R.shard); mkdir(d.c_str(), 0755); for (string f : {nIdx, nBak, nVal, string("q.log")}) unlink((d + "/" + f).c_str()); return d; }

// checks the files in d against what the spy saw
static bool checkLogs(Run &R, const string &at, Run1 &r, const string &d, bool haveQ, const Model &m, int dim, vector<Vec> *idxOut, bool haveBackups = true) {
  vector<Vec> idx;
  string why;
  auto bad = [&](const char *k, const string &w) { R.fail(k, at + ": " + w); return false; };
  if (!readIndex(d + "/" + nIdx, dim, idx, why)) return bad("index", why);
  // distinct states have distinct entries
  std::set<Vec> uniq(idx.begin(), idx.end());
  if (uniq.size() != idx.size()) return bad("index", "a state appears twice");
  vector<string> L;
  if (!haveBackups) {
    struct stat sb;
    if (stat((d + "/" + nBak).c_str(), &sb) == 0 || stat((d + "/" + nVal).c_str(), &sb) == 0) return bad("backups", "written although not asked for");
  } else {
  if (!lines(d + "/" + nBak, L)) return bad("backups", "no backup log");
  if (L.size() != r.spy->seq.size()) return bad("backups", fmt("%zu entries for %zu backups", L.size(), r.spy->seq.size()));
  std::set<int> used;
  for (size_t i = 0; i < L.size(); i++) {
    char *e; long id = strtol(L[i].c_str(), &e, 10);
    if (*e || id < 0 || id >= (long)idx.size()) return bad("backups", "bad entry " + L[i]);
    used.insert(id);
    R.count("transitions");
    if (idx[id] != r.spy->seq[i]) return bad("backups", fmt("entry %zu is state %ld = %s, the backup was at %s", i, id, vstr(idx[id]).c_str(), vstr(r.spy->seq[i]).c_str()));
  }
  if (!haveQ && used.size() != idx.size()) return bad("index", "lists states that were not backed up");
  }
  if (haveQ) {
    std::set<Vec> want;
    for (auto it = r.spy->lookup->begin(); it != r.spy->lookup->end(); ++it) want.insert(toV(it->second->s));
    for (auto &v : want) if (!uniq.count(v)) return bad("index", "does not list a state the planner knows: " + vstr(v));
  }
  auto same = [&](double a, double b) { return a == b || fabs(a - b) <= 1e-12 * (fabs(a) + fabs(b)); };
  if (haveBackups && !lines(d + "/" + nVal, L)) return bad("bound-values", "no file");
  if (haveBackups && L.size() != idx.size()) return bad("bound-values", fmt("%zu lines for %zu states", L.size(), idx.size()));
  for (size_t i = 0; haveBackups && i < L.size(); i++) {
    int id; double lo, hi;
    if (sscanf(L[i].c_str(), "%d %lf %lf", &id, &lo, &hi) != 3 || id != (int)i) return bad("bound-values", L[i]);
    ValueInterval v = r.y->so.bounds->getValueAt(toSt(idx[i]));
    // states of MDPs are index vectors: an absent and an explicit zero are the same
    if (!same(v.l, lo) || !same(v.u, hi)) return bad("bound-values", fmt("state %zu: file [%.17g,%.17g], planner [%.17g,%.17g]", i, lo, hi, v.l, v.u));
    R.outcome(mix(hdbl(lo), hdbl(hi)));
  }
  if (haveQ) {
    if (!lines(d + "/q.log", L)) return bad("q-values", "no file");
    if (L.size() != idx.size() * m.nA) return bad("q-values", fmt("%zu lines for %zu states", L.size(), idx.size()));
    for (size_t i = 0; i < L.size(); i++) {
      int id, a; double lo, hi;
      if (sscanf(L[i].c_str(), "%d %d %lf %lf", &id, &a, &lo, &hi) != 4 || id != (int)i / m.nA || a != (int)i % m.nA) return bad("q-values", L[i]);
      ValueInterval v = r.y->so.bounds->getQValue(toSt(idx[id]), a);
      if (!same(v.l, lo) || !same(v.u, hi)) return bad("q-values", fmt("state %d action %d: file [%.17g,%.17g], planner [%.17g,%.17g]", id, a, lo, hi, v.l, v.u));
    }
  }
  if (idxOut) *idxOut = idx;
  return true;
}
static bool tiny(Run1 &r, bool pomdp) {
  if (!pomdp) return false;
  for (auto it = r.spy->lookup->begin(); it != r.spy->lookup->end(); ++it) for (auto &e : it->second->s.data) if (e.value > 0 && e.value < 2e-6) return true;
  return false;
}
static void runModel(Run &R, const Model &m, int mi) {
  string fn = fmt("l%d.%s", R.shard, m.nO ? "pomdp" : "mdp");
  m.write(fn);
  bool finite = true;
  if (m.nO) { BeliefGraph g(m); g.add(m.b0); g.solve(300); finite = g.closed; }
  bool goal = isGoalModel(m);
  int dim = m.nO ? m.nS : 1;
  R.count("models");
  const char *strat[] = {"hsvi", "frtdp", "hdp", "lrtdp", "rtdp"};
  for (int s = 0; s < 5; s++) {
    if ((s == 2 || s == 3) && !finite) continue;
    if (s >= 3 && !goal) continue;
    for (int rep = 0; rep < 3; rep++) {
      if (!m.nO && rep) continue;
      if (!R.thorough && m.nO && (mi + s + rep) % 3) continue;
      bool planes = m.nO && rep != 1, saw = m.nO && rep != 2 && rep != 1;
      Opts o = {{"searchStrategy", strat[s]}, {"maintainLowerBound", "1"}, {"lowerBoundRepresentation", planes ? "convex" : "point"}, {"upperBoundRepresentation", saw ? "sawtooth" : "point"},
                {"useMaxPlanesExtraPruning", (mi + s) % 2 ? "1" : "0"}, {"useLogBackups", "1"}};
      for (int trials : {1, 2, 4}) {
        string d = workdir(R, "log");
        Opts oo = o;
        for (auto &p : dirOpts(d)) oo[p.first] = p.second;
        bool q = trials == 2;
        if (q) oo["qValuesOutputFile"] = d + "/q.log";
        string at = optStr(o) + fmt("%d trials", trials);
        Run1 r = makeRun(fn, oo);
        bool done = false;
        vector<size_t> ends;   // backups made after each trial
        for (int t = 0; t < trials && !done; t++) { done = r.y->so.solver->planFixedTime(r.y->so.problem->getInitialState(), -1, 1e-3); ends.push_back(r.spy->seq.size()); }
        if (tiny(r, m.nO)) { R.count("cut_at_tiny_belief"); break; }
        r.y->so.solver->finishLogging();
        R.count("runs");
        R.count("states", r.spy->seq.size());
        vector<Vec> idx;
        if (!checkLogs(R, at, r, d, q, m, dim, &idx)) return;
        if (q) {
          // the action values alone
          string dq = workdir(R, "lgq");
          Opts oq = o;
          for (auto &p : dirOpts(dq)) oq[p.first] = p.second;
          oq["qValuesOutputFile"] = dq + "/q.log";
          oq["useLogBackups"] = "0";
          Run1 z = makeRun(fn, oq);
          bool dn = false;
          for (int t = 0; t < trials && !dn; t++) dn = z.y->so.solver->planFixedTime(z.y->so.problem->getInitialState(), -1, 1e-3);
          z.y->so.solver->finishLogging();
          R.count("runs");
          if (!checkLogs(R, at + " without backup log", z, dq, true, m, dim, NULL, false)) return;
          delete z.spy->lookup;
        }
        // the same sequence again, as a script, under every representation
        for (int rr = 0; rr < (m.nO ? 3 : 1); rr++) {
          bool sameRep = !m.nO || rr == rep;
          if (!sameRep && trials != 2) continue;
          Opts so = o;
          so["searchStrategy"] = "script";
          so["backupScriptInputDir"] = d;
          so["lowerBoundRepresentation"] = m.nO && rr != 1 ? "convex" : "point";
          so["upperBoundRepresentation"] = m.nO && rr == 0 ? "sawtooth" : "point";
          string d2 = workdir(R, "scr");
          // input file names are the names of the output files, within the directory
          so["stateIndexOutputFile"] = nIdx;
          so["backupsOutputFile"] = nBak;
          so["boundValuesOutputFile"] = d2 + "/" + nVal;
          so["useLogBackups"] = sameRep ? "1" : "0";
          if (sameRep) { so["boundValuesOutputFile"] = nVal; for (string f : {nIdx, nBak, nVal}) unlink(f.c_str()); }
          Run1 x = makeRun(fn, so);
          bool fin = false;
          int n = 0;
          vector<size_t> xends;
          for (; n < 100000 && !fin; n++) { fin = x.y->so.solver->planFixedTime(x.y->so.problem->getInitialState(), -1, 1e-3); xends.push_back(x.spy->seq.size()); }
          R.count("replays");
          if (!fin) { R.fail("script-does-not-finish", at); return; }
          if (x.spy->seq.size() != r.spy->seq.size()) { R.fail("script-sequence", at + fmt(": %zu updates for a log of %zu", x.spy->seq.size(), r.spy->seq.size())); return; }
          for (size_t i = 0; i < x.spy->seq.size(); i++) {
            bool eq = true;
            for (int k = 0; k < dim; k++) eq = eq && fabs(x.spy->seq[i][k] - r.spy->seq[i][k]) <= 1e-15;
            if (!eq) { R.fail("script-sequence", at + fmt(": update %zu at %s, the log says %s", i, vstr(x.spy->seq[i]).c_str(), vstr(r.spy->seq[i]).c_str())); return; }
          }
          // a trial of a script ends where the run came back to the initial state; with
          // strategies that update it exactly first and last, those are the run's trials
          if (s < 2) {
            bool plain = true;
            size_t from = 0;
            for (size_t e : ends) {
              int k = 0;
              for (size_t i = from; i < e; i++) k += r.spy->seq[i] == r.spy->seq[0];
              plain = plain && k == 2 && r.spy->seq[from] == r.spy->seq[0] && r.spy->seq[e - 1] == r.spy->seq[0];
              from = e;
            }
            vector<size_t> w = xends;
            if (!w.empty() && (w.size() < 2 ? w[0] == 0 : w[w.size() - 1] == w[w.size() - 2])) w.pop_back();
            if (plain) R.count("replays_with_trials_compared");
            if (plain && w != ends) { R.fail("script-trials", at + fmt(": run of %zu trials replayed as %zu", ends.size(), w.size())); return; }
          }
          x.y->so.solver->finishLogging();
          if (sameRep && !q && !checkLogs(R, at + " (log of the replay)", x, ".", false, m, dim, NULL)) return;
          vector<string> L;
          if (!lines((sameRep ? string(".") : d2) + "/" + nVal, L) || L.size() != idx.size()) { R.fail("script-bound-values", at + fmt(": %zu lines for %zu states", L.size(), idx.size())); return; }
          for (size_t i = 0; i < L.size(); i++) {
            int id; double lo, hi;
            if (sscanf(L[i].c_str(), "%d %lf %lf", &id, &lo, &hi) != 3 || id != (int)i) { R.fail("script-bound-values", at + L[i]); return; }
            ValueInterval v = x.y->so.bounds->getValueAt(toSt(idx[i]));
            if (!(fabs(v.l - lo) <= 1e-12 * (1 + fabs(lo)) && fabs(v.u - hi) <= 1e-12 * (1 + fabs(hi)))) { R.fail("script-bound-values", at + fmt(": state %zu file [%.12g,%.12g], planner [%.12g,%.12g]", i, lo, hi, v.l, v.u)); return; }
          }
          if (!sameRep) continue;
          // same updates, same representation: same bounds (HDP and LRTDP move the
          // stored upper value of a state outside of a backup)
          double tol = 1e-9 * m.span();
          bool extra = o["useMaxPlanesExtraPruning"] == "1" && planes;
          for (size_t i = 0; i < idx.size(); i++) {
            ValueInterval a = r.y->so.bounds->getValueAt(toSt(idx[i])), b = x.y->so.bounds->getValueAt(toSt(idx[i]));
            R.count("transitions");
            bool lowOk = fabs(a.l - b.l) <= tol || extra;
            bool upOk = fabs(a.u - b.u) <= tol || ((s == 2 || s == 3) && !saw);
            if (!lowOk || !upOk) { R.fail("script-bounds", at + fmt(": state %s: run [%.12g,%.12g], script [%.12g,%.12g]", vstr(idx[i]).c_str(), a.l, a.u, b.l, b.u)); return; }
          }
          delete x.spy->lookup;
        }
        delete r.spy->lookup;
        if (done) break;
      }
    }
  }
}
// every script up to a length over the first states of a model, in every layout
static void scripts(Run &R, const Model &m, int len) {
  string fn = fmt("s%d.%s", R.shard, m.nO ? "pomdp" : "mdp");
  m.write(fn);
  int dim = m.nO ? m.nS : 1;
  vector<Vec> st;
  if (m.nO) { st = gridBeliefs(m.nS, 2); st.insert(st.begin(), m.b0); std::sort(st.begin(), st.end()); st.erase(std::unique(st.begin(), st.end()), st.end()); if (st.size() > 4) st.resize(4); }
  else for (int s = 0; s < std::min(4, m.nS); s++) st.push_back(Vec(1, s));
  int K = st.size();
  for (int L = 0; L <= len; L++) {
    int tot = 1;
    for (int i = 0; i < L; i++) tot *= K;
    for (int code = 0; code < tot; code++) for (int lay = 0; lay < 3; lay++) {
      if (L == len && code % 3 != lay) continue;
      string d = workdir(R, "man");
      FILE *f = fopen((d + "/" + nIdx).c_str(), "w");
      fprintf(f, "# states\n");
      for (int i = 0; i < K; i++) {
        fprintf(f, lay == 1 ? "  state %d\n\n" : "state %d\n", i);
        for (int k = 0; k < dim; k++) {
          // zero entries: explicit for MDP states in the program's own files, absent otherwise
          if (st[i][k] != 0 || (!m.nO && lay != 2)) fprintf(f, lay == 1 ? "\t%d   %.20g\n" : "%d %.20g\n", k, st[i][k]);
        }
      }
      fclose(f);
      f = fopen((d + "/" + nBak).c_str(), "w");
      fprintf(f, "# log\n");
      vector<int> seq;
      for (int i = 0, x = code; i < L; i++, x /= K) { seq.push_back(x % K); fprintf(f, lay == 1 ? " %d \n# c\n\n" : "%d\n", x % K); }
      fclose(f);
      Opts o = {{"searchStrategy", "script"}, {"backupScriptInputDir", d}, {"maintainLowerBound", "1"}, {"stateIndexOutputFile", nIdx}, {"backupsOutputFile", nBak}, {"boundValuesOutputFile", d + "/" + nVal}, {"useLogBackups", "0"}};
      Run1 x = makeRun(fn, o);
      bool fin = false;
      for (int n = 0; n < 1000 && !fin; n++) fin = x.y->so.solver->planFixedTime(x.y->so.problem->getInitialState(), -1, 1e-3);
      R.count("scripts");
      bool ok = fin && (int)x.spy->seq.size() == L;
      for (int i = 0; ok && i < L; i++) for (int k = 0; k < dim; k++) ok = ok && fabs(x.spy->seq[i][k] - st[seq[i]][k]) < 1e-15;
      if (!ok) {
        string s;
        for (int i : seq) s += fmt("%d ", i);
        string g;
        for (auto &v : x.spy->seq) g += vstr(v) + " ";
        R.fail(lay == 2 && !m.nO ? "script-zero-state" : "script-manual", fmt("layout %d, script %s: updates %s", lay, s.c_str(), g.c_str()));
        return;
      }
      x.y->so.solver->finishLogging();
      vector<string> Ls;
      if (!lines(d + "/" + nVal, Ls) || (int)Ls.size() != K) { R.fail(lay == 2 && !m.nO ? "script-zero-state" : "script-manual", fmt("%zu bound values for %d states", Ls.size(), K)); return; }
      R.outcome(mix(code, L));
      delete x.spy->lookup;
    }
  }
}
void mc_enumerate(Run &R) {
  nIdx = fmt("stateIndex%d.log", R.shard); nBak = fmt("backups%d.log", R.shard); nVal = fmt("boundValues%d.log", R.shard);
  vector<Model> ms;
  family2(ms, 0); family3(ms, 0); familyMDP(ms, 0); familyCorridor(ms, 0); { size_t n = ms.size(); familyWide(ms, 0); std::rotate(ms.begin(), ms.begin() + n, ms.end()); }
  for (size_t i = 0; i < ms.size(); i += R.thorough ? 1 : 4)
    R.run([&] { return ms[i].name + "\n" + ms[i].text(); }, [&] { runModel(R, ms[i], i); if (i % 40 == 0) R.sample(ms[i].name + ": runs of 1, 2, 4 trials of every strategy, logs read and replayed"); });
  for (size_t i = 0; i < ms.size(); i += R.thorough ? 23 : 91)
    R.run([&] { return "all scripts for " + ms[i].name; }, [&] { scripts(R, ms[i], R.thorough ? 5 : 4); });
}
