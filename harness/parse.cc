// P08/P09/P10: model files through the real readers, against an independent reading
// of the format.
#include "zm.h"
#include "refparse.h"
#include "Pomdp.h"
#include "GenericDiscreteMDP.h"
using namespace mc;

static Run *RP;
static string gDir = ".";
static const double VALS[] = {3, -7.25, 11.5, 0, 5, -2, 1.75, 13, -0.5};

static ZMDPConfig *cfgFor(bool fast) {
  static ZMDPConfig *c[2];
  if (!c[fast]) c[fast] = makeConfig({{"useFastModelParser", fast ? "1" : "0"}});
  return c[fast];
}
// the file under test lives in memory
static int gFd = -1;
static string fileFor(bool) {
  if (gFd < 0) gFd = memfd_create("model", 0);
  return fmt("/proc/self/fd/%d", gFd);
}
static void put(const string &, const string &t) {
  if (ftruncate(gFd, 0) || pwrite(gFd, t.data(), t.size(), 0) != (ssize_t)t.size()) abort();
}
static CassandraModel *load(const string &fn, bool pomdp, bool fast) {
  if (pomdp) return new Pomdp(fn, cfgFor(fast));
  return new GenericDiscreteMDP(fn, cfgFor(fast));
}
// difference between what was read and the reference, "" if none; key gets the aspect
static string differ(CassandraModel *p, RefModel &m, string &key) {
  auto d = [&](const char *k, const string &s) { key = k; return s; };
  if (p->numStates != m.nS || p->getNumActions() != m.nA || p->numObservations != (m.pomdp ? m.nO : -1))
    return d("sizes", fmt("sizes %d %d %d, file says %d %d %d", p->numStates, p->getNumActions(), p->numObservations, m.nS, m.nA, m.pomdp ? m.nO : -1));
  if (p->getDiscount() != m.discount) return d("discount", fmt("discount %g, file says %g", p->getDiscount(), m.discount));
  for (int a = 0; a < m.nA; a++) {
    const cmatrix &T = p->T[a], &Tt = p->Ttr[a];
    if ((int)T.size1() != m.nS || (int)T.size2() != m.nS || (int)Tt.size1() != m.nS || (int)Tt.size2() != m.nS) return d("T", "transition matrix has the wrong size");
    for (int s = 0; s < m.nS; s++) for (int t = 0; t < m.nS; t++) {
      if (!(fabs(T(s, t) - m.T[a][s][t]) < 1.001e-10)) return d("T", fmt("T(a=%d,s=%d,s'=%d) is %.12g, file says %.12g", a, s, t, T(s, t), m.T[a][s][t]));
      if (!(fabs(Tt(t, s) - m.T[a][s][t]) < 1.001e-10)) return d("T", fmt("Ttr(a=%d,s'=%d,s=%d) is %.12g, file says %.12g", a, t, s, Tt(t, s), m.T[a][s][t]));
    }
    if (m.pomdp) {
      const cmatrix &O = p->O[a];
      if ((int)O.size1() != m.nS || (int)O.size2() != m.nO) return d("O", "observation matrix has the wrong size");
      for (int s = 0; s < m.nS; s++) for (int o = 0; o < m.nO; o++)
        if (!(fabs(O(s, o) - m.O[a][s][o]) < 1.001e-10)) return d("O", fmt("O(a=%d,s'=%d,o=%d) is %.12g, file says %.12g", a, s, o, O(s, o), m.O[a][s][o]));
    }
    for (int s = 0; s < m.nS; s++) {
      double x = p->R(s, a);
      if (!(fabs(x - m.R[a][s]) < 1e-9 * (1 + fabs(m.R[a][s])))) return d(m.cost ? "cost" : "R", fmt("R(s=%d,a=%d) is %.12g, file says %.12g", s, a, x, m.R[a][s]));
    }
  }
  if ((int)p->isTerminalState.size() != m.nS) return d("terminal", "terminal flags have the wrong size");
  for (int s = 0; s < m.nS; s++)
    if (p->isTerminalState[s] != m.terminal[s]) {
      bool exactZero = true;
      for (int a = 0; a < m.nA; a++) if (p->R(s, a) != 0 && fabs(p->R(s, a)) < 1e-9) exactZero = false;
      if (exactZero) return d("terminal", fmt("state %d terminal: %d, by the file %d", s, (int)p->isTerminalState[s], (int)m.terminal[s]));
    }
  if (m.pomdp) {
    if ((int)p->initialBelief.size() != m.nS) return d("start", "initial belief has the wrong size");
    for (int s = 0; s < m.nS; s++)
      if (!(fabs(p->initialBelief(s) - m.b0[s]) < 1e-9)) return d("start", fmt("initial belief of state %d is %.12g, file says %.12g", s, p->initialBelief(s), m.b0[s]));
  } else if (m.start >= 0) {
    if (p->initialState.size() != 1 || (int)p->initialState(0) != m.start) return d("start", fmt("initial state %g, file says %d", p->initialState(0), m.start));
  }
  // the planner's view of the model
  cvector s0 = p->getInitialState();
  if (!m.pomdp) for (int s = 0; s < m.nS; s++) for (int a = 0; a < m.nA; a++) {
    cvector sv; sv.resize(1); sv.push_back(0, s);
    outcome_prob_vector opv;
    p->getOutcomeProbVector(opv, sv, a);
    Vec got(m.nS, 0.0);
    double tot = 0;
    for (unsigned o = 0; o < opv.size(); o++) { state_vector nx; p->getNextState(nx, sv, a, o); int t = (int)nx(0); if (t < 0 || t >= m.nS) return d("T", "outcome leads to no state"); got[t] += opv(o); tot += opv(o); }
    for (int t = 0; t < m.nS; t++) if (!(fabs(got[t] - m.T[a][s][t]) < 1.001e-10)) return d("T", fmt("outcome of state %d action %d to %d has probability %g, file says %g", s, a, t, got[t], m.T[a][s][t]));
    if (!(fabs(p->getReward(sv, a) - m.R[a][s]) < 1e-9 * (1 + fabs(m.R[a][s])))) return d("R", fmt("reward of state %d action %d is %g", s, a, p->getReward(sv, a)));
    if (p->getIsTerminalState(sv) != p->isTerminalState[s]) return d("terminal", "terminal query differs from flag");
  }
  return "";
}
static const string gProp = getenv("MC_PROP") ? getenv("MC_PROP") : "P08";
static void unload(CassandraModel *p) { delete p; }

static void judgeFull(const string &text, bool pomdp);
// a file the format accepts, through the full reader
static void accept(const string &text, bool pomdp) {
  RefParser r;
  r.parse(text, pomdp);
  if (r.verdict != RefParser::VALID) { RP->count("not_wellformed"); return; }
  // files with the feature of a known finding may be refused: those in their own process
  RefParser bug;
  bool known = r.resetUsed;
  if (known) { bug.bugReset = true; bug.parse(text, pomdp); }
  if (r.startStar || r.bigInt || known && bug.verdict != RefParser::VALID) { judgeFull(text, pomdp); return; }
  RP->describe(text.substr(0, 200000));
  string fn = fileFor(pomdp);
  put(fn, text);
  CassandraModel *p = load(fn, pomdp, false);
  string key, d = differ(p, r.m, key);
  string k2;
  if (d != "" && known && differ(p, bug.m, k2) == "") RP->fail("reset-keeps-row", d);
  else if (d != "") RP->fail("meaning-" + key, d);
  uint64_t h = hdbl(p->R(0, 0));
  for (int a = 0; a < r.m.nA; a++) for (int s = 0; s < r.m.nS; s++) h = mix(h, hdbl(p->R(s, a)) + hdbl(p->T[a](s, 0)));
  RP->outcome(h);
  unload(p);
  RP->count("files");
  RP->sample(text.substr(0, 400));
}

// ---- text generation
static string pre(bool pomdp, int nS, int nA, int nO, const string &values = "reward", const string &disc = "0.95") {
  string s = "discount: " + disc + "\nvalues: " + values + fmt("\nstates: %d\nactions: %d\n", nS, nA);
  if (pomdp) s += fmt("observations: %d\n", nO);
  return s;
}
// a transition/observation part whose probabilities are all positive and distinct
static string dense(bool pomdp, int nS, int nA, int nO) {
  string s;
  int k = 0;
  for (int a = 0; a < nA; a++) for (int i = 0; i < nS; i++) {
    s += fmt("T: %d : %d\n", a, i);
    vector<int> w(nS);
    int tot = 0;
    for (int j = 0; j < nS; j++) tot += w[j] = 100 + (k++ * 37 + j * 53) % 89;
    double left = 1;
    for (int j = 0; j < nS; j++) { double v = j + 1 < nS ? floor(w[j] * 1000.0 / tot) / 1000 : left; left -= v; s += fmt("%.3f ", v); }
    s += "\n";
  }
  if (pomdp) for (int a = 0; a < nA; a++) for (int i = 0; i < nS; i++) {
    s += fmt("O: %d : %d\n", a, i);
    vector<int> w(nO);
    int tot = 0;
    for (int j = 0; j < nO; j++) tot += w[j] = 100 + (k++ * 41 + j * 29) % 97;
    double left = 1;
    for (int j = 0; j < nO; j++) { double v = j + 1 < nO ? floor(w[j] * 1000.0 / tot) / 1000 : left; left -= v; s += fmt("%.3f ", v); }
    s += "\n";
  }
  return s;
}
static string ent(int i) { return i < 0 ? "*" : fmt("%d", i); }
// all sequences of length n over alphabet, each joined; f gets the text
static void sequences(const vector<string> &al, int n, std::function<void(const string &)> f) {
  vector<int> ix(n, 0);
  if (al.empty()) return;
  for (;;) {
    string s;
    for (int i : ix) s += al[i];
    f(s);
    int k = n - 1;
    while (k >= 0 && ++ix[k] == (int)al.size()) ix[k--] = 0;
    if (k < 0) break;
  }
}

// reward statements; level 0 only a few value patterns
static vector<string> rewardStmts(bool pomdp, int nS, int nA, int nO, int vshift, bool small) {
  vector<string> r;
  auto idx = [&](int n) { vector<int> v; v.push_back(-1); for (int i = 0; i < (small ? std::min(n, 2) : n); i++) v.push_back(i); return v; };
  auto val = [&](int i) { return fmt("%g", VALS[(i + vshift) % 9]); };
  for (int a : idx(nA)) for (int s : idx(nS)) {
    if (pomdp) {
      for (int t : idx(nS)) {
        for (int o : idx(nO)) {
          r.push_back("R: " + ent(a) + " : " + ent(s) + " : " + ent(t) + " : " + ent(o) + " " + val(0) + "\n");
          if (!small) r.push_back("R: " + ent(a) + " : " + ent(s) + " : " + ent(t) + " : " + ent(o) + " 0\n");
        }
        for (int pat = 0; pat < (small ? 1 : 3); pat++) {
          string x = "R: " + ent(a) + " : " + ent(s) + " : " + ent(t) + "\n ";
          for (int o = 0; o < nO; o++) x += " " + (pat == 2 || (pat == 1 && o == 0) || (small && o == nO - 1) ? string("0") : val(o + 1));
          r.push_back(x + "\n");
        }
      }
      for (int pat = 0; pat < (small ? 1 : 3); pat++) {
        string x = "R: " + ent(a) + " : " + ent(s) + "\n";
        for (int t = 0; t < nS; t++) { for (int o = 0; o < nO; o++) x += " " + (pat == 2 || (pat == 1 && (t + o) % 2 == 0) || (small && t == 0 && o == 0) ? string("0") : val(t * nO + o + 2)); x += "\n"; }
        r.push_back(x);
      }
    } else {
      for (int t : idx(nS)) {
        r.push_back("R: " + ent(a) + " : " + ent(s) + " : " + ent(t) + " " + val(0) + "\n");
        if (!small) r.push_back("R: " + ent(a) + " : " + ent(s) + " : " + ent(t) + " 0\n");
      }
      for (int pat = 0; pat < 3; pat++) {
        string x = "R: " + ent(a) + " : " + ent(s) + "\n";
        for (int t = 0; t < nS; t++) x += " " + (pat == 2 || (pat == 1 && t == 0) ? string("0") : val(t + 2));
        r.push_back(x + "\n");
      }
    }
  }
  if (!pomdp) for (int a : idx(nA)) for (int pat = 0; pat < 3; pat++) {
    string x = "R: " + ent(a) + "\n";
    for (int s = 0; s < nS; s++) { for (int t = 0; t < nS; t++) x += " " + (pat == 2 || (pat == 1 && (s + t) % 2 == 0) ? string("0") : val(s * nS + t + 1)); x += "\n"; }
    r.push_back(x);
  }
  return r;
}
static vector<string> probStmts(char kind, int nX, int nA, int nY, bool reset, bool small) {
  // kind T: rows nX states over nY states; kind O: rows nX states over nY observations
  vector<string> r;
  auto idx = [&](int n) { vector<int> v; v.push_back(-1); for (int i = 0; i < n; i++) v.push_back(i); return v; };
  string K(1, kind);
  static const char *ps[] = {"0", "0.25", "0.5", "0.75", "1"};
  auto row = [&](int pat) {
    string x;
    for (int j = 0; j < nY; j++) {
      const char *v = "0";
      if (pat < nY) v = j == pat ? "1" : "0";                       // point mass
      else if (pat == nY) v = j == 0 ? "0.25" : j == nY - 1 ? "0.75" : "0";
      else v = j == 0 ? "0.75" : j == nY - 1 ? "2.5e-1" : "0.0";
      x += string(" ") + v;
    }
    return x;
  };
  for (int a : idx(nA)) {
    for (int s : idx(nX)) {
      for (int t : idx(nY)) for (auto p : ps) if (!small || p[1] == 0) r.push_back(K + ": " + ent(a) + " : " + ent(s) + " : " + ent(t) + " " + p + "\n");
      for (int pat = 0; pat < nY + 2; pat++) if (!small || pat == nY || pat == 0) r.push_back(K + ": " + ent(a) + " : " + ent(s) + row(pat) + "\n");
      r.push_back(K + ": " + ent(a) + " : " + ent(s) + " uniform\n");
      if (reset && kind == 'T') r.push_back(K + ": " + ent(a) + " : " + ent(s) + " reset\n");
    }
    r.push_back(K + ": " + ent(a) + " uniform\n");
    if (kind == 'T') r.push_back(K + ": " + ent(a) + " identity\n");
    for (int rot = 0; rot < 2; rot++) {
      string x = K + ": " + ent(a) + "\n";
      for (int s = 0; s < nX; s++) x += row((s + rot) % (nY + 2)) + "\n";
      r.push_back(x);
    }
  }
  return r;
}

static void rewards() {
  Run &R = *RP;
  struct Sz { int nS, nA, nO; };
  for (bool pomdp : {true, false}) for (Sz z : {Sz{2, 2, 2}, Sz{3, 2, 2}, Sz{2, 1, 3}, Sz{1, 1, 1}, Sz{2, 3, 1}}) {
    string base = pre(pomdp, z.nS, z.nA, z.nO) + (pomdp ? "" : "start: 0\n") + dense(pomdp, z.nS, z.nA, z.nO);
    R.run([&] { return string("no reward statements"); }, [&] { accept(base, pomdp); });
    auto s1 = rewardStmts(pomdp, z.nS, z.nA, z.nO, 0, false), s2 = rewardStmts(pomdp, z.nS, z.nA, z.nO, 4, false);
    bool two = z.nS * z.nA * z.nO <= (R.thorough ? 12 : 8);
    for (auto &a : s1)
      R.run([&] { return base + a; }, [&] {
        accept(base + a, pomdp);
        string c = pre(pomdp, z.nS, z.nA, z.nO, "cost") + base.substr(base.find(pomdp ? "T:" : "start"));
        accept(c + a, pomdp);
        if (two) for (auto &b : s2) accept(base + a + b, pomdp);
      });
    if (z.nS == 2 && z.nA == 2) {
      // three statements over the small alphabet
      auto t1 = rewardStmts(pomdp, 2, 2, 2, 0, true), t2 = rewardStmts(pomdp, 2, 2, 2, 4, true), t3 = rewardStmts(pomdp, 2, 2, 2, 6, true);
      int st = R.thorough || !pomdp ? 1 : 4;
      for (size_t i = 0; i < t1.size(); i += st)
        R.run([&] { return base + t1[i]; }, [&] { for (size_t j = i % 3; j < t2.size(); j += st > 1 ? 3 : 1) for (size_t k = j % 3; k < t3.size(); k += st > 1 ? 3 : 1) accept(base + t1[i] + t2[j] + t3[k], pomdp); });
    }
  }
}
static void probabilities() {
  Run &R = *RP;
  for (bool pomdp : {true, false}) for (char kind : {'T', 'O'}) {
    if (!pomdp && kind == 'O') continue;
    for (int sz = 0; sz < 3; sz++) {
      int nS = sz == 1 ? 3 : 2, nA = sz == 2 ? 1 : 2, nO = sz == 2 ? 3 : 2;
      if (sz == 1 && kind == 'O') continue;
      for (const char *start : {"start: 0.25 0.75\n", "start: 1\n"}) {
        if (pomdp != (strlen(start) > 9)) continue;
        string st = pomdp && nS == 3 ? "start: 0.25 0 0.75\n" : start;
        if (pomdp && kind == 'O') st = "";
        string head = pre(pomdp, nS, nA, nO) + st;
        string other = kind == 'T' ? (pomdp ? "O: * uniform\n" : "") : "T: * identity\n";
        string rw = pomdp ? "R: * : 0 : * : 0 3\nR: 0 : 1 : 1 : * -2\n" : "R: * : 0 : 1 3\nR: 0 : 1 : * -2\n";
        auto al = probStmts(kind, nS, nA, kind == 'T' ? nS : nO, true, false);
        auto sm = probStmts(kind, nS, nA, kind == 'T' ? nS : nO, true, true);
        // complete statements first so that partial overrides can be seen, then up to two more
        vector<string> firsts = {string(1, kind) + ": * uniform\n"};
        if (kind == 'T') firsts.push_back("T: * identity\n");
        firsts.push_back("");
        for (auto &f : firsts) for (auto &a : al)
          R.run([&] { return head + f + a; }, [&] {
            accept(head + f + a + other + rw, pomdp);
            if (sz == 1 && !R.thorough) { for (size_t j = 0; j < sm.size(); j++) accept(head + f + a + sm[j] + other + rw, pomdp); return; }
            for (auto &b : al) {
              accept(head + f + a + b + other + rw, pomdp);
              if (sz == 0 && (R.thorough || f == "")) for (auto &c : sm) accept(head + f + a + b + c + other + rw, pomdp);
            }
          });
      }
    }
  }
}
static void starts() {
  Run &R = *RP;
  for (bool named : {false, true}) for (int nS = 1; nS <= 4; nS++) {
    vector<string> nm;
    for (int i = 0; i < nS; i++) nm.push_back(named ? string("st") + "dbca"[i] : fmt("%d", i));
    string sts;
    for (auto &x : nm) sts += " " + x;
    if (!named) sts = fmt(" %d", nS);
    vector<string> forms = {"", "start: uniform\n"};
    // lists in quarters
    std::function<void(int, int, string)> rec = [&](int i, int left, string s) {
      if (i == nS) { if (left == 0) forms.push_back("start:" + s + "\n"); return; }
      for (int k = 0; k <= left; k++) rec(i + 1, left - k, s + (k == 4 ? " 1" : k == 0 ? " 0" : k == 2 ? " 5e-1" : fmt(" %.2f", k / 4.0)));
    };
    rec(0, 4, "");
    if (named) for (auto &x : nm) forms.push_back("start: " + x + "\n");
    for (const char *w : {"include", "exclude"}) {
      for (int len = 1; len <= 3; len++) {
        vector<string> al;
        for (auto &x : nm) al.push_back(" " + x);
        sequences(al, len, [&](const string &s) { forms.push_back(string("start ") + w + ":" + s + "\n"); });
      }
      // mixing names and numbers, and the wildcard
      forms.push_back(string("start ") + w + ": 0" + (named ? " " + nm[nS - 1] : "") + "\n");
      forms.push_back(string("start ") + w + ": *\n");
    }
    for (auto &f : forms)
      R.run([&] { return f; }, [&] {
        string pr = "discount: 0.9\nvalues: reward\nstates:" + sts + "\nactions: 2\nobservations: 2\n";
        for (const char *t : {"T: * identity\n", "T: 0 uniform\nT: 1 identity\nT: 1 : * reset\n", "T: * : * reset\n", "T: * uniform\nT: 0 : 0 reset\n"})
          accept(pr + f + t + "O: * uniform\nR: * : * : * : 1 2\nR: 1 : 0 : * : * -3\n", true);
      });
    // MDP
    vector<string> mf;
    for (int i = 0; i < nS; i++) mf.push_back(fmt("start: %d\n", i));
    if (named) for (auto &x : nm) mf.push_back("start: " + x + "\n");
    for (auto &f : mf)
      R.run([&] { return f; }, [&] {
        string pr = "discount: 0.9\nvalues: reward\nstates:" + sts + "\nactions: 2\n";
        for (const char *t : {"T: * identity\n", "T: 0 uniform\nT: 1 identity\nT: 1 : * reset\n", "T: * : * reset\n", "T: * uniform\nT: 0 : 0 reset\n"})
          accept(pr + f + t + "R: * : * : * 2\nR: 1 : 0 : * -3\n", false);
      });
  }
}
static void preambles() {
  Run &R = *RP;
  vector<vector<string>> part = {
      {"discount: 0.95\n", "discount: 1\n", "discount:0\n", "discount : +0.5\n", "discount: 9.5e-1\n", "discount: 1.0E0\n"},
      {"values: reward\n", "values: cost\n"},
      {"states: 2\n", "states: left right\n", "states: b a\n", "states: ab ba\n", "states: T1 start_2\n", "states: Reward T-O\n"},
      {"actions: 2\n", "actions: left right\n", "actions: ab ba\n", "actions: b a\n"},
      {"observations: 2\n", "observations: ab ba\n", "observations: right left\n"}};
  vector<int> perm = {0, 1, 2, 3, 4};
  do {
    R.run([&] { return fmt("preamble order %d%d%d%d%d", perm[0], perm[1], perm[2], perm[3], perm[4]); }, [&] {
      // deviate one or two parts from the first choice; under the identity order all combinations
      bool full = std::is_sorted(perm.begin(), perm.end()) || R.thorough;
      vector<int> c(5, 0);
      for (;;) {
        int dev = 0;
        for (int i = 0; i < 5; i++) dev += c[i] != 0;
        if (full || dev <= 2) {
          string s, body;
          for (int i : perm) s += part[i][c[i]];
          auto name = [&](int kind, int i) {   // by name where there is one, else by number
            const string &t = part[kind + 2][c[kind + 2]];
            if (c[kind + 2] == 0) return fmt("%d", i);
            std::istringstream in(t.substr(t.find(':') + 1));
            string x, y; in >> x >> y;
            return i ? y : x;
          };
          string S0 = name(0, 0), S1 = name(0, 1), A0 = name(1, 0), A1 = name(1, 1), O0 = name(2, 0), O1 = name(2, 1);
          body = "T: * identity\nT: " + A1 + " : " + S0 + " : " + S0 + " 0.25\nT: " + A1 + " : " + S0 + " : " + S1 + " 0.75\n"
                 "O: * uniform\nO: " + A0 + " : " + S1 + " : " + O0 + " 0.875\nO: " + A0 + " : " + S1 + " : " + O1 + " 0.125\n"
                 "R: " + A0 + " : " + S0 + " : * : " + O1 + " 4\nR: " + A1 + " : * : " + S1 + " : " + O0 + " -1.5\n";
          accept(s + body, true);
          accept(s + "start: " + (c[2] ? S1 : string("0 1")) + "\n" + body, true);
          // numbers are allowed next to names
          accept(s + "start include: 1\nT: * identity\nT: 0 : " + S1 + " : 0 1\nT: " + A0 + " : 1 : 1 0\nO: * uniform\nR: 1 : " + S1 + " : 0 : " + O1 + " 7\n", true);
          string sm;
          for (int i : perm) if (i != 4) sm += part[i][c[i]];
          if (c[4] == 0) accept(sm + "start: " + S1 + "\nT: * identity\nT: " + A1 + " : " + S0 + " : " + S0 + " 0.25\nT: " + A1 + " : " + S0 + " : " + S1 + " 0.75\nR: " + A1 + " : " + S0 + " : " + S1 + " 6\nR: " + A0 + " : * 1 2\n", false);
        }
        int k = 4;
        while (k >= 0 && ++c[k] == (int)part[k].size()) c[k--] = 0;
        if (k < 0) break;
      }
    });
  } while (std::next_permutation(perm.begin(), perm.end()));
}
static void layouts() {
  Run &R = *RP;
  // the same file in every layout
  string t = "discount : 0.9 \n values : cost \n states : 2 \n actions : 2 \n observations : 2 \n start : 0.25 0.75 \n"
             " T : 0 : 0 : 1 1.0 \n T : 0 : 1 0.5 0.5 \n T : 1 identity \n O : * \n 0.75 0.25 \n 0.125 0.875 \n"
             " R : 0 : * : 1 : * -4 \n R : 1 : 0 \n 1 2 \n 3 4 \n R : * : 1 : 0 \n +5 -6.5 \n";
  std::istringstream in(t);
  vector<string> tok;   // with newlines as tokens
  { string line; while (std::getline(in, line)) { std::istringstream l(line); string w; while (l >> w) tok.push_back(w); tok.push_back("\n"); } }
  vector<string> seps = {" ", "\t", "\n", "  \r\n", "# c : * T R 1\n", "\n\n#\n \n"};
  for (size_t i = 0; i < seps.size(); i++) for (size_t j = 0; j < seps.size(); j++)
    R.run([&] { return fmt("layout %zu %zu", i, j); }, [&] {
      string s;
      for (auto &w : tok) s += w == "\n" ? (seps[j] == " " && i == 0 ? string(" ") : seps[j]) : w + (seps[i][0] == '#' ? " " : "") + seps[i];
      accept(s, true);
      // one unusual separator at every place
      for (size_t k = 0; k < tok.size(); k++) {
        string u;
        for (size_t q = 0; q < tok.size(); q++) u += tok[q] + (q == k ? " " + seps[i] + seps[j] : tok[q] == "\n" ? "" : " ");
        accept(u, true);
      }
    });
  // no space where none is needed, no newline at the end, last line a comment
  R.run([&] { return string("compact"); }, [&] {
    string s;
    for (auto &w : tok) { if (s.size() && (isalnum((unsigned char)s.back())) && isalnum((unsigned char)w[0])) s += " "; s += w == "\n" ? " " : w; }
    accept(s, true);
    for (const char *e : {"", "\n", "#", "# end", " #\n", "\r"}) { string u; for (auto &w : tok) u += w + " "; while (isspace((unsigned char)u.back())) u.pop_back(); accept(u + e, true); }
    // long lines
    for (int n : {1000, 5000, 8191, 8192, 8193, 16384, 20000, 70000}) { accept(t + "#" + string(n, 'x') + "\nR: 0 : 0 : 0 : 0 9\n", true); accept(t + "R: 0 : 0 : 0 : 0" + string(n, ' ') + "9\n", true); }
  });
  // number forms
  vector<string> nums = {"5", "+5", "-5", "5.", "5.0", "-5.25", "+0.5", "5e1", "5E1", "5e+1", "5e-1", "5.e1", "5.5e01", "- 5", "+ 5", "0", "-0", "0.0", "00005", "1e-8", "123456789", "2147483647", "2147483648", "-3000000000", "99999999999", "1e10", "-1.5e+9", "0.1000000000000000055"};
  for (auto &n : nums)
    R.run([&] { return "number " + n; }, [&] {
      string h = "discount: 0.9\nvalues: reward\nstates: 2\nactions: 1\nobservations: 2\n", b = "T: * uniform\nO: * uniform\n";
      accept(h + b + "R: * : 0 : * : * " + n + "\n", true);
      accept(h + b + "R: * : 0 : 1\n" + n + " 1\n", true);
      accept(h + b + "R: * : 0\n 1 2 3 " + n + "\n", true);
      accept("discount: 0.9\nvalues: cost\nstates: 2\nactions: 1\nstart: 1\nT: * uniform\nR: 0 : 0 : 1 " + n + "\n", false);
      accept("discount: " + n + "\nvalues: reward\nstates: 2\nactions: 1\nobservations: 2\n" + b + "R: * : * : * : * 1\n", true);
    });
  // names of every length, and names close to reserved words
  for (int len = 1; len <= (R.thorough ? 300 : 80); len++)
    R.run([&] { return fmt("names of length %d", len); }, [&] {
      string a(len, 'a'), b(len, 'b'), c = string(len - 1, 'a') + "c";
      accept("discount: 0.9\nvalues: reward\nstates: " + a + " " + b + " " + c + "\nactions: " + b + " " + a + "\nobservations: " + c + " " + a + "\nstart: " + c +
                 "\nT: * identity\nT: " + a + " : " + c + " : " + c + " 0.5\nT: " + a + " : " + c + " : " + a + " 0.5\nO: * uniform\nR: " + b + " : " + a + " : * : " + a + " 3\n", true);
    });
  for (const char *n : {"t", "o", "r", "State", "state", "rewards", "discounted", "uniform1", "Start", "T_", "O-", "x1y2", "e5", "E", "Identity", "costs"})
    R.run([&] { return string("name ") + n; }, [&] {
      accept(string("discount: 0.9\nvalues: reward\nstates: x ") + n + "\nactions: " + n + "\nobservations: " + n + " y\nstart: " + n + "\nT: " + n + " : x : " + n + " 1\nT: * : " + n + " uniform\nO: * : * : " + n + " 0.25\nO: " + n + " : * : y 0.75\nR: " + n + " : " + n + " : x : " + n + " 2\n", true);
    });
  // many names: collisions in any table of names
  for (int n : {10, 26, 100, 300})
    R.run([&] { return fmt("%d names", n); }, [&] {
      string st, t = "T: * uniform\n", rw;
      vector<string> nm;
      for (int i = 0; i < n; i++) { nm.push_back(fmt("%c%c%d", 'a' + i % 26, 'a' + i / 26 % 26, i * 7919 % 97)); st += " " + nm.back(); }
      for (int i = 0; i < n; i++) rw += "R: 0 : " + nm[i] + " : * : * " + fmt("%d", i + 1) + "\n";
      for (int i = 0; i < n; i += 3) t += "T: 0 : " + nm[i] + " : * 0\nT: 0 : " + nm[i] + " : " + nm[(i * 5 + 1) % n] + " 1\n";
      accept("discount: 0.9\nvalues: reward\nstates:" + st + "\nactions: 1\nobservations:" + st + "\nstart: " + nm[n / 2] + "\n" + t + "O: * uniform\n" + rw, true);
    });
}
// kind 0: all closed, 1: action a1 leaves, 2: pays, 3: leaves with a tiny chance
static string closed(bool pomdp, int nA, int a1, int kind) {
  string s = pre(pomdp, 3, nA, 2) + (pomdp ? "start: 0 0 1\n" : "start: 2\n");
  for (int a = 0; a < nA; a++) for (int i = 0; i < 3; i++) {
    bool me = i == 1 && a == a1;
    if (me && kind == 1) s += fmt("T: %d : 1 : 0 1\n", a);
    else if (me && kind == 3) s += fmt("T: %d : 1 : 0 0.001\nT: %d : 1 : 1 0.999\n", a, a);
    else s += fmt("T: %d : %d : %d 1\n", a, i, i == 2 ? (a % 2) : i);
    if (pomdp) s += fmt("O: %d : %d : %d 1\n", a, i, i % 2);
    if (me && kind == 2) s += fmt("R: %d : 1 : *%s 0.5\n", a, pomdp ? " : *" : "");
  }
  return s;
}
static void larger() {
  Run &R = *RP;
  for (int nS : {4, 7, 12, 25}) for (int nA : {1, 3}) for (int nO : {1, 2, 5}) for (int pat = 0; pat < 6; pat++)
    R.run([&] { return fmt("larger %d %d %d pattern %d", nS, nA, nO, pat); }, [&] {
      for (bool pomdp : {true, false}) {
        if (!pomdp && nO != 1) continue;
        string s = pre(pomdp, nS, nA, nO, pat % 2 ? "cost" : "reward") + (pomdp ? "" : fmt("start: %d\n", nS - 1));
        for (int a = 0; a < nA; a++) {
          // matrix, rows or entries with structured sparsity
          vector<Vec> T(nS, Vec(nS, 0.0));
          for (int i = 0; i < nS; i++) { int x = (i * (pat + 2) + a) % nS, y = (i + 1) % nS; T[i][x] += .375; T[i][y] += .625; }
          if (pat < 2) { s += fmt("T: %d\n", a); for (auto &r : T) { for (double v : r) s += fmt("%g ", v); s += "\n"; } }
          else if (pat < 4) for (int i = nS - 1; i >= 0; i--) { s += fmt("T: %d : %d\n", a, i); for (double v : T[i]) s += fmt("%g ", v); s += "\n"; }
          else for (int j = nS - 1; j >= 0; j--) for (int i = 0; i < nS; i++) if (T[i][j] != 0) s += fmt("T: %d : %d : %d %g\n", a, i, j, T[i][j]);
          if (pomdp) {
            s += fmt("O: %d\n", a);
            for (int i = 0; i < nS; i++) { for (int o = 0; o < nO; o++) s += o == (i + pat) % nO ? (nO > 1 ? "0.75 " : "1 ") : o == (i + pat + 1) % nO ? "0.25 " : "0 "; s += "\n"; }
          }
        }
        for (int a = 0; a < nA; a++) {
          if (pat % 3 == 0) for (int i = 0; i < nS; i += 2) { s += fmt("R: %d : %d : * ", a, i) + (pomdp ? ": * " : "") + fmt("%d\n", i * 3 - a); }
          if (pat % 3 == 1) { s += pomdp ? fmt("R: %d : %d\n", a, (a * 3) % nS) : fmt("R: %d\n", a); int n = pomdp ? nS * nO : nS * nS; for (int k = 0; k < n; k++) s += fmt("%d ", (k * 7) % 5 - 2); s += "\n"; }
          if (pat % 3 == 2) for (int i = 0; i < nS; i++) s += fmt("R: * : %d : %d ", i, (i * 2) % nS) + (pomdp ? fmt(": %d ", i % nO) : "") + fmt("%g\n", i * .5 - 1);
        }
        accept(s, pomdp);
      }
    });
  // one of up to four actions leaves or pays in an otherwise closed state
  for (int nA = 2; nA <= 4; nA++) for (int a1 = 0; a1 < nA; a1++) for (int kind = 0; kind < 4; kind++)
    R.run([&] { return fmt("closed state of %d actions, %d differs", nA, a1); }, [&] { for (bool pomdp : {true, false}) accept(closed(pomdp, nA, a1, kind), pomdp); });
  // terminal states: every assignment of self-loops and rewards on two states
  for (int k = 0; k < 256; k++)
    R.run([&] { return fmt("terminal %d", k); }, [&] {
      for (bool pomdp : {true, false}) {
        string s = pre(pomdp, 2, 2, 2) + (pomdp ? "" : "start: 0\n");
        for (int a = 0; a < 2; a++) for (int i = 0; i < 2; i++) {
          bool self = k >> (a * 2 + i) & 1, rw = k >> (4 + a * 2 + i) & 1;
          s += fmt("T: %d : %d : %d 1\n", a, i, self ? i : 1 - i);
          if (pomdp) { if (rw) s += fmt("R: %d : %d : * : %d -1\n", a, i, a); }
          else if (rw) s += fmt("R: %d : %d : %d 2\n", a, i, self ? i : 1 - i);
        }
        if (pomdp) s += "O: * uniform\nO: 1 : * : 1 1\nO: 1 : * : 0 0\n";
        s += pomdp ? "R: 1 : 0 : 1 : 1 0\n" : "R: 1 : 0 : 1 0\n";
        accept(s, pomdp);
      }
    });
}

#include "parse_fast.h"

void mc_enumerate(Run &R) {
  RP = &R;
  const string &prop = gProp;
  if (prop == "P08") { rewards(); probabilities(); starts(); preambles(); layouts(); larger(); }
  else if (prop == "P09") fastReader();
  else malformed();
}
