// refparse.h - an independent reading of the model file format (Cassandra's POMDP
// format): text in, verdict and dense model out.
#ifndef REFPARSE_H_
#define REFPARSE_H_
#include "mc.h"
#include "models.h"

namespace mc {

struct RefModel {
  int nS = 0, nA = 0, nO = 0;
  bool pomdp = false, cost = false;
  double discount = 0;
  vector<Mat> T, O;                       // T[a][s][t], O[a][t][o]
  vector<double> r;                       // reward(a,s,t,o), o dimension >= 1
  double &rw(int a, int s, int t, int o) { return r[((a * nS + s) * nS + t) * std::max(1, nO) + o]; }
  Vec b0;
  int start = -1;                         // MDP start state, -1: none given
  Mat R;                                  // R[a][s], expectation
  vector<bool> terminal;
};

struct RefParser {
  enum Verdict { VALID, INVALID, UNSPEC };
  enum Kind { INT, FLT, STR, STAR, PLUS, MINUS, COLON, WORD, END };
  struct Tok { Kind k; string s; double v; };
  vector<Tok> toks;
  size_t p = 0;
  RefModel m;
  Verdict verdict = VALID;
  bool lenient = false;                   // number forms of C, and a single start state
  string why;
  bool expectP = false, overflow = false, cNumber = false;
  // readings of the known findings: what the full reader makes of such a file
  bool bugInt = false, bugReset = false;
  bool bigInt = false, resetUsed = false, startStar = false;
  std::map<string, int> names[3];         // states, actions, observations
  struct Bad {};
  void bad(const string &w) { if (verdict != INVALID) { verdict = INVALID; why = w; } throw Bad(); }
  void soft(const string &w) { if (verdict != INVALID) { verdict = INVALID; why = w; } }   // invalid, go on
  void unspec(const string &w) { if (verdict == VALID) { verdict = UNSPEC; why = w; } throw Bad(); }

  static bool reserved(const string &s) {
    static const char *w[] = {"discount", "values", "states", "actions", "observations", "T", "O", "R", "uniform", "identity",
                              "reward", "cost", "start", "include", "exclude", "reset"};
    for (auto x : w) if (s == x) return true;
    return false;
  }
  void lex(const string &t) {
    size_t i = 0, n = t.size();
    while (i < n) {
      unsigned char c = t[i];
      if (c == ' ' || c == '\t' || c == '\r' || c == '\n') { i++; continue; }
      if (c == '#') { while (i < n && t[i] != '\n') i++; continue; }
      if (lenient && (c == '.' || c == '+' || c == '-') && toks.size() && toks.back().k != COLON || lenient && c == '.') {
        size_t j = i + (c != '.');
        if (j < n && (isdigit((unsigned char)t[j]) || (t[j] == '.' && j + 1 < n && isdigit((unsigned char)t[j + 1])))) {
          char *e;
          double v = strtod(t.c_str() + i, &e);
          string s = t.substr(i, e - t.c_str() - i);
          toks.push_back({s.find_first_of(".eE") != string::npos ? FLT : INT, s, v});
          i = e - t.c_str();
          if (i < n && isalpha((unsigned char)t[i])) cNumber = true;
          continue;
        }
      }
      if (lenient && (c == '+' || c == '-') && toks.size() && toks.back().k == COLON && i + 1 < n && isdigit((unsigned char)t[i + 1]) &&
          (c == '+' || strtod(t.c_str() + i, NULL) == 0)) cNumber = true;       // -0 as an index
      if (c < 128 && isdigit(c)) {
        size_t j = i;
        while (j < n && isdigit((unsigned char)t[j])) j++;
        bool isF = false;
        if (j < n && t[j] == '.') { isF = true; j++; while (j < n && isdigit((unsigned char)t[j])) j++; }
        if (j < n && (t[j] == 'e' || t[j] == 'E')) {
          size_t k = j + 1;
          if (k < n && (t[k] == '+' || t[k] == '-')) k++;
          if (k < n && isdigit((unsigned char)t[k])) { while (k < n && isdigit((unsigned char)t[k])) k++; j = k; isF = true; }
        }
        string s = t.substr(i, j - i);
        if (lenient && j < n && (s == "0" && (t[j] == 'x' || t[j] == 'X') || t[j] == 'e' || t[j] == 'E')) cNumber = true;
        double v = strtod(s.c_str(), NULL);
        if (v > 1.7976931348623157e308) overflow = true;
        if (!isF && v > 2147483647.0) { bigInt = true; if (bugInt) v = (double)(int)strtol(s.c_str(), NULL, 10); }
        toks.push_back({isF ? FLT : INT, s, v});
        i = j;
        continue;
      }
      if (c < 128 && isalpha(c)) {
        size_t j = i;
        while (j < n && (isalnum((unsigned char)t[j]) || t[j] == '-' || t[j] == '_') && (unsigned char)t[j] < 128) j++;
        string s = t.substr(i, j - i);
        toks.push_back({reserved(s) ? WORD : STR, s, 0});
        i = j;
        continue;
      }
      i++;
      if (c == '*') toks.push_back({STAR, "*", 0});
      else if (c == '+') toks.push_back({PLUS, "+", 0});
      else if (c == '-') toks.push_back({MINUS, "-", 0});
      else if (c == ':') toks.push_back({COLON, ":", 0});
      else soft("illegal character");
    }
    toks.push_back({END, "", 0});
  }
  const Tok &cur() const { return toks[p]; }
  bool isWord(const char *w) const { return cur().k == WORD && cur().s == w; }
  void eatColon() { if (cur().k != COLON) bad("expected ':'"); p++; }
  bool isNumberStart() const { return cur().k == INT || cur().k == FLT || cur().k == PLUS || cur().k == MINUS; }
  double number() {
    double sg = 1;
    if (cur().k == PLUS) p++;
    else if (cur().k == MINUS) { sg = -1; p++; }
    if (cur().k != INT && cur().k != FLT) bad("expected a number");
    return sg * toks[p++].v;
  }
  bool isProb() const { return cur().k == INT || cur().k == FLT; }
  double prob() {
    if (!isProb()) bad("expected a probability");
    double v = toks[p++].v;
    if (v < 0 || v > 1) soft("probability outside [0,1]");
    return v;
  }
  // an entity of the given kind; -1 for the wildcard
  int entity(int kind, int n) {
    if (cur().k == STAR) { p++; return -1; }
    if (cur().k == INT) {
      double v = toks[p++].v;
      if (v >= n || v < 0) { soft("index out of range"); return 0; }
      return (int)v;
    }
    if (cur().k == STR) {
      string s = toks[p++].s;
      if (!names[kind].count(s) || names[kind][s] >= n) { soft("unknown name"); return 0; }
      return names[kind][s];
    }
    bad("expected a state, action or observation");
    return 0;
  }
  bool isEntity() const { return cur().k == STAR || cur().k == INT || cur().k == STR; }
  template <class F> void each(int i, int n, F f) { if (i >= 0) f(i); else for (int k = 0; k < n; k++) f(k); }

  void parse(const string &text, bool expectPomdp) {
    lex(text);
    expectP = expectPomdp;
    if (overflow && !bugInt) { verdict = UNSPEC; why = "number too large"; return; }
    if (cNumber) { verdict = UNSPEC; why = "C number form"; return; }
    try { go(); } catch (Bad &) {}
    if (verdict == VALID && m.pomdp != expectPomdp) { verdict = INVALID; why = "wrong kind of model"; }
  }
  void go() {
    bool have[5] = {0, 0, 0, 0, 0};
    int *cnt[3] = {&m.nS, &m.nA, &m.nO};
    bool repeated = false, started = false;
    for (;;) {
      if (isWord("discount")) {
        p++; eatColon();
        double d = number();
        if (d < 0 || d > 1) soft("discount outside [0,1]");
        m.discount = d; repeated |= have[0]; have[0] = true;
      } else if (isWord("values")) {
        p++; eatColon();
        if (isWord("reward")) m.cost = false;
        else if (isWord("cost")) m.cost = true;
        else bad("values: reward or cost");
        p++; repeated |= have[1]; have[1] = true;
      } else if (isWord("states") || isWord("actions") || isWord("observations")) {
        int k = isWord("states") ? 0 : isWord("actions") ? 1 : 2;
        p++; eatColon();
        if (cur().k == INT) {
          double v = toks[p++].v;
          if (v < 1) soft("count must be positive");
          if (v > 2147483647.0) bad("count too large");
          if (v > 3000) unspec("huge model");
          *cnt[k] = std::max(1, (int)v);
        } else if (cur().k == STR) {
          int c = have[2 + k] ? *cnt[k] : 0;
          while (cur().k == STR) {
            if (names[k].count(cur().s)) soft("duplicate name");
            else names[k][cur().s] = c++;
            p++;
          }
          *cnt[k] = c;
        } else bad("expected a count or names");
        repeated |= have[2 + k]; have[2 + k] = true;
      } else if (lenient && have[2] && isWord("start")) {
        // the fast reader takes the start statement anywhere after the states
        if (m.nS > 3000) unspec("huge model");
        m.b0.assign(m.nS, 0.0);
        m.pomdp = expectP;
        startState();
        repeated |= started; started = true;
      } else break;
    }
    if (!have[0]) soft("no discount");
    if (!have[1]) soft("no values");
    if (!have[2]) { soft("no states"); m.nS = 1; }
    if (!have[3]) { soft("no actions"); m.nA = 1; }
    m.pomdp = have[4];
    if (repeated) unspec("repeated preamble statement");
    int nS = m.nS, nA = m.nA, nO = m.nO;
    if ((double)nS * nS * nA * std::max(1, nO) > 4e6) unspec("huge model");
    m.T.assign(nA, Mat(nS, Vec(nS, 0.0)));
    m.O.assign(nA, Mat(nS, Vec(std::max(1, nO), 0.0)));
    m.r.assign((size_t)nA * nS * nS * std::max(1, nO), 0.0);
    if (!started) { m.b0.assign(nS, 0.0); startState(); }
    while (cur().k != END) {
      if (isWord("T")) { p++; eatColon(); trans(); }
      else if (isWord("O")) { p++; eatColon(); obs(); if (!m.pomdp) soft("observations in an MDP"); }
      else if (isWord("R")) { p++; eatColon(); rew(); }
      else bad("expected T, O or R");
    }
    for (int a = 0; a < nA; a++) for (int s = 0; s < nS; s++) {
      double x = 0, y = 0;
      for (double v : m.T[a][s]) x += v;
      for (double v : m.O[a][s]) y += v;
      if (fabs(x - 1) > 1e-5) soft("transition probabilities do not sum to one");
      if (m.pomdp && fabs(y - 1) > 1e-5) soft("observation probabilities do not sum to one");
    }
    finish();
  }
  void finish() {
    m.R.assign(m.nA, Vec(m.nS, 0.0));
    m.terminal.assign(m.nS, true);
    for (int a = 0; a < m.nA; a++) for (int s = 0; s < m.nS; s++) {
      double x = 0;
      for (int t = 0; t < m.nS; t++) {
        if (!m.pomdp) x += m.T[a][s][t] * m.rw(a, s, t, 0);
        else for (int o = 0; o < m.nO; o++) x += m.T[a][s][t] * m.O[a][t][o] * m.rw(a, s, t, o);
      }
      m.R[a][s] = m.cost ? -x : x;
      if (fabs(m.T[a][s][s] - 1) > 1e-10 || fabs(x) > 1e-12) m.terminal[s] = false;
    }
  }
  void startState() {
    int nS = m.nS;
    if (!isWord("start")) {
      if (!m.pomdp) soft("no start state");
      if (m.pomdp) m.b0.assign(nS, 1.0 / nS);
      return;
    }
    p++;
    if (isWord("include") || isWord("exclude")) {
      bool inc = isWord("include");
      p++; eatColon();
      if (!m.pomdp) soft("start include/exclude in an MDP");
      if (!isEntity()) bad("expected states");
      m.b0.assign(nS, inc ? 0 : 1);
      while (isEntity()) {
        int s = entity(0, nS);
        startStar |= m.pomdp && s < 0;
        each(s, nS, [&](int k) { m.b0[k] = inc ? 1 : 0; });
      }
      double x = 0;
      for (double v : m.b0) x += v;
      if (x <= 0) { soft("no start state left"); return; }
      for (double &v : m.b0) v /= x;
      return;
    }
    eatColon();
    if (cur().k == STR) {
      int s = entity(0, nS);
      if (m.pomdp) m.b0[s] = 1; else m.start = s;
      return;
    }
    if (isWord("uniform")) { p++; if (!m.pomdp) soft("uniform start in an MDP"); m.b0.assign(nS, 1.0 / nS); return; }
    if (isWord("reset")) { p++; soft("start: reset"); return; }
    if (!isProb()) bad("expected the start distribution");
    if (!m.pomdp) {
      if (cur().k == FLT && !(lenient && cur().v == floor(cur().v))) soft("start state must be an integer");
      if (cur().v >= nS) soft("start state out of range");
      else m.start = (int)cur().v;
      p++;
      // in an MDP a list is too many entries
      while (isProb()) { if (cur().k == FLT) soft("start state must be an integer"); soft("one start state only"); p++; }
      return;
    }
    int i = 0;
    while (isProb()) {
      double v = prob();
      if (i < nS) m.b0[i] = v; else soft("too many start probabilities");
      i++;
    }
    if (lenient && i == 1 && nS > 1 && toks[p - 1].v == floor(toks[p - 1].v)) {
      int st = (int)toks[p - 1].v;
      if (toks[p - 1].v < 0 || toks[p - 1].v >= nS) { soft("start state out of range"); return; }
      m.b0.assign(nS, 0);
      m.b0[st] = 1;
      return;
    }
    if (i < nS) soft("too few start probabilities");
    double x = 0;
    for (double v : m.b0) x += v;
    if (fabs(x - 1) > 1e-5) soft("start probabilities do not sum to one");
  }
  vector<double> probs(size_t n) {
    vector<double> v;
    if (!isProb()) bad("expected probabilities");
    while (isProb()) v.push_back(prob());
    if (v.size() != n) { soft("wrong number of entries"); v.resize(n, 0.0); }
    return v;
  }
  vector<double> nums(size_t n) {
    vector<double> v;
    if (!isNumberStart()) bad("expected numbers");
    while (isNumberStart()) v.push_back(number());
    if (v.size() != n) { soft("wrong number of entries"); v.resize(n, 0.0); }
    return v;
  }
  void trans() {
    int nS = m.nS, nA = m.nA;
    int a = entity(1, nA);
    if (cur().k != COLON) {
      vector<double> v;
      if (isWord("uniform")) { p++; v.assign(nS * nS, 1.0 / nS); }
      else if (isWord("identity")) { p++; v.assign(nS * nS, 0); for (int i = 0; i < nS; i++) v[i * nS + i] = 1; }
      else v = probs((size_t)nS * nS);
      each(a, nA, [&](int x) { for (int i = 0; i < nS; i++) for (int j = 0; j < nS; j++) m.T[x][i][j] = v[i * nS + j]; });
      return;
    }
    p++;
    int s = entity(0, nS);
    if (cur().k != COLON) {
      vector<double> v;
      if (isWord("uniform")) { p++; v.assign(nS, 1.0 / nS); }
      else if (isWord("reset")) {
        p++;
        if (m.pomdp) v = m.b0;
        else {
          if (m.start < 0) unspec("reset without a start state");
          resetUsed = true;
          v.assign(nS, 0);
          v[m.start] = 1;
          if (bugReset) { each(a, nA, [&](int x) { each(s, nS, [&](int y) { m.T[x][y][m.start] = 1; }); }); return; }
        }
      } else v = probs(nS);
      each(a, nA, [&](int x) { each(s, nS, [&](int y) { m.T[x][y] = v; }); });
      return;
    }
    p++;
    int t = entity(0, nS);
    double v = prob();
    each(a, nA, [&](int x) { each(s, nS, [&](int y) { each(t, nS, [&](int z) { m.T[x][y][z] = v; }); }); });
  }
  void obs() {
    int nS = m.nS, nA = m.nA, nO = m.nO;
    int a = entity(1, nA);
    if (cur().k != COLON) {
      vector<double> v;
      if (isWord("uniform")) { p++; v.assign(nS * nO, 1.0 / std::max(1, nO)); }
      else if (isWord("reset")) { p++; bad("O: reset"); }
      else v = probs((size_t)nS * nO);
      if (m.pomdp) each(a, nA, [&](int x) { for (int i = 0; i < nS; i++) for (int j = 0; j < nO; j++) m.O[x][i][j] = v[i * nO + j]; });
      return;
    }
    p++;
    int s = entity(0, nS);
    if (cur().k != COLON) {
      vector<double> v;
      if (isWord("uniform")) { p++; v.assign(nO, 1.0 / std::max(1, nO)); }
      else if (isWord("reset")) { p++; bad("O: reset"); }
      else v = probs(nO);
      if (m.pomdp) each(a, nA, [&](int x) { each(s, nS, [&](int y) { m.O[x][y] = v; }); });
      return;
    }
    p++;
    int o = entity(2, nO);
    double v = prob();
    if (m.pomdp) each(a, nA, [&](int x) { each(s, nS, [&](int y) { each(o, nO, [&](int z) { m.O[x][y][z] = v; }); }); });
  }
  void rew() {
    int nS = m.nS, nA = m.nA, nO = m.pomdp ? m.nO : 1;
    int a = entity(1, nA);
    auto set = [&](int a, int s, int t, int o, double v) {
      each(a, nA, [&](int x) { each(s, nS, [&](int y) { each(t, nS, [&](int z) { each(o, nO, [&](int w) { m.rw(x, y, z, w) = v; }); }); }); });
    };
    if (cur().k != COLON) {
      if (m.pomdp) { nums(1); bad("reward matrix per action in a POMDP"); }
      vector<double> v = nums((size_t)nS * nS);
      for (int i = 0; i < nS; i++) for (int j = 0; j < nS; j++) set(a, i, j, 0, v[i * nS + j]);
      return;
    }
    p++;
    int s = entity(0, nS);
    if (cur().k != COLON) {
      vector<double> v = nums(m.pomdp ? (size_t)nS * nO : nS);
      for (int i = 0; i < nS; i++) for (int o = 0; o < nO; o++) set(a, s, i, o, v[i * nO + o]);
      return;
    }
    p++;
    int t = entity(0, nS);
    if (cur().k != COLON) {
      vector<double> v = nums(m.pomdp ? nO : 1);
      for (int o = 0; o < nO; o++) set(a, s, t, o, v[o]);
      return;
    }
    p++;
    int o = entity(2, m.nO);
    if (!m.pomdp) { number(); bad("reward per observation in an MDP"); }
    set(a, s, t, o, number());
  }
};
}  // namespace mc
#endif
