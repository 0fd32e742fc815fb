// included by parse.cc

// ---- one file through one reader in a child process
struct Seen { bool accepted = false, rejected = false, crashed = false; string how, key, diff; };
static Seen readIn(const string &text, bool pomdp, bool fast, RefParser *r) {
  RP->describe((fast ? "[fast reader] " : "[full reader] ") + text.substr(0, 200000));
  string fn = fileFor(pomdp);
  put(fn, text);
  Forked f = forked([&] {
    dup2(2, 1);
    CassandraModel *p = load(fn, pomdp, fast);
    fflush(NULL);
    string key, d;
    if (r && r->verdict == RefParser::VALID) { d = differ(p, r->m, key); if (d != "") d = key + "|" + d; }
    else {
      // whatever was read must at least be a model
      if (p->numStates < 1 || p->getNumActions() < 1) d = "undefined|no states or actions";
      for (int a = 0; d == "" && a < p->getNumActions(); a++) for (int s = 0; s < p->numStates; s++) {
        double x = 0;
        for (int t = 0; t < p->numStates; t++) { double v = p->T[a](s, t); if (!(v >= 0 && v <= 1.00001)) d = "undefined|transition probability"; x += v; }
        if (!(fabs(x - 1) < 2e-5)) d = "undefined|transition row";
        if (!(fabs(p->R(s, a)) < 1e300)) d = "undefined|reward";
        if (pomdp) { x = 0; for (int o = 0; o < p->numObservations; o++) { double v = p->O[a](s, o); if (!(v >= 0 && v <= 1.00001)) d = "undefined|observation probability"; x += v; } if (!(fabs(x - 1) < 2e-5)) d = "undefined|observation row"; }
      }
      if (d == "" && pomdp) { double x = 0; if ((int)p->initialBelief.size() != p->numStates) d = "undefined|start size"; for (int s = 0; d == "" && s < p->numStates; s++) { double v = p->initialBelief(s); if (!(v >= 0 && v <= 1.00001)) d = "undefined|start probability"; x += v; } if (!(fabs(x - 1) < 2e-5)) d = "undefined|start"; }
      if (d == "" && !pomdp) { double v = p->initialState(0); if (!(v >= 0 && v < p->numStates && v == floor(v))) d = "undefined|start state"; }
    }
    return "READ" + d;
  }, 20);
  Seen s;
  bool san = f.err.find("Sanitizer") != string::npos || f.err.find("runtime error:") != string::npos;
  if (f.exited && f.code == 0 && f.data.substr(0, 4) == "READ" && !san) {
    s.accepted = true;
    s.diff = f.data.substr(4);
    size_t b = s.diff.find('|');
    if (b != string::npos) { s.key = s.diff.substr(0, b); s.diff = s.diff.substr(b + 1); }
  } else if (f.exited && f.code != 0 && f.code != 99 && !san) {
    s.rejected = true;
    if (f.err.empty()) { s.rejected = false; s.crashed = true; s.how = f.status() + " without any message"; }
  } else { s.crashed = true; s.how = f.status() + ": " + f.err.substr(0, 1500); }
  s.how += f.err.substr(0, 300);
  RP->count("files");
  RP->outcome(mix(hstr(s.accepted ? "a" : s.rejected ? "r" : "c"), hstr(f.err.substr(0, 200))));
  return s;
}
// a file read by both readers, judged by the reference
static void judge(const string &text, bool pomdp, const string &what, bool mustFast = false, bool onlyFull = false) {
  RefParser r;
  r.parse(text, pomdp);
  if (r.verdict == RefParser::UNSPEC && r.why == "huge model") { RP->count("huge"); return; }
  for (bool fast : {false, true}) {
    if (fast && onlyFull) continue;
    RefParser rl, *q = &r;
    if (fast) {
      // the fast reader takes C number forms too, and a single start state
      rl.lenient = true;
      rl.parse(text, pomdp);
      if (rl.verdict == RefParser::UNSPEC || r.verdict == RefParser::INVALID) q = &rl;
    }
    const char *w = fast ? "fast" : "full";
    if (!fast && r.bigInt) {
      // known finding int-overflow may make it a huge model
      RefParser b;
      b.bugInt = true;
      b.parse(text, pomdp);
      if (b.verdict == RefParser::UNSPEC && b.why == "huge model") { RP->count("huge"); continue; }
    }
    auto evaluate = [&](RefParser *q, string &ctx) -> string {
      Seen s = readIn(text, pomdp, fast, q);
      ctx = what + ": reference " + (q->verdict == RefParser::VALID ? "well-formed" : q->verdict == RefParser::INVALID ? "malformed (" + q->why + ")" : "unspecified (" + q->why + ")") + "; " + s.how;
      if (s.crashed) return string("crash-") + w;
      if (s.accepted && q->verdict == RefParser::INVALID) return string("accepts-malformed-") + w;
      if (s.accepted && s.diff != "") { ctx += " " + s.diff; return string(q->verdict == RefParser::VALID ? "meaning-" : "undefined-") + w; }
      if (s.rejected && q->verdict == RefParser::VALID && (!fast || mustFast)) return string("rejects-wellformed-") + w;
      return "";
    };
    string ctx, key = evaluate(q, ctx);
    if (key != "" && !fast && gProp == "P09" && (r.startStar || r.bigInt || r.resetUsed)) continue;    // P08, P10
    if (key != "" && !fast) {
      // a known finding only if the file has its feature and reads exactly as the finding says
      if (r.startStar) key = "start-wildcard";
      else for (int bug = 1; bug < 4; bug++) {
        if (bug & 1 && !r.bigInt || bug & 2 && !r.resetUsed) continue;
        RefParser b;
        b.bugInt = bug & 1;
        b.bugReset = bug & 2;
        b.parse(text, pomdp);
        string c2;
        if (evaluate(&b, c2) != "") continue;
        if (bug & 1) { RP->fail("int-overflow", ctx); key = ""; }
        if (bug & 2) { RP->fail("reset-keeps-row", ctx); key = ""; }
        break;
      }
    }
    if (key != "") RP->fail(key, ctx);
  }
}

static void judgeFull(const string &text, bool pomdp) { judge(text, pomdp, "well-formed file", false, true); }

// ---- the documented subset of the fast reader, statement per line, numbers only
struct FastFile { bool pomdp; vector<string> pre, body; };
static FastFile seedFast(bool pomdp, int k) {
  FastFile f;
  f.pomdp = pomdp;
  f.pre = {"discount: 0.95", "values: reward", "states: 2", "actions: 2"};
  if (pomdp) f.pre.push_back("observations: 2");
  f.pre.push_back(pomdp ? "start: 0.25 0.75" : "start: 1");
  f.body = {"T: 0 : 0 : 0 1", "T: 0 : 1 : 0 0.5", "T: 0 : 1 : 1 0.5", "T: 1 : 0 : 1 1.0", "T: 1 : 1 : 1 1"};
  if (pomdp) for (const char *s : {"O: 0 : 0 : 0 0.75", "O: 0 : 0 : 1 0.25", "O: 0 : 1 : 1 1", "O: 1 : 0 : 0 1", "O: 1 : 1 : 0 1"}) f.body.push_back(s);
  if (k) for (const char *s : {"R: 0 : 0 : * : * 5", "R: 1 : 1 : * : * -2.5"}) f.body.push_back(pomdp ? s : string(s).erase(string(s).find(" : *", 12), 4));
  return f;
}
static string join(const vector<string> &v, const string &sep = "\n") { string s; for (auto &x : v) s += x + sep; return s; }

// a file of the subset: both readers, in process, agree with the reference
static void subset(const string &text, bool pomdp) {
  RefParser r;
  r.parse(text, pomdp);
  if (r.verdict != RefParser::VALID) { RP->count("not_wellformed"); return; }
  RP->describe(text.substr(0, 200000));
  string fn = fileFor(pomdp);
  put(fn, text);
  for (bool fast : {false, true}) {
    CassandraModel *p = load(fn, pomdp, fast);
    string key, d = differ(p, r.m, key);
    if (d != "") RP->fail(string(fast ? "fast-" : "full-") + key, d);
    uint64_t h = 0;
    for (int a = 0; a < r.m.nA; a++) for (int s = 0; s < r.m.nS; s++) h = mix(h, hdbl(p->R(s, a)) + hdbl(p->T[a](s, 0)));
    RP->outcome(h);
    unload(p);
  }
  RP->count("files");
  RP->sample(text.substr(0, 300));
}
static void fastReader() {
  Run &R = *RP;
  for (bool pomdp : {true, false}) {
    FastFile f = seedFast(pomdp, 1);
    // preamble orders (start after the counts), blank lines, comments, trailing blanks, line ends
    vector<int> pm;
    for (size_t i = 0; i + 1 < f.pre.size(); i++) pm.push_back(i);
    do
      R.run([&] { return string("preamble order"); }, [&] {
        string s;
        for (int i : pm) s += f.pre[i] + "\n";
        subset(s + f.pre.back() + "\n" + join(f.body), pomdp);
      });
    while (std::next_permutation(pm.begin(), pm.end()));
    vector<string> all = f.pre;
    all.insert(all.end(), f.body.begin(), f.body.end());
    for (const char *extra : {"", "\n", "# comment T: 0 : 0 : 0 0\n", "   \n", "#\n\n", "\t \t\n", "\r\n"})
      R.run([&] { return string("extra line"); }, [&] {
        for (size_t at = 0; at <= all.size(); at++) { string s; for (size_t i = 0; i < all.size(); i++) s += (i == at ? extra : "") + all[i] + "\n"; subset(s + (at == all.size() ? extra : ""), pomdp); }
        for (const char *nl : {"\n", " \n", "\t\n", "\r\n", "  \r\n", " # c\n"}) {
          string s;
          for (auto &x : all) s += x + nl;
          subset(s, pomdp);
          while (isspace((unsigned char)s.back())) s.pop_back();
          subset(s, pomdp);       // no newline at the end
          for (size_t at = 0; at < all.size(); at++) { string u; for (size_t i = 0; i < all.size(); i++) u += all[i] + (i == at ? nl : "\n"); subset(u, pomdp); }
        }
        // spacing around the colons of the body
        for (const char *c : {" : ", ":", " :", ": ", "  :\t"}) {
          string s = join(f.pre);
          for (auto &x : f.body) { string y = x.substr(0, 2), rest = x.substr(3); size_t p; string z; while ((p = rest.find(" : ")) != string::npos) { z += rest.substr(0, p) + c; rest = rest.substr(p + 3); } s += y + " " + z + rest + "\n"; }
          subset(s, pomdp);
        }
      });
    // body in every order (rotations, reversal, all orders of the small parts)
    R.run([&] { return string("body orders"); }, [&] {
      for (size_t k = 0; k < f.body.size(); k++) { vector<string> b = f.body; std::rotate(b.begin(), b.begin() + k, b.end()); subset(join(f.pre) + join(b), pomdp); std::reverse(b.begin(), b.end()); subset(join(f.pre) + join(b), pomdp); }
      vector<string> b = pomdp ? vector<string>{f.body[1], f.body[2], f.body[5], f.body[6], f.body[10], f.body[11]} : vector<string>{f.body[0], f.body[1], f.body[2], f.body[3], f.body[5], f.body[6]};
      vector<string> rest;
      for (auto &x : f.body) if (std::find(b.begin(), b.end(), x) == b.end()) rest.push_back(x);
      std::sort(b.begin(), b.end());
      do subset(join(f.pre) + join(b) + join(rest), pomdp); while (std::next_permutation(b.begin(), b.end()));
    });
    // later entries override earlier ones: all sequences of extra entries on one row
    vector<string> al;
    for (int t = 0; t < 2; t++) for (const char *v : {"0", "0.25", "0.5", "0.75", "1", "1e-12", "0.0"}) al.push_back(fmt("T: 0 : 1 : %d %s\n", t, v));
    for (const char *v : {"0", "7", "-3.5", "1e-12"}) for (int s = 0; s < 2; s++) al.push_back(fmt("R: 0 : %d %s %s\n", s, pomdp ? ": * : *" : ": *", v));
    if (pomdp) for (int o = 0; o < 2; o++) for (const char *v : {"0", "0.25", "0.75", "1"}) al.push_back(fmt("O: 0 : 0 : %d %s\n", o, v));
    for (size_t i = 0; i < al.size(); i++)
      R.run([&] { return "overrides " + al[i]; }, [&] {
        string base = join(f.pre) + join(f.body);
        subset(base + al[i], pomdp);
        for (auto &b : al) { subset(base + al[i] + b, pomdp); subset(join(f.pre) + al[i] + b + join(f.body), pomdp); for (auto &c : al) { subset(base + al[i] + b + c, pomdp); if (R.thorough) for (auto &d : al) subset(base + al[i] + b + c + d, pomdp); } }
      });
    // every row of transition and observation probabilities and rewards over an alphabet, sizes 1..4
    for (int nS = 1; nS <= 4; nS++) for (int nA = 1; nA <= 2; nA++) for (int nO = 1; nO <= (pomdp ? 3 : 1); nO++) for (int pat = 0; pat < 30; pat++)
      R.run([&] { return fmt("sizes %d %d %d pattern %d", nS, nA, nO, pat); }, [&] {
        string s = pre(pomdp, nS, nA, nO), st = "start:";
        if (pomdp) for (int i = 0; i < nS; i++) st += i == pat % nS ? (nS > 1 ? " 0.625" : " 1") : i == (pat + 1) % nS ? " 0.375" : " 0"; else st += fmt(" %d", pat % nS);
        s += st + "\n";
        for (int a = 0; a < nA; a++) for (int i = 0; i < nS; i++) {
          Vec row(nS, 0.0);
          row[(i + pat) % nS] += .25; row[(i * pat + a) % nS] += .125; row[pat / 5 % nS] += .625;
          for (int j = nS - 1; j >= 0; j--) if (row[j] != 0 || pat % 4 == 0) s += fmt("T: %d : %d : %d %.17g\n", a, i, j, row[j]);
          if (pomdp) { Vec z(nO, 0.0); z[(i + a) % nO] += .3; z[(pat + i) % nO] += .7; for (int o = 0; o < nO; o++) if (z[o] != 0) s += fmt("O: %d : %d : %d %.17g\n", a, i, o, z[o]); }
          if ((pat + i + a) % 3) s += fmt("R: %d : %d : *%s %g\n", a, i, pomdp ? " : *" : "", VALS[(pat + i * 2 + a) % 9]);
        }
        subset(s, pomdp);
      });
    for (int nA = 2; nA <= 4; nA++) for (int a1 = 0; a1 < nA; a1++) for (int kind = 0; kind < 4; kind++)
      R.run([&] { return fmt("closed state of %d actions, %d differs", nA, a1); }, [&] { subset(closed(pomdp, nA, a1, kind), pomdp); });
    // self loops and rewards: terminal states
    for (int k = 0; k < 64; k++)
      R.run([&] { return fmt("terminal %d", k); }, [&] {
        string s = pre(pomdp, 2, 2, 2) + (pomdp ? "start: 1 0\n" : "start: 0\n");
        for (int a = 0; a < 2; a++) for (int i = 0; i < 2; i++) {
          int v = k >> 2 * (i) & 3, w = k >> 4 & 3;
          bool self = v & (1 << a);
          s += fmt("T: %d : %d : %d 1\n", a, i, self ? i : 1 - i);
          if (pomdp) s += fmt("O: %d : %d : %d 1\n", a, i, a);
          s += fmt("R: %d : %d : *%s %s\n", a, i, pomdp ? " : *" : "", w == 0 ? "0" : w == 1 ? (a ? "-1" : "0") : w == 2 ? (i ? "1" : "0") : "0.0");
        }
        subset(s, pomdp);
      });
  }
  // files of the full format: the fast reader reads them the same or refuses them
  auto both = [&](const string &t, bool pomdp) { judge(t, pomdp, "file of the full format"); };
  for (bool pomdp : {true, false}) {
    string head = pre(pomdp, 2, 2, 2) + (pomdp ? "start: 0.25 0.75\n" : "start: 1\n"), T = "", O = "";
    for (int a = 0; a < 2; a++) for (int s = 0; s < 2; s++) { T += fmt("T: %d : %d : %d 1\n", a, s, (s + a) % 2); if (pomdp) O += fmt("O: %d : %d : %d 1\n", a, s, (s + a) % 2); }
    auto rs = rewardStmts(pomdp, 2, 2, 2, 0, false), ts = probStmts('T', 2, 2, 2, true, false), os = probStmts('O', 2, 2, 2, true, false);
    for (auto &x : rs) R.run([&] { return x; }, [&] { both(head + T + O + x, pomdp); });
    for (auto &x : ts) R.run([&] { return x; }, [&] { both(head + x + T + O, pomdp); both(head + T + x + O, pomdp); });
    if (pomdp) for (auto &x : os) R.run([&] { return x; }, [&] { both(head + x + T + O, pomdp); both(head + T + O + x, pomdp); });
    for (const char *d : {"discount: 0.5\n", "discount: 1\n", "discount: 0\n", "discount: 5e-1\n", "discount: +0.5\n", "discount :0.5\n", "discount:\n0.5\n", " discount: 0.5\n"})
      for (const char *v : {"values: reward\n", "values: cost\n", "values :reward\n"})
        for (const char *st : {"states: 2\n", "states: a b\n", "states: 02\n"})
          for (const char *ac : {"actions: 2\n", "actions: a b\n"})
            R.run([&] { return string(d) + v + st + ac; }, [&] {
              for (const char *sx : {"", "start: uniform\n", "start: 0.25 0.75\n", "start: 0\n", "start: 1\n", "start: a\n", "start include: 0\n", "start exclude: 0\n", "start:\n0.5 0.5\n", "start: 0.5\n0.5\n"})
                for (int ord = 0; ord < 2; ord++) {
                  string ob = pomdp ? "observations: 2\n" : "";
                  both((ord ? st + string(ac) + ob + v + d : string(d) + v + st + ac + ob) + sx + T + O, pomdp);
                  if (ord) both(string(d) + v + st + sx + ac + ob + T + O, pomdp);
                }
            });
  }
}

// ---- malformed files
static string join0(const vector<string> &v) { string s; for (auto &x : v) s += x; return s; }
static vector<std::pair<bool, string>> seeds() {
  vector<std::pair<bool, string>> v;
  v.push_back({true, "discount: 0.9\nvalues: reward\nstates: 2\nactions: 2\nobservations: 2\nstart: 0.25 0.75\nT: 0 : 0 : 1 1.0\nT: 0 : 1 0.5 0.5\nT: 1 identity\nO: *\n0.75 0.25\n0.125 0.875\nR: 0 : * : 1 : * -4\nR: 1 : 0\n1 2\n3 4\nR: * : 1 : 0 +5 -6.5\n"});
  v.push_back({true, "discount: 1\nvalues: cost\nstates: a b\nactions: go stay\nobservations: x y\nstart: b\nT: go uniform\nT: stay : * reset\nO: * : a uniform\nO: * : b : x 0\nO: * : b : y 1\nR: go : a : b : x 2e1\n"});
  v.push_back({true, "discount: .5e0\n"});
  v.push_back({true, "values: reward\ndiscount: 0.5\nstates: 3\nactions: 1\nobservations: 1\nstart include: 0 2\nT: 0 1 0 0 0 1 0 0 0 1\nO: 0 uniform\n# end\n"});
  v.push_back({true, "discount: 0.5\nvalues: reward\nstates: 2\nactions: 1\nobservations: 1\nstart exclude: 1\nT: * identity\nO: * : * : * 1\nR: * : * : * : * 1\n"});
  v.push_back({true, "discount: 0.5\nvalues: reward\nstates: 2\nactions: 1\nobservations: 2\nstart: uniform\nT: * uniform\nO: * uniform\nR: 0 : 0 : * : * 1\n"});
  v.push_back({false, "discount: 0.9\nvalues: reward\nstates: 2\nactions: 2\nstart: 1\nT: 0 : 0 : 1 1.0\nT: 0 : 1 0.5 0.5\nT: 1 : * reset\nR: 0 : * : 1 -4\nR: 1 : 0 1 2\nR: 1\n1 2\n3 4\n"});
  v.push_back({false, "discount: 0.9\nvalues: cost\nstates: a b\nactions: go\nstart: a\nT: go identity\nR: go : a : b 3\n"});
  for (bool pomdp : {true, false}) { FastFile f = seedFast(pomdp, 1); v.push_back({pomdp, join(f.pre) + join(f.body)}); }
  return v;
}
static vector<string> tokensOf(const string &t, vector<std::pair<size_t, size_t>> &at) {
  vector<string> r;
  size_t i = 0;
  while (i < t.size()) {
    if (t[i] == '\n') { r.push_back("\n"); at.push_back({i, 1}); i++; continue; }
    if (isspace((unsigned char)t[i])) { i++; continue; }
    if (t[i] == ':') { r.push_back(":"); at.push_back({i, 1}); i++; continue; }
    size_t j = i;
    while (j < t.size() && !isspace((unsigned char)t[j]) && t[j] != ':') j++;
    r.push_back(t.substr(i, j - i)); at.push_back({i, j - i});
    i = j;
  }
  return r;
}
static void malformed() {
  Run &R = *RP;
  auto sd = seeds();
  static const char *repl[] = {"", "0", "1", "2", "-1", "7", "0.5", "1.5", "-0.5", "0.2501", "*", ":", ": :", "a", "zz", "T", "R", "O", "uniform", "identity", "reset", "start", "states",
                               "include", "#", "!", "\n", "99999999", "99999999999", "4294967296", "4294967297", "1e400", "nan", "inf", "0x1", "+", "-", "1e", "1 1", "0 0 0 0 0 0 0 0 0 0 0 0", "reward", "cost"};
  for (size_t k = 0; k < sd.size(); k++) {
    const string &t = sd[k].second;
    bool pomdp = sd[k].first;
    R.run([&] { return fmt("seed %zu", k); }, [&] { judge(t, pomdp, "seed"); judge(t, !pomdp, "seed as the other kind of model"); });
    // every truncation point
    for (size_t c = 0; c < t.size(); c += 8)
      R.run([&] { return fmt("seed %zu truncated at %zu", k, c); }, [&] { for (size_t i = c; i < t.size() && i < c + 8; i++) judge(t.substr(0, i), pomdp, fmt("seed %zu truncated to %zu bytes", k, i)); });
    // every token deleted, replaced, doubled, swapped with the next
    vector<std::pair<size_t, size_t>> at;
    vector<string> tk = tokensOf(t, at);
    for (size_t i = 0; i < tk.size(); i++)
      R.run([&] { return fmt("seed %zu token %zu", k, i); }, [&] {
        string a = t.substr(0, at[i].first), b = t.substr(at[i].first + at[i].second);
        for (auto r : repl) judge(a + " " + r + " " + b, pomdp, fmt("seed %zu token %zu '%s' replaced by '%s'", k, i, tk[i].c_str(), r));
        judge(a + tk[i] + " " + tk[i] + b, pomdp, fmt("seed %zu token %zu doubled", k, i));
        if (i + 1 < tk.size()) judge(a + tk[i + 1] + " " + tk[i] + " " + t.substr(at[i + 1].first + at[i + 1].second), pomdp, fmt("seed %zu tokens %zu swapped", k, i));
      });
    // lines: deleted, doubled, swapped, moved to either end
    vector<string> ln;
    { std::istringstream in(t); string l; while (std::getline(in, l)) ln.push_back(l); }
    for (size_t i = 0; i < ln.size(); i++)
      R.run([&] { return fmt("seed %zu line %zu", k, i); }, [&] {
        auto w = [&](vector<string> v, const char *what) { judge(join(v), pomdp, fmt("seed %zu line %zu %s", k, i, what)); };
        vector<string> v = ln; v.erase(v.begin() + i); w(v, "deleted");
        vector<string> u = v; u.push_back(ln[i]); w(u, "moved to the end");
        u = v; u.insert(u.begin(), ln[i]); w(u, "moved to the front");
        u = ln; u.insert(u.begin() + i, ln[i]); w(u, "doubled");
        for (size_t j = i + 1; j < ln.size(); j++) { u = ln; std::swap(u[i], u[j]); w(u, "swapped"); u = v; u.erase(u.begin() + j - 1); w(u, "deleted with another"); }
      });
    // a statement of another place or kind of model inserted everywhere
    static const char *foreign[] = {"discount: 0.5", "values: cost", "states: 2", "actions: 2", "observations: 2", "start: 0", "start: 0.5 0.5", "start: uniform",
      "T: 0 : 0 : 0 1", "T: 1 : 1 : 0 0", "T: 0 : 0 1 0", "T: 0 identity", "T: 2 : 0 : 0 0", "T: 0 : 2 : 0 0", "T: 0 : 0 : 2 0", "O: 0 : 0 : 0 1", "O: 1 : 1 : 1 1", "O: 0 uniform",
      "O: 2 : 0 : 0 0", "O: 0 : 2 : 0 0", "O: 0 : 0 : 2 0", "R: 0 : 0 : * : * 1", "R: 0 : 0 : * 1", "R: 1 : 1 : 1 : 0 2", "R: 1 : 0 : 1 2", "R: 2 : 0 : * : * 1", "R: 0 : 2 : * : * 1",
      "R: 0 : 0 : 2 : * 1", "R: 0 : 0 : * : 2 1", "R: 0 : 2 : * 1", "T: 0 : 0 : 0", "T: 0 : 0 : 0 1 1", "O: 0 : 0 : 0", "R: 0 : 0 : *", "R: 0 : 0", "E: 0 : 0 1", "X", "0 1", "1"};
    for (size_t i = 0; i <= ln.size(); i++)
      R.run([&] { return fmt("seed %zu statement inserted at line %zu", k, i); }, [&] {
        for (auto x : foreign) { vector<string> u = ln; u.insert(u.begin() + i, x); judge(join(u), pomdp, fmt("seed %zu '%s' inserted before line %zu", k, x, i)); }
      });
    // characters
    if (R.thorough || k == 1 || k == 6 || k >= 8)
      for (size_t i = 0; i <= t.size(); i += 1)
        R.run([&] { return fmt("seed %zu char %zu", k, i); }, [&] {
          for (char c : string(R.thorough ? " \n:*0.-+eT#x\"\\\x80\xff" : "\n:*0-#x\x80")) judge(t.substr(0, i) + c + t.substr(i), pomdp, fmt("seed %zu char inserted at %zu", k, i));
          if (i < t.size()) judge(t.substr(0, i) + t.substr(i + 1), pomdp, fmt("seed %zu char %zu deleted", k, i));
        });
  }
  // lists of values one too short or one too long by a zero, where no sum gives it away
  for (bool pomdp : {true, false})
    R.run([&] { return string("value lists"); }, [&] {
      string h = "discount: 0.9\nvalues: reward\nstates: 2\nactions: 2\n";
      h += pomdp ? "observations: 2\nstart: 1 0\n" : "start: 0\n";
      vector<string> st = {"T: 0\n0 1\n1 0\n", "T: 1 : 0 1 0\n", "T: 1 : 1 1 0\n"};
      if (pomdp) for (auto x : {"O: 0\n0.5 0.5\n1 0\n", "O: 1\n1 0\n1 0\n", "O: 1 : 0 1 0\n", "R: 0 : 0 : 0 1 0\n", "R: 1 : 0\n1 2\n3 0\n"}) st.push_back(x);
      else for (auto x : {"R: 0 : 0 1 0\n", "R: 1\n1 2\n3 0\n"}) st.push_back(x);
      string all = h + join0(st);
      judge(all, pomdp, "value lists");
      vector<string> L = {pomdp ? "start: 1 0\n" : "start: 0\n"};
      for (auto &x : st) L.push_back(x);
      // values taken away from the end one by one, zeros and ones put in front and at the end
      for (auto &x : L) {
        size_t p0 = all.find(x);
        auto sub = [&](const string &y, const char *what) { judge(all.substr(0, p0) + y + all.substr(p0 + x.size()), pomdp, fmt("%s: %s", x.c_str(), what)); };
        string y = x;
        for (int k = 0; k < 4; k++) {
          while (y.size() && isspace((unsigned char)y.back())) y.pop_back();
          if (y.empty() || !isdigit((unsigned char)y.back())) break;
          while (y.size() && (isdigit((unsigned char)y.back()) || y.back() == '.')) y.pop_back();
          sub(y + "\n", "values missing at the end");
        }
        for (auto e : {"0\n", "0 0\n", "1\n", "0 1\n"}) sub(x + e, "values too many");
      }
    });
  // every probability row over an alphabet with values that do not belong
  static const char *pv[] = {"0", "1", "0.5", "0.50002", "0.499", "-0.5", "1.5", "-1", "2", "0.999", "1.0001"};
  for (int kind = 0; kind < 3; kind++) for (auto x : pv)
    R.run([&] { return fmt("rows %d %s", kind, x); }, [&] {
      for (auto y : pv) for (int form = 0; form < 2; form++) for (int which = 0; which < (kind ? 4 : 1); which++) {
        string st = kind == 0 ? fmt("start: %s %s\n", x, y) : "start: 0.5 0.5\n", T, O;
        for (int a = 0; a < 2; a++) for (int s = 0; s < 2; s++) {
          bool me = a * 2 + s == 3 - which;
          auto row = [&](const char *K, bool on) { return on ? (form ? fmt("%s: %d : %d : 0 %s\n%s: %d : %d : 1 %s\n", K, a, s, x, K, a, s, y) : fmt("%s: %d : %d %s %s\n", K, a, s, x, y)) : fmt("%s: %d : %d : %d 1\n", K, a, s, s); };
          T += row("T", me && kind == 1);
          O += row("O", me && kind == 2);
        }
        judge(pre(true, 2, 2, 2) + st + T + O, true, "row");
        if (kind == 1) judge(pre(false, 2, 2, 2) + "start: 0\n" + T, false, "row");
      }
    });
  // long lines and tokens around buffer sizes
  for (int n : {31, 32, 33, 255, 256, 510, 511, 512, 513, 1023, 1024, 4096, 16384, 65536, 1048575, 1048576, 1100000})
    R.run([&] { return fmt("long %d", n); }, [&] {
      FastFile f = seedFast(true, 1);
      string B = join(f.body), big(n, 'x'), dig(n, '1');
      judge("discount: 0.9\nvalues: " + big + "\nstates: 2\nactions: 2\nobservations: 2\nstart: 0.5 0.5\n" + B, true, "long value type");
      judge("discount: 0." + string(n, '9') + "\nvalues: reward\nstates: 2\nactions: 2\nobservations: 2\nstart: 0.5 0.5\n" + B, true, "long number");
      judge(join(f.pre) + B + "# " + big + "\n", true, "long comment");
      judge(join(f.pre) + B + string(n, ' ') + "\n", true, "long blank line");
      judge(join(f.pre) + B + big + "\n", true, "long garbage");
      judge("discount: 0.9\nvalues: reward\nstates: 2 " + dig + "\nactions: 2\nobservations: 2\nstart: 0.5 0.5\n" + B, true, "long digits");
      judge("discount: 0.9\nvalues: reward\nstates: " + big + " b\nactions: 2\nobservations: 2\nstart: 0.5 0.5\nT: * : " + big + " : b 1\nT: * : b : b 1\nO: * uniform\n", true, "long name");
      judge("discount: 0.9\nvalues: reward\nstates: 2\nactions: 2\nobservations: 2\nstart: " + big + "\n" + B, true, "long start name");
      judge("discount: 0.9\nvalues: reward\nstates: 2\nactions: 2\nobservations: 2\nstart: 0.5 0.5\nT: " + big + " identity\n" + B, true, "long unknown action");
    });
  R.run([&] { return string("no such file, directory, empty file"); }, [&] {
    judge("", true, "empty"); judge("", false, "empty"); judge("\n\n", true, "blank"); judge("# only a comment", true, "comment");
  });
}
