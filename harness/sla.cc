// sla.cc - P12: sparse linear algebra against dense arrays.
// Everything enumerable within the bounds is enumerated: all pairs of vectors over a
// small alphabet (absent, explicit zero, tiny, around the sparsity threshold, small
// dyadics) for every length up to a bound, all small matrices, all short insertion
// sequences, and structured larger operands on both sides of the density switch.
#include "zm.h"
#include "sla.h"
#include "sla_mask.h"
using namespace mc;
using namespace sla;

static Run *G;
static string gWhere;
static void bad(const char *op, const string &msg) {
  G->fail(string("op:") + op, msg + "\n" + gWhere);
}
static cvector cv(const Vec &x, const vector<char> &present) {
  cvector r;
  r.resize(x.size());
  for (size_t i = 0; i < x.size(); i++) if (present[i]) r.push_back(i, x[i]);
  return r;
}
static dvector dv(const Vec &x) { dvector r; r.resize(x.size()); for (size_t i = 0; i < x.size(); i++) r(i) = x[i]; return r; }
static string sv(const cvector &c) {
  string s = fmt("n=%u:", c.size());
  for (auto &e : c.data) s += fmt(" %u:%.12g", e.index, e.value);
  return s;
}
static const double EPS = 1e-10;
// the value must be the dense one; where dropping entries at or below the sparsity
// threshold is the documented behaviour, an absent entry stands for any such value
static void checkC(const char *op, const cvector &r, const Vec &want, bool mayDrop, bool mustDrop = false) {
  if (r.size() != want.size()) { bad(op, fmt("size %u, expected %zu", r.size(), want.size())); return; }
  long last = -1;
  vector<char> seen(want.size(), 0);
  for (auto &e : r.data) {
    if ((long)e.index <= last || e.index >= want.size()) { bad(op, "result not canonical: " + sv(r)); return; }
    last = e.index;
    seen[e.index] = 1;
    if (!(fabs(e.value - want[e.index]) <= 1e-13 * (1 + fabs(want[e.index])))) { bad(op, fmt("entry %u: %.15g, dense %.15g; ", e.index, e.value, want[e.index]) + sv(r)); return; }
    if (mustDrop && fabs(e.value) < EPS * (1 - 1e-9)) { bad(op, fmt("entry %u: %.15g kept although below the sparsity threshold; ", e.index, e.value) + sv(r)); return; }
  }
  for (size_t i = 0; i < want.size(); i++)
    if (!seen[i] && fabs(want[i]) > (mayDrop ? EPS * (1 + 1e-9) : 0)) { bad(op, fmt("entry %zu missing, dense %.15g; ", i, want[i]) + sv(r)); return; }
  for (size_t i = 0; i < want.size(); i++)
    if (r(i) != (seen[i] ? r(i) : 0.0)) bad(op, "operator()");
}
static void checkD(const char *op, const dvector &r, const Vec &want) {
  if (r.size() != want.size()) { bad(op, fmt("size %u, expected %zu", r.size(), want.size())); return; }
  for (size_t i = 0; i < want.size(); i++)
    if (!(fabs(r(i) - want[i]) <= 1e-13 * (1 + fabs(want[i])))) { bad(op, fmt("entry %zu: %.15g, dense %.15g", i, r(i), want[i])); return; }
}
static void checkS(const char *op, double got, double want) {
  if (!(fabs(got - want) <= 1e-13 * (1 + fabs(want)))) bad(op, fmt("%.15g, dense %.15g", got, want));
}
// results start out holding something else
static cvector junkC() { cvector j; j.resize(7); j.push_back(1, 5); j.push_back(6, -3); return j; }
static dvector junkD() { dvector j; j.resize(2); j(0) = 9; j(1) = 8; return j; }

static void unary(const Vec &x, const vector<char> &p) {
  cvector c = cv(x, p);
  dvector d = dv(x);
  size_t n = x.size();
  G->count("operations", 20);
  for (size_t i = 0; i < n; i++) checkS("cvector()", c(i), x[i]);
  { dvector r = junkD(); copy(r, c); checkD("copy(d,c)", r, x); }
  { dvector r = junkD(); copy(r, d); checkD("copy(d,d)", r, x); }
  { cvector r = junkC(); copy(r, d); checkC("copy(c,d)", r, x, true, true); }
  { cvector r = junkC(); copy(r, c); checkC("copy(c,c)", r, x, false); }
  double s = 0, a = 0, mx = 0;
  for (double v : x) { s += v; a += fabs(v); mx = std::max(mx, fabs(v)); }
  checkS("sum(c)", sum(c), s);
  checkS("sum(d)", sum(d), s);
  checkS("norm_1", norm_1(c), a);
  checkS("norm_inf(c)", norm_inf(c), mx);
  checkS("norm_inf(d)", norm_inf(d), mx);
  for (double k : {2.0, -0.5, 0.0}) {
    Vec w = x;
    for (double &v : w) v *= k;
    cvector r = c; r *= k; checkC("c*=", r, w, false);
    dvector q = d; q *= k; checkD("d*=", q, w);
  }
  { Vec w(n, 0.0); cvector r = c; r -= r; checkC("c-=self", r, w, false); }
  { Vec w = x; for (double &v : w) v *= 2; cvector r = c; r += r; checkC("c+=self", r, w, false); dvector q = d; q += q; checkD("d+=self", q, w); }
  if (n) {
    double best = x[0];
    for (double v : x) best = std::max(best, v);
    int i = MatrixUtils::argmax_elt(d), j = MatrixUtils::argmax_elt(c);
    if (i < 0 || i >= (int)n || x[i] != best) bad("argmax(d)", fmt("index %d", i));
    if (j < 0 || j >= (int)n || x[j] != best) bad("argmax(c)", fmt("index %d of ", j) + sv(c));
  }
  { cvector m = junkC(); mask_set_all(m, n); checkC("mask_set_all", m, Vec(n, 1.0), false); }
  { dvector r = junkD(); set_to_one(r, n); checkD("set_to_one(d)", r, Vec(n, 1.0)); }
  { cvector r = junkC(); set_to_one(r, n); checkC("set_to_one(c)", r, Vec(n, 1.0), false); }
  { std::ostringstream o; o.precision(17); d.write(o); std::istringstream in(o.str()); dvector r = junkD(); r.read(in); checkD("d.write/read", r, x); }
  { std::ostringstream o; o.precision(17); o << n << " " << c.filled() << "\n"; for (auto &e : c.data) o << e.index << " " << e.value << "\n";
    std::istringstream in(o.str()); cvector r = junkC(); r.read(in); checkC("c.read", r, x, false); }
}
static bool explicitZero(const Vec &x, const vector<char> &p) {
  for (size_t i = 0; i < x.size(); i++) if (p[i] && x[i] == 0) return true;
  return false;
}
static void binary(const Vec &x, const vector<char> &px, const Vec &y, const vector<char> &py) {
  size_t n = x.size();
  cvector cx = cv(x, px), cy = cv(y, py);
  dvector dx = dv(x), dy = dv(y);
  G->count("operations", 18);
  Vec w(n), m(n), e(n), b(n);
  double ip = 0;
  bool dom0 = true, dom5 = true;
  for (size_t i = 0; i < n; i++) {
    w[i] = x[i] + y[i]; m[i] = x[i] - y[i]; e[i] = x[i] * y[i]; b[i] = std::max(x[i], y[i]);
    ip += e[i];
    if (x[i] < y[i]) dom0 = false;
    if (x[i] < y[i] - .5) dom5 = false;
  }
  { cvector r = junkC(); add(r, cx, cy); checkC("add", r, w, false); }
  { cvector r = junkC(); subtract(r, cx, cy); checkC("subtract", r, m, false); }
  { cvector r = cx; r += cy; checkC("c+=", r, w, false); }
  { cvector r = cx; r -= cy; checkC("c-=", r, m, false); }
  { dvector r = dx; r += dy; checkD("d+=", r, w); }
  { dvector r = dx; r -= dy; checkD("d-=", r, m); }
  { cvector r = junkC(); emult(r, cx, cy); checkC("emult(c,c)", r, e, false); }
  { dvector r = junkD(); emult(r, dx, dy); checkD("emult(d,d)", r, e); }
  { dvector r = junkD(); emult(r, dx, cy); checkD("emult(d,c)", r, e); }
  { dvector r = junkD(); emax(r, dx, dy); checkD("emax", r, b); }
  { dvector r = dx; max_assign(r, dy); checkD("max_assign", r, b); }
  checkS("inner_prod(d,c)", inner_prod(dx, cy), ip);
  checkS("inner_prod(c,c)", inner_prod(cx, cy), ip);
  if (dominates(dx, dy, 0) != dom0 || dominates(dx, dy, .5) != dom5) bad("dominates(d)", "");
  if (dominates(cx, cy, 0) != dom0 || dominates(cx, cy, .5) != dom5) bad("dominates(c)", sv(cx) + " / " + sv(cy));
  // y as a mask: its present entries
  Vec mx(n), one(n);
  bool sub = true, subnz = true;
  for (size_t i = 0; i < n; i++) {
    mx[i] = py[i] ? x[i] : 0; one[i] = py[i] ? 1 : 0;
    if (px[i] && !py[i]) sub = false;
    if (x[i] != 0 && !py[i]) subnz = false;
  }
  if (mask_subset(cx, cy) != sub && mask_subset(cx, cy) != subnz) bad("mask_subset", sv(cx) + " / " + sv(cy));
  { cvector r = junkC(); mask_copy(r, dx, cy); checkC("mask_copy(d)", r, mx, false); }
  { cvector r = junkC(); mask_copy(r, cx, cy); checkC("mask_copy(c)", r, mx, false); }
  { cvector r = junkC(); mask_set_to_one(r, cy); checkC("mask_set_to_one", r, one, false);
    if (r.filled() != cy.filled()) bad("mask_set_to_one", "support"); }
  {
    // x dominates y under masks equal to their supports
    bool ys = true;
    for (size_t i = 0; i < n; i++) if (py[i] && !px[i]) ys = false;
    if (mask_dominates(cx, cy, 0, cx, cy) != (ys && dom0)) bad("mask_dominates", sv(cx) + " / " + sv(cy));
    if (mask_dominates(cx, cy, .5, cx, cy) != (ys && dom5)) bad("mask_dominates", sv(cx) + " / " + sv(cy));
  }
  G->outcome(mix(mix(hdbl(ip), dom0 * 4 + dom5 * 2 + sub), mix(hdbl(w[0]), hdbl(e[n - 1]))));
}
struct SM { int n1, n2; Mat d; vector<vector<char>> p; };   // dense + presence (row,col)
static kmatrix km(const SM &a, bool reversed) {
  kmatrix k;
  k.resize(a.n1, a.n2);
  vector<std::pair<int, int>> cells;
  for (int r = 0; r < a.n1; r++) for (int c = 0; c < a.n2; c++) if (a.p[r][c]) cells.push_back({r, c});
  if (reversed) std::reverse(cells.begin(), cells.end());
  for (auto &q : cells) kmatrix_set_entry(k, q.first, q.second, a.d[q.first][q.second]);
  return k;
}
static void checkM(const char *op, const cmatrix &r, const Mat &want, int n1, int n2) {
  if ((int)r.size1() != n1 || (int)r.size2() != n2 || (int)r.col_starts.size() != n2 + 1) { bad(op, "shape"); return; }
  size_t tot = 0;
  for (int c = 0; c < n2; c++) {
    if (r.col_starts[c] > r.col_starts[c + 1] || r.col_starts[c + 1] > r.data.size()) { bad(op, "column starts"); return; }
    long last = -1;
    for (unsigned i = r.col_starts[c]; i < r.col_starts[c + 1]; i++) {
      if ((long)r.data[i].index <= last || (int)r.data[i].index >= n1) { bad(op, "column not canonical"); return; }
      last = r.data[i].index;
      if (fabs(r.data[i].value) < EPS * (1 - 1e-9)) { bad(op, "entry below the sparsity threshold kept"); return; }
      tot++;
    }
    if (r.filled_in_column(c) != r.col_starts[c + 1] - r.col_starts[c]) bad(op, "filled_in_column");
  }
  if (tot != r.filled()) bad(op, "filled");
  for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) {
    double v = r(i, j), w = want[i][j];
    if (!(fabs(v - w) <= 1e-13 * (1 + fabs(w))) && !(v == 0 && fabs(w) <= EPS * (1 + 1e-9))) bad(op, fmt("(%d,%d): %.15g, dense %.15g", i, j, v, w));
  }
}
static Mat transposed(const Mat &a, int n1, int n2) { Mat t(n2, Vec(n1)); for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) t[j][i] = a[i][j]; return t; }
static Vec effective(const Vec &v) { Vec r = v; for (double &x : r) if (fabs(x) <= EPS) x = 0; return r; }
struct CM { SM s; cmatrix a; Mat eff; };
static CM makeCM(const SM &s) {
  CM r;
  r.s = s;
  kmatrix k = km(s, false), k2 = km(s, true);
  for (int i = 0; i < s.n1; i++) for (int j = 0; j < s.n2; j++) checkS("kmatrix()", k(i, j), s.d[i][j]);
  r.a.resize(2, 5);
  r.a.push_back(1, 1, 3);
  copy(r.a, k);
  checkM("copy(m,k)", r.a, s.d, s.n1, s.n2);
  cmatrix b;
  copy(b, k2);
  checkM("copy(m,k reversed)", b, s.d, s.n1, s.n2);
  kmatrix_transpose_in_place(k2);
  cmatrix t;
  copy(t, k2);
  checkM("transpose", t, transposed(s.d, s.n1, s.n2), s.n2, s.n1);
  {
    std::ostringstream o; o.precision(17); r.a.write(o); std::istringstream in(o.str()); cmatrix q; q.read(in); checkM("m.write/read", q, s.d, s.n1, s.n2);
  }
  r.eff = s.d;
  for (auto &row : r.eff) row = effective(row);
  for (int c = 0; c < s.n2; c++) {
    Vec col(s.n1);
    for (int i = 0; i < s.n1; i++) col[i] = r.eff[i][c];
    { cvector q = junkC(); copy_from_column(q, r.a, c); checkC("copy_from_column(c)", q, col, false); }
    { dvector q = junkD(); copy_from_column(q, r.a, c); checkD("copy_from_column(d)", q, col); }
  }
  G->count("operations", 6 + 2 * s.n2);
  return r;
}
static void matvec(const CM &m, const Vec &x, const vector<char> &px, bool right) {
  const Mat &A = m.eff;
  int n1 = m.s.n1, n2 = m.s.n2;
  cvector cx = cv(x, px);
  dvector dx = dv(x);
  if (right) {   // A * x
    Vec w(n1, 0.0);
    for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) w[i] += A[i][j] * x[j];
    { dvector r = junkD(); mult(r, m.a, cx); checkD("mult(d,A,c)", r, w); }
    { cvector r = junkC(); mult(r, m.a, cx); checkC("mult(c,A,c)", r, w, true, true); G->outcome(mix(hdbl(w[0] + 3 * w[n1 - 1]), r.filled())); }
    G->count("operations", 2);
  } else {       // x * A
    Vec w(n2, 0.0);
    for (int j = 0; j < n2; j++) for (int i = 0; i < n1; i++) w[j] += A[i][j] * x[i];
    { dvector r = junkD(); mult(r, dx, m.a); checkD("mult(d,d,A)", r, w); }
    { dvector r = junkD(); mult(r, cx, m.a); checkD("mult(d,c,A)", r, w); }
    { cvector r = junkC(); mult(r, cx, m.a); checkC("mult(c,c,A)", r, w, true, true); }
    for (int c = 0; c < n2; c++) {
      Vec e(n1);
      for (int i = 0; i < n1; i++) e[i] = A[i][c] * x[i];
      { cvector r = junkC(); emult_column(r, m.a, c, cx); checkC("emult_column(c)", r, e, false); }
      { dvector r = junkD(); emult_column(r, m.a, c, dx); checkD("emult_column(d)", r, e); }
      checkS("inner_prod_column", inner_prod_column(m.a, c, cx), w[c]);
    }
    G->count("operations", 3 + 3 * n2);
  }
}

void mc_enumerate(Run &R) {
  G = &R;
  // ---- vectors
  // value alphabet; index 0 = absent
  const Vec A4 = {0, 0, 1, -2, .5, 3e-11, 3e-10};
  const Vec A5 = {0, 1, -2, 0.25};
  auto decode = [](long code, int n, const Vec &al, Vec &x, vector<char> &p, bool hasExplicit) {
    x.assign(n, 0.0); p.assign(n, 0);
    for (int i = 0; i < n; i++) { int d = code % al.size(); code /= al.size(); x[i] = al[d]; p[i] = d != 0; }
  };
  auto power = [](long b, int e) { long r = 1; while (e--) r *= b; return r; };
  int nmax = R.thorough ? 4 : 3;
  auto family = [&](int n, const Vec &al, const char *nm) {
    long N = power(al.size(), n);
    long blk = std::max(1L, 20000 / N);
    for (long s = 0; s < N; s += blk)
      R.run([&] { return fmt("%s n=%d first=%ld", nm, n, s); }, [&] {
        Vec x, y; vector<char> px, py;
        for (long i = s; i < std::min(N, s + blk); i++) {
          decode(i, n, al, x, px, true);
          gWhere = "x=" + vstr(x) + " " + sv(cv(x, px));
          unary(x, px);
          R.count("states");
          for (long j = 0; j < N; j++) {
            decode(j, n, al, y, py, true);
            gWhere = "x=" + sv(cv(x, px)) + " y=" + sv(cv(y, py));
            binary(x, px, y, py);
            R.count("pairs");
            if (R.failsThisCase > 3) return;
          }
        }
        if (s == blk * 3) R.sample(gWhere);
      });
  };
  for (int n = 1; n <= nmax; n++) family(n, A4, "vec");
  family(R.thorough ? 6 : 5, A5, "vecsmall");
  // ---- all support patterns of longer vectors (index bookkeeping at the ends)
  int ln = R.thorough ? 11 : 9;
  for (int xa = 0; xa < (1 << ln); xa += 4)
    R.run([&] { return fmt("supports n=%d %d", ln, xa); }, [&] {
      for (int xs = xa; xs < xa + 4; xs++) {
        Vec x(ln, 0.0), y(ln, 0.0); vector<char> px(ln, 0), py(ln, 0);
        for (int i = 0; i < ln; i++) if (xs >> i & 1) { px[i] = 1; x[i] = i % 3 ? 1 + i : -1 - i; }
        for (int ys = 0; ys < (1 << ln); ys++) {
          for (int i = 0; i < ln; i++) { py[i] = ys >> i & 1; y[i] = py[i] ? .25 * (i - 3.5) : 0; }
          gWhere = "x=" + sv(cv(x, px)) + " y=" + sv(cv(y, py));
          binary(x, px, y, py);
          R.count("pairs");
        }
        R.count("states");
      }
    });
  // ---- matrices: all over the alphabet
  const Vec M3 = {0, 1, -.5, 5e-11};
  const Vec X3 = {0, 2, -1, 2e-10};
  struct Sh { int a, b; };
  vector<Sh> shapes = {{1, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}};
  for (auto sh : shapes) {
    int cells = sh.a * sh.b;
    Vec al = cells > 6 && !R.thorough ? Vec{0, 1, -.5} : M3;
    long N = power(al.size(), cells);
    long blk = 64;
    for (long s = 0; s < N; s += blk)
      R.run([&] { return fmt("mat %dx%d first=%ld", sh.a, sh.b, s); }, [&] {
        for (long i = s; i < std::min(N, s + blk); i++) {
          SM m; m.n1 = sh.a; m.n2 = sh.b;
          m.d.assign(sh.a, Vec(sh.b, 0.0)); m.p.assign(sh.a, vector<char>(sh.b, 0));
          long c = i;
          gWhere = "A=";
          for (int r = 0; r < sh.a; r++) for (int q = 0; q < sh.b; q++) { int d = c % al.size(); c /= al.size(); m.d[r][q] = al[d]; m.p[r][q] = d != 0; gWhere += fmt("%g ", al[d]); }
          CM cm = makeCM(m);
          R.count("states");
          string w0 = gWhere;
          Vec x; vector<char> px;
          for (int right = 0; right < 2; right++) {
            int n = right ? sh.b : sh.a;
            long K = power(X3.size(), n);
            for (long j = 0; j < K; j++) {
              decode(j, n, X3, x, px, true);
              gWhere = w0 + " x=" + vstr(x);
              matvec(cm, x, px, right);
              R.count("pairs");
            }
          }
        }
      });
  }
  // ---- insertion sequences: order, duplicates, zeros overriding earlier values
  {
    const Vec kv = {1, 2, 0, 5e-11};
    int cells = 6, len = R.thorough ? 4 : 3;
    long per = cells * kv.size(), N = power(per, len);
    for (long s = 0; s < N; s += 512)
      R.run([&] { return fmt("kseq first=%ld", s); }, [&] {
        for (long i = s; i < std::min(N, s + 512); i++) {
          kmatrix k; k.resize(2, 3);
          Mat w(2, Vec(3, 0.0));
          long c = i;
          gWhere = "inserts:";
          for (int t = 0; t < len; t++) {
            int e = c % per; c /= per;
            int cell = e % cells; double v = kv[e / cells];
            if (i % 2) kmatrix_set_entry(k, cell / 3, cell % 3, v); else k.push_back(cell / 3, cell % 3, v);
            w[cell / 3][cell % 3] = v;
            gWhere += fmt(" (%d,%d)=%g", cell / 3, cell % 3, v);
          }
          kmatrix k2 = k, k3 = k;
          cmatrix a; copy(a, k);
          checkM("kmatrix inserts", a, w, 2, 3);
          k3.canonicalize();
          for (int r = 0; r < 2; r++) for (int q = 0; q < 3; q++) checkS("kmatrix()", k3(r, q), w[r][q]);
          kmatrix_transpose_in_place(k2);
          cmatrix t; copy(t, k2);
          checkM("transpose inserts", t, transposed(w, 2, 3), 3, 2);
          // a later write after the transposition still wins
          k2.push_back(0, 0, 7);
          copy(t, k2);
          Mat w2 = transposed(w, 2, 3); w2[0][0] = 7;
          checkM("insert after transpose", t, w2, 3, 2);
          R.count("states"); R.count("operations", 5);
        }
      });
  }
  // ---- larger structured operands, both sides of the density switch
  vector<int> sizes;
  for (int n = 4; n <= (R.thorough ? 48 : 26); n++) sizes.push_back(n);
  for (int n : sizes)
    for (int pa = 0; pa < 10; pa++)
      R.run([&] { return fmt("big n=%d pattern=%d", n, pa); }, [&] {
        SM m; m.n1 = m.n2 = n; m.d.assign(n, Vec(n, 0.0)); m.p.assign(n, vector<char>(n, 0));
        auto put = [&](int r, int c, double v) { m.d[r][c] = v; m.p[r][c] = 1; };
        for (int r = 0; r < n; r++) for (int c = 0; c < n; c++) {
          bool on = false;
          switch (pa) {
            case 0: on = r == c; break;
            case 1: on = (r + 1) % n == c; break;
            case 2: on = abs(r - c) <= 1; break;
            case 3: on = c == n / 2; break;
            case 4: on = r == n - 1; break;
            case 5: on = (r * 7 + c * 3) % 11 == 0; break;
            case 6: on = true; break;
            case 7: on = r == n - 1 - c; break;
            case 8: on = (r * c) % 5 == 2 && c != n - 1; break;
            case 9: on = false; break;
          }
          if (on) put(r, c, ((r * 5 + c * 3) % 7 - 3) * .5);
        }
        gWhere = fmt("A pattern %d n=%d", pa, n);
        CM cm = makeCM(m);
        string w0 = gWhere;
        for (int px = 0; px <= n + 8; px++) {
          Vec x(n, 0.0); vector<char> p(n, 0);
          for (int i = 0; i < n; i++) {
            bool on = px < n ? i == px : px == n ? true : px == n + 1 ? i % 2 == 0 : px == n + 2 ? i % 2 == 1 : px == n + 3 ? i < n / 3 : px == n + 4 ? i >= n - 2
                      : px == n + 5 ? i % 5 == 0 : px == n + 6 ? (i * i) % 7 == 1 : px == n + 7 ? i == 0 || i == n - 1 : false;
            if (on) { p[i] = 1; x[i] = (i % 4 == 3) ? -.25 * (i + 1) : .5 * (i + 1); }
          }
          gWhere = w0 + fmt(" x pattern %d", px);
          matvec(cm, x, p, true);
          matvec(cm, x, p, false);
          // additions that cancel exactly
          cvector a = cv(x, p), b = a;
          b *= -1;
          cvector r = junkC(); add(r, a, b); checkC("add cancelling", r, Vec(n, 0.0), false);
          R.count("pairs");
        }
        R.count("states");
      });
}
